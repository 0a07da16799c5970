import itertools
import math
import random
from fractions import Fraction
from decimal import Decimal
from big.all import try_int, try_float, get_int, get_float, get_int_or_float

RULE = 'every function on literals, numeric types and objects whose int / float conversion returns or raises as scripted, with every kind of default; non-trivial: the conversion is scripted or fails'
SECONDS = 8
EXC = ['TypeError', 'ValueError', 'OverflowError', 'ZeroDivisionError', 'KeyError', 'KeyboardInterrupt', 'RuntimeError', 'AttributeError', 'MemoryError', 'ArithmeticError', 'LookupError', 'UnicodeDecodeError', 'NotImplementedError', 'StopIteration', 'AssertionError']
LITS = ['0', '', '12345', ' 7 ', '-3', '3.5', '1e400', '-inf', 'nan', 'abc', '0.0', '1_000', '0x10', '３', b'12', b'1.5', b'x', 3j, None, [], {}, (), 0, 1, -1, True, False, 10 ** 30, 10 ** 400, -10 ** 400, 0.0, -0.0, 0.5, 1.0, -2.0, 1e300, 2.0 ** 53, 1e-320, '9' * 5000, '1e5', 'infinity', '٣']
NUM = [('frac', 7, 2), ('frac', 4, 1), ('dec', '3.5'), ('dec', 'NaN'), ('dec', 'Infinity'), ('dec', '1e3'), ('inf',), ('-inf',), ('nan',), ('fsub', 2.0), ('fsub', 2.5), ('isub', 5), ('ssub', '17'), ('ssub', 'q'), ('type',)]
SC = [0, 5, -1, 10 ** 400, 1.5, 2.0, 'inf', 'nan', 'str'] + EXC
DEF = ['none', None, 0, '', 'self', 'any', 'never', 'raises', 'obj', False, (), 'sentinel-like']
FNS = ['try_int', 'try_float', 'get_int', 'get_float', 'get_int_or_float']


def enumerate_cases(tier):
    for fn in FNS:
        ds = DEF if fn.startswith('get') else ['none']
        for d in ds:
            for v in LITS:
                yield (fn, ('lit', v), d, 0)
            for v in NUM:
                yield (fn, v, d, 1)
            for i, f in itertools.product(SC, repeat=2):
                if d in ('none', 'any', 'raises', None) or (i in EXC[:3] and f in EXC[:3]):
                    yield (fn, ('obj', i, f), d, 0)


def random_case(rng):
    fn = rng.choice(FNS)
    d = rng.choice(DEF) if fn.startswith('get') else 'none'
    r = rng.random()
    if r < .3:
        v = ('lit', ''.join(rng.choice('0123456789.eE+-_ infa') for _ in range(rng.randrange(7))))
    elif r < .5:
        v = ('lit', rng.choice([rng.uniform(-9, 9), float(rng.randrange(-99, 99)), rng.randrange(-9, 9), rng.random() * 10 ** rng.randrange(300), 2.0 ** rng.randrange(-99, 999)]))
    else:
        v = ('obj', rng.choice(SC), rng.choice(SC))
    return (fn, v, d, rng.randrange(2))


def nontrivial(c):
    return c[1][0] == 'obj' or c[2] != 'none'


def shrink(c):
    return ()


class Any:
    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False
    __hash__ = None


class Never:
    def __eq__(self, o):
        return False

    def __ne__(self, o):
        return True
    __hash__ = None


class Raises:
    def __eq__(self, o):
        raise RuntimeError('compared')
    __ne__ = __eq__
    __hash__ = None

    def __bool__(self):
        raise RuntimeError('truth')


def exc(n):
    e = __builtins__[n] if isinstance(__builtins__, dict) else getattr(__builtins__, n)
    if n == 'UnicodeDecodeError':
        return e('utf-8', b'x', 0, 1, 'scripted')
    return e('scripted')


def build(v):
    k = v[0]
    if k == 'lit':
        return v[1]
    if k == 'frac':
        return Fraction(v[1], v[2])
    if k == 'dec':
        return Decimal(v[1])
    if k in ('inf', '-inf', 'nan'):
        return float(k)
    if k == 'fsub':
        return type('F', (float,), {})(v[1])
    if k == 'isub':
        return type('I', (int,), {})(v[1])
    if k == 'ssub':
        return type('S', (str,), {})(v[1])
    if k == 'type':
        return int

    def script(x):
        def f(self):
            if isinstance(x, str) and x in EXC:
                raise exc(x)
            return x if not isinstance(x, str) or x == 'str' else float(x)
        return f
    return type('O', (), {'__int__': script(v[1]), '__float__': script(v[2]), '__eq__': Raises.__eq__, '__ne__': Raises.__eq__, '__bool__': Raises.__bool__, '__hash__': None})()


FAILS = (TypeError, ValueError, OverflowError)


def conv(f, o):
    try:
        return ('v', f(o))
    except FAILS as e:
        return ('f', None)
    except BaseException as e:
        return ('x', type(e))


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b) or not isinstance(a, (int, float)):
        return False
    if isinstance(a, float) and a != a and b != b:
        return True
    return a == b and math.copysign(1, a) == math.copysign(1, b) if isinstance(a, float) else a == b


def floatres(o):
    if math.isinf(o) or math.isnan(o):
        return o
    return int(o) if int(o) == o else o


def check(case):
    fn, v, d, how = case
    o = build(v)
    f = globals()[fn]
    default = {'self': o, 'any': Any(), 'never': Never(), 'raises': Raises(), 'obj': object(), 'sentinel-like': object}.get(d, d) if isinstance(d, str) else d
    args, kw = [], {}
    fallback = o
    if d != 'none':
        fallback = default
        if how:
            args = [default]
        else:
            kw = {'default': default}
    ci, cf = conv(int, o), conv(float, o)
    if fn == 'try_int':
        want = ('x', ci[1]) if ci[0] == 'x' else ('v', ci[0] == 'v')
    elif fn == 'try_float':
        want = ('x', cf[1]) if cf[0] == 'x' else ('v', cf[0] == 'v')
    elif fn == 'get_int':
        want = ci if ci[0] != 'f' else ('v', fallback)
    elif fn == 'get_float':
        want = cf if cf[0] != 'f' else ('v', fallback)
    elif isinstance(o, int):
        want = ('v', o)
    elif isinstance(o, float):
        want = ('v', floatres(o))
    elif ci[0] != 'f':
        want = ci
    elif cf[0] == 'f':
        want = ('v', fallback)
    elif cf[0] == 'x':
        want = cf
    else:
        want = ('v', floatres(cf[1]))
    try:
        got = ('v', f(o, *args, **kw))
    except BaseException as e:
        if type(e).__name__ == 'CaseTimeout':
            raise
        got = ('x', type(e))
        if want[0] != 'x' and isinstance(e, Exception):
            return f'{fn}({v!r}, default {d!r}) raised {e!r}, expected {want[1]!r}'
    if got[0] != want[0]:
        return f'{fn}({v!r}, default {d!r}): {got}, expected {want}'
    if want[0] == 'x':
        if got[1] is not want[1]:
            return f'{fn}({v!r}): raised {got[1]}, expected {want[1]}'
        return None
    g, w = got[1], want[1]
    if not same(g, w):
        try:
            return f'{fn}({v!r}, default {d!r}) returned {g!r}, expected {w!r}'
        except Exception:
            return f'{fn}({v!r}, default {d!r}) returned the wrong object'
    return None
