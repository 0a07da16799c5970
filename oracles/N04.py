import collections
import itertools
import copy
from big.all import encode_strings

RULE = 'nested containers of strings and bytes, subclasses and encodings against a plain recursion; non-trivial: a container holds another one'
SECONDS = 6


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class MyDict(dict):
    pass


class MySet(set):
    pass


class MyStr(str):
    pass


class MyBytes(bytes):
    pass


SUB = {'list': (list, MyList), 'tuple': (tuple, MyTuple), 'dict': (dict, MyDict, collections.OrderedDict), 'set': (set, MySet), 'str': (str, MyStr), 'bytes': (bytes, MyBytes)}
# a description: ('list', k, items) | ('dict', k, pairs) | ('str', k, text) | ('bytes', k, text) | ('bad', n)
BAD = [None, 1, 1.5, object(), frozenset({'a'}), bytearray(b'a'), memoryview(b'a'), range(2), True, iter(['a']), {'a': 1}.keys(), Ellipsis]


def build(d):
    k = d[0]
    if k == 'bad':
        return BAD[d[1]]
    t = SUB[k][d[1]]
    if k in ('str', 'bytes'):
        return t(d[2])
    if k == 'dict':
        return t([(build(a), build(b)) for a, b in d[2]])
    return t([build(x) for x in d[2]])


def has_bad(d):
    if d[0] == 'bad':
        return True
    if d[0] in ('str', 'bytes'):
        return False
    if d[0] == 'dict':
        return any(has_bad(a) or has_bad(b) for a, b in d[2])
    return any(map(has_bad, d[2]))


LEAF = [('str', 0, ''), ('str', 0, 'ab'), ('bytes', 0, b'c'), ('str', 1, 'd'), ('bytes', 1, b''), ('str', 0, 'z\x7f')]


def enumerate_cases(tier):
    for x in LEAF:
        yield (x, 'ascii')
        for k in ('list', 'tuple', 'set', 'dict'):
            for s in range(len(SUB[k])):
                yield ((k, s, ((x, x),) if k == 'dict' else (x,)), 'ascii')
    for k in ('list', 'tuple', 'set'):
        for s in (0, 1):
            for items in itertools.product(LEAF[:4], repeat=3):
                yield ((k, s, items), 'utf-8')
        yield ((k, 0, ()), 'ascii')
    for i in range(len(BAD)):
        yield (('bad', i), 'ascii')
        for k in ('list', 'tuple'):
            yield ((k, 0, (LEAF[1], ('bad', i))), 'ascii')
        yield (('dict', 0, ((LEAF[1], ('bad', i)),)), 'ascii')
        yield (('list', 0, (('dict', 0, ((LEAF[1], ('tuple', 0, (('bad', i),))),)),)), 'ascii')
    for e in ('utf-8', 'utf-16', 'latin-1', 'ascii', 'utf-32-be', 'cp1252'):
        for t in ('a', 'é', '日本', '\x80', '', '\ud800'):
            yield (('list', 0, (('str', 0, t), ('dict', 0, ((('str', 0, t + 'k'), ('tuple', 0, (('str', 1, t), ('bytes', 0, b'\xff')))),)))), e)


def rnd(rng, depth, hashable=False):
    m = rng.random()
    if depth == 0 or m < .3:
        if rng.random() < .04 and not hashable:
            return ('bad', rng.randrange(len(BAD)))
        return (rng.choice(['str', 'str', 'bytes']), rng.choice([0, 0, 1]), None)
    n = rng.randrange(4)
    if hashable:
        return ('tuple', rng.randrange(2), tuple(rnd(rng, depth - 1, True) for _ in range(n)))
    k = rng.choice(['list', 'tuple', 'dict', 'set'])
    s = rng.randrange(len(SUB[k]))
    if k == 'dict':
        return (k, s, tuple((rnd(rng, depth - 1, True), rnd(rng, depth - 1)) for _ in range(n)))
    return (k, s, tuple(rnd(rng, depth - 1, k == 'set') for _ in range(n)))


def fill(rng, d):
    if d[0] in ('str', 'bytes'):
        t = ''.join(rng.choice('abcdeé') if d[0] == 'str' else rng.choice('fgh') for _ in range(rng.randrange(5)))
        return (d[0], d[1], t if d[0] == 'str' else t.encode())
    if d[0] == 'bad':
        return d
    if d[0] == 'dict':
        return (d[0], d[1], tuple((fill(rng, a), fill(rng, b)) for a, b in d[2]))
    return (d[0], d[1], tuple(fill(rng, x) for x in d[2]))


def random_case(rng):
    return (fill(rng, rnd(rng, 4)), rng.choice(['utf-8', 'utf-8', 'ascii', 'latin-1', 'utf-16']))


def nontrivial(c):
    return c[0][0] in ('list', 'tuple', 'dict', 'set') and any(isinstance(x, tuple) and (x[0] in ('list', 'tuple', 'dict', 'set') or isinstance(x[0], tuple)) for x in c[0][2])


def valid(c):
    def ok(d):
        if d[0] == 'bad':
            return isinstance(d[1], int) and d[1] < len(BAD)
        if d[0] in ('str', 'bytes'):
            return isinstance(d[2], str if d[0] == 'str' else bytes)
        return all(map(ok, d[2])) if d[0] != 'dict' else all(ok(a) and ok(b) for a, b in d[2])
    try:
        build(c[0])
        return ok(c[0])
    except Exception:
        return False


def enc(o, e):
    if isinstance(o, bytes):
        return o
    if isinstance(o, str):
        return o.encode(e)
    if isinstance(o, dict):
        return [(enc(k, e), enc(v, e)) for k, v in o.items()]
    if isinstance(o, set):
        return {freeze(enc(x, e)) for x in o}
    return [enc(x, e) for x in o]


def freeze(x):
    return tuple(map(freeze, x)) if isinstance(x, list) else x


def differs(o, r, e):
    """why r is not o encoded"""
    if isinstance(o, bytes):
        return None if r is o or (type(r) is type(o) and r == o) else f'{o!r} became {r!r}'
    if isinstance(o, str):
        return None if isinstance(r, bytes) and r == o.encode(e) else f'{o!r} became {r!r}'
    if type(r) is not type(o):
        return f'{o!r} became {r!r} of type {type(r).__name__}'
    if r is o and not isinstance(o, tuple):
        return f'the container {o!r} itself is returned'
    if isinstance(o, dict):
        want = []
        for k, v in o.items():
            want.append((freeze(enc(k, e)), v))
        keys = {}
        for k, v in want:
            keys.pop(k, None) if False else None
            keys[k] = v
        got = [freeze(list_of(k)) for k in r]
        if got != list(keys):
            return f'{o!r} became {r!r}'
        for k2, v in zip(r, keys.values()):
            d = differs(v, r[k2], e)
            if d:
                return d
        return None
    if isinstance(o, set):
        return None if {freeze(list_of(x)) for x in r} == enc(o, e) else f'{o!r} became {r!r}'
    if len(o) != len(r):
        return f'{o!r} became {r!r}'
    for a, b in zip(o, r):
        d = differs(a, b, e)
        if d:
            return d
    return None


def list_of(x):
    return list(map(list_of, x)) if isinstance(x, tuple) else x


def obj_bad(o):
    if isinstance(o, (str, bytes)):
        return False
    if isinstance(o, dict):
        return any(obj_bad(k) or obj_bad(v) for k, v in o.items())
    if isinstance(o, (list, tuple, set)):
        return any(map(obj_bad, o))
    return True


def check(case):
    d, e = case
    o = build(d)
    before = shape(o)
    wrong = obj_bad(o)
    how = f'encode_strings({o!r}, {e!r})'
    bad_text = False
    try:
        if not wrong:
            enc(o, e)
    except UnicodeEncodeError:
        bad_text = True
    for name, f in (('', lambda: encode_strings(o, e)), (' by keyword', lambda: encode_strings(o, encoding=e))) + (((' by default', lambda: encode_strings(o)),) if e == 'ascii' else ()):
        try:
            r = f()
        except TypeError as x:
            if wrong:
                continue
            return f'{how}{name} raised {x!r}'
        except UnicodeEncodeError as x:
            if bad_text or wrong:
                continue
            return f'{how}{name} raised {x!r}'
        if wrong:
            return f'{how}{name} returned {r!r}, expected TypeError'
        if bad_text:
            return f'{how}{name} returned {r!r}, expected UnicodeEncodeError'
        p = differs(o, r, e)
        if p:
            return f'{how}{name}: {p}'
    if shape(o) != before:
        return f'{how} changed its argument to {o!r}'
    return None


def shape(o):
    if isinstance(o, dict):
        return (id(o), tuple((shape(k), shape(v)) for k, v in o.items()))
    if isinstance(o, (list, tuple, set)):
        return (id(o), tuple(map(shape, o)))
    return id(o)
