"""
Trusted models of Python builtins, str/bytes/list/dict/set methods, over the
values of values.py.  Everything here is part of the trusted base.
"""
import builtins
import re
import ast
import copy
import types
import heapq
import z3
from .values import *
from .ctx import PathEnd, Unsupported, Restart

UNBOUND = ('unbound',)
SOME = ('some',)
NOSHAPE = frozenset()


class SuperV:
    def __init__(self, frame):
        self.frame = frame


class DictOf:
    def __init__(self, o):
        self.o = o


class StarView:
    def __init__(self, view):
        self.view = view


class Folded:
    pass


class Opaque:
    """an argument tuple or keyword dictionary of unknown length, only ever passed on whole"""

    def __init__(self, what):
        self.what = what


class StarArgs:
    def __init__(self, o):
        self.o = o


class PropV:
    """property() object made at run time"""

    def __init__(self, fget=None, fset=None, fdel=None, doc=None):
        self.fget, self.fset = fget, fset


# ------------------------------------------------------------------ terms ---
def lit(s):
    if isinstance(s, bytes):
        s = s.decode('latin-1')
    return z3.StringVal(''.join(c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c) for c in s))


def term(v):
    if isinstance(v, SV):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        import fractions
        return z3.RealVal(str(fractions.Fraction(v)))
    if isinstance(v, (str, bytes)):
        return lit(v)
    if isinstance(v, z3.ExprRef):
        return v
    raise Unsupported(f'no term for {v!r}')


def is_num(v):
    return isinstance(v, (int, float, SInt, SReal, SBool))


def is_text(v):
    return isinstance(v, (str, bytes, SStr))


def kind_of(v):
    if isinstance(v, SStr):
        return v.kind
    return 'bytes' if isinstance(v, bytes) else 'str'


def numterm(v):
    t = term(v)
    if t.sort() == BoolS:
        t = z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t


def wrapnum(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    if t.sort() == IntS:
        return SInt(t)
    return SReal(t)


def wrapstr(t, kind):
    t = z3.simplify(t)
    if z3.is_string_value(t):
        return unlit(t, kind)
    return SStr(t, kind)


def unlit(t, kind):
    s = t.as_string()
    s = re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)
    return s.encode('latin-1') if kind == 'bytes' else s


def wrapbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def pytype(I, v):
    if isinstance(v, SV):
        return v.pytype
    if isinstance(v, PObj):
        return v.cls
    if isinstance(v, PList):
        return list
    if isinstance(v, (PDict, SMap)):
        return dict
    if isinstance(v, (PSet, SSet)):
        return set
    if isinstance(v, Bag):
        return list
    if isinstance(v, ExcV):
        return v.cls
    if isinstance(v, (Closure, BoundM, Native)):
        return types.FunctionType
    if isinstance(v, GenObj):
        return types.GeneratorType
    if isinstance(v, MatchV):
        return re.Match
    if isinstance(v, Hook):
        return v.pytype
    return type(v)


def is_concrete(v):
    if isinstance(v, (SV, Heapy, Native, Closure, BoundM, ModelM, MatchV, ExcV, IterView, StarView, DictOf, SuperV, Opaque, StarArgs, PropV)):
        return False
    if isinstance(v, (tuple, frozenset, list, set)):
        return all(is_concrete(x) for x in v)
    if isinstance(v, dict):
        return all(is_concrete(x) for x in v.values())
    return True


def concretize(v):
    """a real Python value equal to v, or raise"""
    if isinstance(v, PList):
        if v.prefix is not None:
            raise Unsupported('concretize')
        return [concretize(x) for x in v.items]
    if isinstance(v, PDict):
        return {k: concretize(x) for k, x in v.d.items()}
    if isinstance(v, PSet):
        return set(v.s)
    if isinstance(v, tuple):
        return tuple(concretize(x) for x in v)
    if not is_concrete(v):
        raise Unsupported('concretize')
    return v


def abstractize(I, v):
    if isinstance(v, list):
        return PList(I.ctx, [abstractize(I, x) for x in v])
    if isinstance(v, (dict,)) and type(v) is dict:
        return PDict(I.ctx, {k: abstractize(I, x) for k, x in v.items()})
    if isinstance(v, set):
        return PSet(I.ctx, v)
    if isinstance(v, tuple) and type(v) is tuple:
        return tuple(abstractize(I, x) for x in v)
    return v


def native(I, fn, args, kwargs):
    try:
        a = [concretize(x) for x in args]
        k = {n: concretize(x) for n, x in kwargs.items()}
    except Unsupported:
        raise Unsupported(f'call of {fn!r} with symbolic arguments {args!r}')
    try:
        r = fn(*a, **k)
    except Exception as e:
        I.throw(type(e), *e.args)
    return abstractize(I, r)


# ------------------------------------------------------------------ truth ---
def truth(I, v):
    ctx = I.ctx
    if isinstance(v, SBool):
        return ctx.branch(v.t)
    if isinstance(v, (SInt, SReal)):
        return ctx.branch(v.t != 0)
    if isinstance(v, SStr):
        return ctx.branch(v.t != z3.StringVal(''))
    if isinstance(v, SObj):
        h = ctx.ghost.get('obj_truth')
        if h:
            return h(ctx, v)
        return ctx.branch(z3.Function('truthy', Obj, BoolS)(v.t))
    if isinstance(v, PObj):
        m = I.class_lookup(v.cls, '__bool__')
        if m is not None:
            return truth(I, I.call(m, [v]))
        m = I.class_lookup(v.cls, '__len__')
        if m is not None:
            return truth(I, I.call(m, [v]))
        return True
    if isinstance(v, PList):
        if v.items:
            return True
        if v.prefix is None:
            return False
        return ctx.branch(v.prefix.length > 0)
    if isinstance(v, PDict):
        return bool(v.d)
    if isinstance(v, PSet):
        return bool(v.s)
    if isinstance(v, SSet):
        x = z3.Const('x!q', v.sort)
        if ctx.branch(z3.Exists([x], z3.Select(v.arr, x))):
            return True
        return False
    if isinstance(v, SMap):
        x = z3.Const('x!q', v.sort)
        return ctx.branch(z3.Exists([x], z3.Select(v.dom, x)))
    if isinstance(v, Bag):
        x = z3.Const('x!q', v.sort)
        return ctx.branch(z3.Exists([x], z3.Select(v.cnt, x) > 0))
    if isinstance(v, (Native, Closure, BoundM, ModelM, GenObj, MatchV, ExcV, IterObj)):
        return True
    if isinstance(v, Hook):
        return v.truth(ctx)
    if isinstance(v, tuple):
        return len(v) > 0
    if isinstance(v, IterView):
        return ctx.branch(term(v.n) > 0)
    return bool(v)


# ------------------------------------------------------------- arithmetic ---
def binop(I, op, a, b):
    ctx = I.ctx
    if isinstance(a, PObj) or isinstance(b, PObj):
        raise Unsupported(f'{op} on objects')
    sa, sb = isinstance(a, SV), isinstance(b, SV)
    if isinstance(a, PList) or isinstance(b, PList):
        tup = lambda v: getattr(v, 'immutable', False) if isinstance(v, PList) else isinstance(v, (tuple, Seqs, TupleRep))
        if op == 'Add' and tup(a) and tup(b):
            return Seqs([a, b])
        if op == 'Add' and isinstance(a, PList) and isinstance(b, PList):
            r = PList(ctx, a.items, a.prefix)
            list_extend(I, r, b)
            return r
        if op == 'Mult' and a.prefix is None and isinstance(b, int):
            return PList(ctx, a.items * b)
        if op == 'Add':
            I.throw(TypeError, 'can only concatenate list')
        raise Unsupported(f'list {op}')
    if isinstance(a, (PSet, SSet, PDict, TextSet)) or isinstance(b, (PSet, SSet, PDict, TextSet)):
        return setop(I, op, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if op == 'Add':
            return a + b
    if isinstance(a, tuple) and op == 'Mult':
        if isinstance(b, int):
            return a * b
        return TupleRep(a, b)
    if isinstance(a, IterView) and isinstance(b, tuple) and op == 'Add':
        return Seqs([a, b])
    if not sa and not sb and not isinstance(a, tuple):
        if isinstance(a, (Seqs, TupleRep)) or isinstance(b, (Seqs, TupleRep)):
            if op == 'Add':
                return Seqs([a, b])
        return nativebin(I, op, a, b)
    if isinstance(a, (Seqs, TupleRep)) or isinstance(b, (Seqs, TupleRep)):
        if op == 'Add':
            return Seqs([a, b])
    if is_text(a) and is_text(b):
        if kind_of(a) != kind_of(b):
            I.throw(TypeError, 'str/bytes mix')
        if op == 'Add':
            return concat(I, [a, b], kind_of(a))
        raise Unsupported(f'string {op}')
    if is_text(a) and op == 'Mult':
        return repeat(I, a, b)
    if is_text(b) and op == 'Mult':
        return repeat(I, b, a)
    if isinstance(a, str) and op == 'Mod':
        return SStr(ctx.fresh(StringS, 'fmt'))
    if is_num(a) and is_num(b):
        x, y = numterm(a), numterm(b)
        if x.sort() != y.sort():
            x = z3.ToReal(x) if x.sort() == IntS else x
            y = z3.ToReal(y) if y.sort() == IntS else y
        if op == 'Add':
            return wrapnum(x + y)
        if op == 'Sub':
            return wrapnum(x - y)
        if op == 'Mult':
            return wrapnum(x * y)
        if op in ('FloorDiv', 'Mod') and x.sort() == IntS and y.sort() == IntS and (b > 0 if isinstance(b, int) else I.ctx.holds(y > 0)):
            return wrapnum(x / y if op == 'FloorDiv' else x % y)
        if op == 'BitAnd' and isinstance(b, int) and b == 1:
            return wrapnum(x % 2)
        if op in ('BitAnd', 'BitOr', 'BitXor') and isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            p, q = term(a), term(b)
            return wrapbool({'BitAnd': z3.And, 'BitOr': z3.Or, 'BitXor': z3.Xor}[op](p, q))
        if op == 'Div':
            x = z3.ToReal(x) if x.sort() == IntS else x
            y = z3.ToReal(y) if y.sort() == IntS else y
            if truth(I, wrapbool(y == 0)):
                I.throw(ZeroDivisionError, 'division by zero')
            return wrapnum(x / y)
        raise Unsupported(f'numeric {op}')
    if is_text(a) or is_text(b):
        I.throw(TypeError, f'unsupported operand for {op}')
    raise Unsupported(f'{op} on {a!r}, {b!r}')


def nativebin(I, op, a, b):
    import operator
    ops = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'FloorDiv': operator.floordiv,
           'Mod': operator.mod, 'Div': operator.truediv, 'BitAnd': operator.and_, 'BitOr': operator.or_,
           'BitXor': operator.xor, 'Pow': operator.pow, 'LShift': operator.lshift, 'RShift': operator.rshift}
    try:
        return ops[op](a, b)
    except Exception as e:
        I.throw(type(e), *e.args)


class TupleRep:
    """a concrete tuple repeated a symbolic number of times"""

    def __init__(self, t, n):
        self.t, self.n = t, n


class Seqs:
    """concatenation of sequence values"""

    def __init__(self, parts):
        self.parts = []
        for p in parts:
            if isinstance(p, Seqs):
                self.parts.extend(p.parts)
            else:
                self.parts.append(p)


def seqs_at(I, v, j):
    """element j (in range) of a concatenation"""
    ctx = I.ctx
    if isinstance(v, Seqs):
        for p in v.parts[:-1]:
            n = numterm(length(I, p))
            if ctx.branch(j < n):
                return seqs_at(I, p, j)
            j = z3.simplify(j - n)
        return seqs_at(I, v.parts[-1], j)
    if isinstance(v, TupleRep):
        m = len(v.t)
        return v.t[ctx.choose(m, [j % m == q for q in range(m)])]
    if isinstance(v, IterView):
        return v.get(ctx, j)
    return getitem(I, PList(ctx, list(v)) if isinstance(v, tuple) else v, SInt(j))


def inplace(I, op, a, b):
    if isinstance(a, PList) and op == 'Add':
        list_extend(I, a, b)
        return a
    if isinstance(a, (PSet, SSet, TextSet)) and op in ('BitOr', 'Sub', 'BitAnd'):
        r = setop(I, op, a, b)
        I.ctx.touched(a)
        if isinstance(a, PSet) and isinstance(r, PSet):
            a.s = r.s
            return a
        if isinstance(r, TextSet):
            if isinstance(a, PSet):
                become_textset(I, a)
            a.items = r.items
            return a
        if isinstance(a, SSet):
            a.arr = r.arr
            return a
        return r
    return NotImplemented


def unary(I, op, v):
    if op == 'USub':
        if isinstance(v, (SInt, SReal)):
            return wrapnum(-v.t)
        return -v
    if op == 'UAdd':
        return v
    if op == 'Invert' and not isinstance(v, SV):
        return ~v
    raise Unsupported(f'unary {op}')


def concat(I, parts, kind):
    if all(isinstance(p, (str, bytes)) for p in parts):
        r = b'' if kind == 'bytes' else ''
        for p in parts:
            r += p
        return r
    ts = [term(p) for p in parts if not (isinstance(p, (str, bytes)) and not p)]
    if not ts:
        return b'' if kind == 'bytes' else ''
    if len(ts) == 1:
        return wrapstr(ts[0], kind)
    return wrapstr(z3.Concat(*ts), kind)


REP = z3.Function('repeat', StringS, IntS, StringS)


def repeat(I, s, n):
    ctx = I.ctx
    if isinstance(s, (str, bytes)) and isinstance(n, int):
        return s * n
    h = ctx.ghost.get('repeat')
    r = h(ctx, s, n) if h else None
    if r is not None:
        return r
    if isinstance(n, int):
        return concat(I, [s] * max(n, 0), kind_of(s))
    # s * n with symbolic n: a function of s and n, of the right length over s's characters
    nn = z3.simplify(z3.If(n.t > 0, n.t, z3.IntVal(0)))
    t = REP(term(s), nn)
    ctx.assume(z3.Length(t) == z3.Length(term(s)) * nn)
    if isinstance(s, (str, bytes)) and len(s) >= 1:
        ctx.assume(z3.InRe(t, z3.Star(z3.Re(lit(s)))))
    return SStr(t, kind_of(s))


# ------------------------------------------------------------- comparison ---
def eq_term(I, a, b):
    """z3 Bool / python bool for a == b"""
    if a is b and not isinstance(a, (SReal,)):
        return True
    if isinstance(a, SV) or isinstance(b, SV):
        if is_text(a) and is_text(b):
            if kind_of(a) != kind_of(b):
                return False
            return term(a) == term(b)
        if is_num(a) and is_num(b):
            if any(not isinstance(v, SV) and v in (float('inf'), float('-inf')) for v in (a, b)):
                return False
            x, y = numterm(a), numterm(b)
            if x.sort() != y.sort():
                x = z3.ToReal(x) if x.sort() == IntS else x
                y = z3.ToReal(y) if y.sort() == IntS else y
            return x == y
        if isinstance(a, SObj) and isinstance(b, SObj):
            return a.t == b.t
        if isinstance(a, SObj) or isinstance(b, SObj):
            o, c = (a, b) if isinstance(a, SObj) else (b, a)
            if c is None or isinstance(c, (PObj, PList, Native)):
                h = I.ctx.ghost.get('obj_eq')
                return h(I.ctx, o, c) if h else False
            h = I.ctx.ghost.get('obj_eq')
            if h:
                return h(I.ctx, o, c)
            return False
        return False
    if isinstance(a, Hook) or isinstance(b, Hook):
        return a.eq(I.ctx, b) if isinstance(a, Hook) else b.eq(I.ctx, a)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        parts = []
        for x, y in zip(a, b):
            parts.append(eq_term(I, x, y))
            if parts[-1] is False:
                return False
        return conj(parts)
    if isinstance(a, PList) and isinstance(b, PList):
        if a.prefix is None and b.prefix is None:
            if len(a.items) != len(b.items):
                return False
            return conj([eq_term(I, x, y) for x, y in zip(a.items, b.items)])
        if a.prefix is not None and b.prefix is not None and a.prefix.seq is not None and b.prefix.seq is not None:
            return seq_term(I, a) == seq_term(I, b)
        raise Unsupported('comparison of abstract lists')
    if isinstance(a, PObj) or isinstance(b, PObj):
        o = a if isinstance(a, PObj) else b
        other = b if o is a else a
        m = I.class_lookup(o.cls, '__eq__')
        if m is not None and m is not object.__eq__ and isinstance(m, types.FunctionType):
            r = I.call(m, [o, other])
            if r is NotImplemented:
                return False
            return term(r) if isinstance(r, SBool) else truth(I, r)
        return a is b
    if isinstance(a, PDict) and isinstance(b, PDict):
        if set(a.d) != set(b.d):
            return False
        return conj([eq_term(I, a.d[k], b.d[k]) for k in a.d])
    if isinstance(a, PSet) and isinstance(b, PSet):
        return a.s == b.s
    if isinstance(a, PList) and a.prefix is None and isinstance(b, list):
        return eq_term(I, a, abstractize(I, b))
    if isinstance(a, PDict) and isinstance(b, dict):
        try:
            return concretize(a) == b
        except Unsupported:
            raise Unsupported('dict compare')
    if isinstance(a, Heapy) or isinstance(b, Heapy):
        if type(a) is not type(b):
            return False
        raise Unsupported(f'== on {a!r}')
    if not is_concrete(a) or not is_concrete(b):
        return a is b
    return a == b


def conj(parts):
    if any(p is False for p in parts):
        return False
    parts = [p for p in parts if p is not True]
    if not parts:
        return True
    return z3.And(*parts)


def compare(I, op, a, b):
    ctx = I.ctx
    if op in ('Is', 'IsNot'):
        if isinstance(a, SObj) and isinstance(b, SObj):
            r = a.t == b.t
        elif isinstance(a, SBool) and isinstance(b, bool):
            r = a.t == z3.BoolVal(b)
        elif isinstance(b, SBool) and isinstance(a, bool):
            r = b.t == z3.BoolVal(a)
        elif isinstance(a, SStr) and isinstance(b, SStr):
            r = a is b or ctx.ghost.get('is_str', lambda *x: False)(a, b)
        elif isinstance(a, SObj) and b is None or isinstance(b, SObj) and a is None:
            h = ctx.ghost.get('obj_eq')
            r = h(ctx, a if isinstance(a, SObj) else b, None) if h else False
        elif isinstance(a, BoundM) and isinstance(b, BoundM):
            r = a.fn is b.fn and a.self_ is b.self_
        else:
            r = a is b
            if not r and isinstance(a, (SStr, SInt)) and type(a) is type(b):
                raise Unsupported('identity of symbolic values')
        if op == 'IsNot':
            return (not r) if isinstance(r, bool) else wrapbool(z3.Not(r))
        return r if isinstance(r, bool) else wrapbool(r)
    if op in ('Eq', 'NotEq'):
        if op == 'NotEq' and isinstance(a, PObj):
            m = I.class_lookup(a.cls, '__ne__')
            if isinstance(m, types.FunctionType):
                return I.call(m, [a, b])
        r = None
        if a is b and isinstance(a, PObj):      # == does not look at identity first
            m = I.class_lookup(a.cls, '__eq__')
            if isinstance(m, types.FunctionType):
                r = I.call(m, [a, b])
                r = r is a if r is NotImplemented else term(r) if isinstance(r, SBool) else truth(I, r)
        if r is None:
            r = eq_term(I, a, b)
        if op == 'NotEq':
            return (not r) if isinstance(r, bool) else wrapbool(z3.Not(r))
        return r if isinstance(r, bool) else wrapbool(r)
    if op in ('In', 'NotIn'):
        r = contains(I, b, a)
        if op == 'NotIn':
            return (not r) if isinstance(r, bool) else wrapbool(z3.Not(r))
        return r if isinstance(r, bool) else wrapbool(r)
    return order(I, op, a, b)


def order(I, op, a, b):
    if isinstance(a, PObj):
        nm = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[op]
        m = I.class_lookup(a.cls, nm)
        if isinstance(m, types.FunctionType):
            r = I.call(m, [a, b])
            if r is not NotImplemented:
                return r
        if isinstance(b, PObj):
            nm = {'Lt': '__gt__', 'LtE': '__ge__', 'Gt': '__lt__', 'GtE': '__le__'}[op]
            m = I.class_lookup(b.cls, nm)
            if isinstance(m, types.FunctionType):
                return I.call(m, [b, a])
        I.throw(TypeError, f'{op} not supported')
    if is_num(a) and is_num(b):
        inf = float('inf')
        if not isinstance(a, SV) and not isinstance(b, SV):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        if not isinstance(a, SV) and a in (inf, -inf) or not isinstance(b, SV) and b in (inf, -inf):
            p, q = (0 if isinstance(a, SV) else a), (0 if isinstance(b, SV) else b)
            return {'Lt': p < q, 'LtE': p <= q, 'Gt': p > q, 'GtE': p >= q}[op]
        x, y = numterm(a), numterm(b)
        if x.sort() != y.sort():
            x = z3.ToReal(x) if x.sort() == IntS else x
            y = z3.ToReal(y) if y.sort() == IntS else y
        return wrapbool({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op])
    if isinstance(a, SObj) and isinstance(b, SObj):
        h = I.ctx.ghost.get('obj_order')
        if h:
            return h(I.ctx, op, a, b)
        lt = z3.Function('obj_lt', Obj, Obj, BoolS)
        return wrapbool({'Lt': lt(a.t, b.t), 'Gt': lt(b.t, a.t),
                         'LtE': z3.Not(lt(b.t, a.t)), 'GtE': z3.Not(lt(a.t, b.t))}[op])
    if is_text(a) and is_text(b) and kind_of(a) == kind_of(b):
        if not isinstance(a, SV) and not isinstance(b, SV):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        x, y = term(a), term(b)
        return wrapbool({'Lt': x < y, 'LtE': x <= y, 'Gt': y < x, 'GtE': y <= x}[op])
    if isinstance(a, SeqV):
        return a.order(I.ctx, op, b)
    if isinstance(b, SeqV):
        return b.order(I.ctx, {'Lt': 'Gt', 'LtE': 'GtE', 'Gt': 'Lt', 'GtE': 'LtE'}[op], a)
    if isinstance(a, tuple) and isinstance(b, tuple):
        # lexicographic
        for x, y in zip(a, b):
            e = compare(I, 'Eq', x, y)
            if truth(I, e):
                continue
            if op in ('Lt', 'LtE'):
                return order(I, 'Lt', x, y)
            return order(I, 'Gt', x, y)
        return {'Lt': len(a) < len(b), 'LtE': len(a) <= len(b), 'Gt': len(a) > len(b), 'GtE': len(a) >= len(b)}[op]
    if is_concrete(a) and is_concrete(b):
        import operator
        try:
            return {'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}[op](a, b)
        except Exception as e:
            I.throw(type(e), *e.args)
    if pytype(I, a) is not pytype(I, b) and not isinstance(a, SObj) and not isinstance(b, SObj):
        I.throw(TypeError, f'{op} not supported between these types')
    raise Unsupported(f'{op} on {a!r}, {b!r}')


def contains(I, c, x):
    """x in c"""
    ctx = I.ctx
    if isinstance(c, Hook):
        return c.contains(ctx, x)
    if isinstance(c, SSet):
        return z3.Select(c.arr, term(x))
    if isinstance(c, SMap):
        return z3.Select(c.dom, term(x))
    if isinstance(c, Bag):
        return z3.Select(c.cnt, term(x)) > 0
    if is_text(c):
        if isinstance(c, (str, bytes)) and isinstance(x, (str, bytes)):
            try:
                return x in c
            except TypeError as e:
                I.throw(TypeError, *e.args)
        if not is_text(x):
            I.throw(TypeError, 'in <string> requires string')
        return z3.Contains(term(c), term(x))
    if isinstance(c, (tuple, list, frozenset, set, dict)) or isinstance(c, (PSet, PDict)):
        if isinstance(c, PSet):
            items = list(c.s)
        elif isinstance(c, PDict):
            items = list(c.d)
        else:
            items = list(c)
        if is_concrete(x) and all(is_concrete(i) for i in items):
            try:
                return x in (c.s if isinstance(c, PSet) else c.d if isinstance(c, PDict) else c)
            except TypeError as e:
                I.throw(TypeError, *e.args)
        return disj([eq_term(I, x, i) for i in items])
    if isinstance(c, PList):
        parts = [eq_term(I, x, i) for i in c.items]
        if c.prefix is not None:
            if c.prefix.seq is None:
                raise Unsupported('in abstract list')
            parts.append(z3.Contains(c.prefix.seq, z3.Unit(term(x))))
        return disj(parts)
    if isinstance(c, PObj):
        m = I.class_lookup(c.cls, '__contains__')
        if m is not None:
            r = I.call(m, [c, x])
            return term(r) if isinstance(r, SBool) else truth(I, r)
    if is_concrete(c) and is_concrete(x):
        return x in c
    raise Unsupported(f'in {c!r}')


def disj(parts):
    if any(p is True for p in parts):
        return True
    parts = [p for p in parts if p is not False]
    if not parts:
        return False
    return z3.Or(*parts)


# -------------------------------------------------------------- sequences ---
def length(I, v):
    if isinstance(v, SStr):
        return wrapnum(z3.Length(v.t))
    if isinstance(v, PList):
        if v.prefix is None:
            return len(v.items)
        return wrapnum(v.prefix.length + len(v.items))
    if isinstance(v, PDict):
        return len(v.d)
    if isinstance(v, PSet):
        return len(v.s)
    if isinstance(v, (SSet, SMap, Bag)):
        h = I.ctx.ghost.get('card')
        if h:
            return h(I.ctx, v)
        raise Unsupported('len of symbolic set')
    if isinstance(v, PObj):
        m = I.class_lookup(v.cls, '__len__')
        if m is not None:
            return I.call(m, [v])
    if isinstance(v, Hook):
        return v.length(ctx=I.ctx)
    if isinstance(v, IterView):
        return v.n if not isinstance(v.n, z3.ExprRef) else wrapnum(v.n)
    if isinstance(v, DictOf):
        return len(v.o.attrs)
    if isinstance(v, Seqs):
        return wrapnum(z3.simplify(z3.Sum([numterm(length(I, p)) for p in v.parts])))
    if isinstance(v, TupleRep):
        n = numterm(v.n)
        return wrapnum((n if I.ctx.holds(n >= 0, 500) else z3.If(n > 0, n, z3.IntVal(0))) * len(v.t))
    if is_concrete(v) or isinstance(v, tuple):
        try:
            return len(v)
        except TypeError as e:
            I.throw(TypeError, *e.args)
    I.throw(TypeError, 'object has no len()')


def norm_index(I, i, n, default):
    """python slice bound -> z3 term in [0, n]"""
    if i is None:
        return default
    t = numterm(i)
    ctx = I.ctx
    if z3.is_int_value(t):
        c = t.as_long()
        if c >= 0:
            if c == 0:
                return t
            if ctx.holds(n >= c, 600):
                return t
            return z3.If(n < c, n, t)
        if ctx.holds(n >= -c, 600):
            return n + c
        return z3.If(n + c < 0, z3.IntVal(0), n + c)
    if ctx.holds(z3.And(t >= 0, t <= n), 800):
        return t
    return z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), z3.If(t > n, n, t))


def slice_str(I, s, sl):
    kind = kind_of(s)
    if sl.step is not None and sl.step != 1:
        if isinstance(s, (str, bytes)) and all(isinstance(x, (int, type(None))) for x in (sl.start, sl.stop, sl.step)):
            return s[sl]
        if sl.step == -1 and sl.start is None and sl.stop is None:
            return SStr(REV(term(s)), kind)
        raise Unsupported('string slice with a step')
    if isinstance(s, (str, bytes)) and not isinstance(sl.start, SV) and not isinstance(sl.stop, SV):
        return s[sl.start:sl.stop]
    t = term(s)
    n = z3.Length(t)
    lo = norm_index(I, sl.start, n, z3.IntVal(0))
    hi = norm_index(I, sl.stop, n, n)
    return wrapstr(z3.SubString(t, lo, hi - lo), kind)


REV = z3.Function('str.reverse', StringS, StringS)


def getitem(I, o, i):
    ctx = I.ctx
    if isinstance(o, PObj):
        m = I.class_lookup(o.cls, '__getitem__')
        if m is not None:
            return I.call(m, [o, i])
        I.throw(TypeError, 'not subscriptable')
    if is_text(o):
        if isinstance(i, slice):
            return slice_str(I, o, i)
        if isinstance(o, (str, bytes)) and isinstance(i, int):
            try:
                return o[i]
            except IndexError as e:
                I.throw(IndexError, *e.args)
        if not isinstance(i, (int, SInt, SBool)):
            I.throw(TypeError, 'string indices must be integers')
        t = term(o)
        n = z3.Length(t)
        it = numterm(i)
        idx = z3.If(it < 0, it + n, it)
        if not ctx.branch(z3.And(idx >= 0, idx < n)):
            I.throw(IndexError, 'string index out of range')
        c = z3.SubString(t, idx, 1)
        if kind_of(o) == 'bytes':
            return wrapnum(z3.StrToCode(c))
        return wrapstr(c, 'str')
    if isinstance(o, PList):
        return list_getitem(I, o, i)
    if isinstance(o, (Seqs, TupleRep)) and isinstance(i, (int, SInt)) and not isinstance(i, bool):
        n, j = numterm(length(I, o)), numterm(i)
        if not ctx.holds(j >= 0, 500):
            j = z3.simplify(z3.If(j < 0, j + n, j))
        if not ctx.branch(z3.And(j >= 0, j < n)):
            I.throw(IndexError, 'tuple index out of range')
        return seqs_at(I, o, j)
    if isinstance(o, tuple):
        if isinstance(i, slice):
            return o[concretize_slice(i)]
        if isinstance(i, int):
            try:
                return o[i]
            except IndexError as e:
                I.throw(IndexError, *e.args)
        if isinstance(i, SInt):
            # decide the index
            n = len(o)
            k = ctx.choose(n + 1, [i.t == j for j in range(n)] + [z3.Or(i.t < 0, i.t >= n)])
            if k == n:
                raise Unsupported('symbolic tuple index')
            return o[k]
    if isinstance(o, PDict):
        v = dict_lookup(I, o.d, i)
        if v is MISSING:
            I.throw(KeyError, i)
        return v
    if isinstance(o, dict):
        v = dict_lookup(I, o, i)
        if v is MISSING:
            I.throw(KeyError, i)
        return v
    if isinstance(o, SMap):
        k = term(i)
        if o.default is None:
            if not ctx.branch(z3.Select(o.dom, k)):
                I.throw(KeyError, i)
        elif not ctx.branch(z3.Select(o.dom, k)):
            v = o.default(ctx)
            ctx.touched(o)
            o.dom = z3.Store(o.dom, k, True)
            o.val = z3.Store(o.val, k, o.unwrap(v))
            return o.wrap(ctx, z3.Select(o.val, k), o, k)
        return o.wrap(ctx, z3.Select(o.val, k), o, k)
    if isinstance(o, IterView):
        if isinstance(i, (int, SInt)):
            it = numterm(i)
            n = term(o.n)
            idx = z3.If(it < 0, it + n, it)
            if not ctx.branch(z3.And(idx >= 0, idx < n)):
                I.throw(IndexError, 'index out of range')
            return o.get(ctx, idx)
        raise Unsupported('slice of a view')
    if isinstance(o, MatchV):
        return call_method(I, o, 'group', [i], {})
    if isinstance(o, Hook):
        return o.getitem(ctx, i)
    if is_concrete(o) and is_concrete(i):
        try:
            return abstractize(I, o[i])
        except Exception as e:
            I.throw(type(e), *e.args)
    raise Unsupported(f'getitem on {o!r}[{i!r}]')


def concretize_slice(i):
    for x in (i.start, i.stop, i.step):
        if isinstance(x, SV):
            raise Unsupported('symbolic slice of a tuple')
    return i


MISSING = object()


def dict_lookup(I, d, k):
    if is_concrete(k):
        try:
            if k in d:
                return abstractize(I, d[k]) if not isinstance(d[k], Heapy) else d[k]
            if all(is_concrete(x) for x in d):
                return MISSING
        except TypeError as e:
            I.throw(TypeError, *e.args)
    keys = list(d)
    if isinstance(k, SV):
        for kk in keys:
            if kk is k:
                return d[kk]
    conds = [eq_term(I, k, kk) for kk in keys]
    conds = [z3.BoolVal(c) if isinstance(c, bool) else c for c in conds]
    conds.append(z3.Not(z3.Or(*conds)) if conds else z3.BoolVal(True))
    j = I.ctx.choose(len(conds), conds)
    if j == len(keys):
        return MISSING
    return d[keys[j]]


def setitem(I, o, i, v):
    ctx = I.ctx
    if isinstance(o, PList):
        ctx.touched(o)
        if isinstance(i, int) and o.prefix is None:
            try:
                o.items[i] = v
            except IndexError as e:
                I.throw(IndexError, *e.args)
            return
        if isinstance(i, int) and i < 0 and -i <= len(o.items):
            o.items[i] = v
            return
        if isinstance(i, slice) and o.prefix is None and is_concrete(i):
            o.items[i] = must_list(I, v)
            return
        raise Unsupported('list store at a symbolic index')
    if isinstance(o, PDict):
        ctx.touched(o)
        if not is_concrete(i):
            if isinstance(i, SV):
                for kk in o.d:
                    if kk is i:
                        o.d[kk] = v
                        return
                if o.d:
                    r = dict_lookup(I, o.d, i)
                    if r is not MISSING:
                        for kk in o.d:
                            if o.d[kk] is r and I.ctx.holds(term(kk) == term(i)):
                                o.d[kk] = v
                                return
                        raise Unsupported('dict store at a symbolic key')
            o.d[i] = v
            return
        o.d[i] = v
        return
    if isinstance(o, SMap):
        ctx.touched(o)
        k = term(i)
        o.dom = z3.Store(o.dom, k, True)
        o.val = z3.Store(o.val, k, o.unwrap(v))
        return
    if isinstance(o, PObj):
        m = I.class_lookup(o.cls, '__setitem__')
        if m is not None:
            return I.call(m, [o, i, v])
    if isinstance(o, Hook):
        return o.setitem(ctx, i, v)
    raise Unsupported(f'setitem on {o!r}')


NONE = object()         # what Hook.getattr returns for an attribute whose value is None


class Hook(Heapy):
    """harness-defined heap value with its own getitem/setitem/methods"""
    methods = ()
    pytype = object

    def getattr(self, ctx, name):
        return ModelM(self, name) if name in self.methods else None

    def method(self, ctx, name, args, kwargs):
        f = getattr(self, 'm_' + name, None)
        if f is None:
            raise Unsupported(f'{type(self).__name__}.{name}')
        return f(ctx, *args, **kwargs)

    def truth(self, ctx):
        return True

    def eq(self, ctx, other):
        return self is other

    def _no(self, what):
        raise Unsupported(f'{what} of {type(self).__name__}')

    def contains(self, ctx, x):
        self._no('in')

    def length(self, ctx):
        self._no('len')

    def iterate(self, ctx):
        self._no('iteration')

    def getitem(self, ctx, i):
        self._no('getitem')

    def setitem(self, ctx, i, v):
        self._no('setitem')

    def delitem(self, ctx, i):
        self._no('delitem')

    def next(self, ctx, *d):
        self._no('next')


class TextSet(Hook):
    """a set of finitely many texts, not all of them known; they are told apart by case distinction"""
    pytype = set
    methods = ('add', 'discard', 'remove', 'copy', 'clear', 'update', 'union', 'intersection', 'difference', 'symmetric_difference', 'issubset', 'issuperset', 'isdisjoint', 'pop', '__contains__')

    def __init__(self, I, items=()):
        self.I = I
        self.serial = I.ctx.next_serial()
        self.items = []
        for x in items:
            self._add(x)

    def has(self, x):
        return disj([eq_term(self.I, x, y) for y in self.items])

    def _in(self, x):
        c = self.has(x)
        return c if isinstance(c, bool) else self.I.ctx.branch(c)

    def _add(self, x):
        if not is_text(x) and not is_concrete(x):
            raise Unsupported('set of symbolic values')
        if not self._in(x):
            self.items.append(x)

    def contains(self, ctx, x):
        return self.has(x)

    def length(self, ctx):
        return len(self.items)

    def truth(self, ctx):
        return bool(self.items)

    def iterate(self, ctx):
        return list(self.items)

    def eq(self, ctx, other):
        if not isinstance(other, (TextSet, PSet, set, frozenset)):
            return False
        o = textset(self.I, other)
        return len(o.items) == len(self.items) and all(o._in(x) for x in self.items)

    def op(self, op, other):
        o = textset(self.I, other)
        a = [x for x in self.items if o._in(x)] if op != 'BitOr' else self.items
        if op == 'BitAnd':
            return TextSet(self.I, a)
        if op == 'BitOr':
            return TextSet(self.I, self.items + o.items)
        d = [x for x in self.items if all(x is not y for y in a)]
        if op == 'Sub':
            return TextSet(self.I, d)
        if op == 'BitXor':
            return TextSet(self.I, d + [x for x in o.items if not self._in(x)])
        raise Unsupported(f'set {op}')

    def m_add(self, ctx, x):
        ctx.touched(self)
        self._add(x)

    def m_discard(self, ctx, x, must=False):
        ctx.touched(self)
        for j, y in enumerate(self.items):
            c = eq_term(self.I, x, y)
            if c if isinstance(c, bool) else ctx.branch(c):
                del self.items[j]
                return
        if must:
            self.I.throw(KeyError, x)

    def m_remove(self, ctx, x):
        self.m_discard(ctx, x, True)

    def m_copy(self, ctx):
        return TextSet(self.I, self.items)

    def m_clear(self, ctx):
        ctx.touched(self)
        self.items = []

    def m_pop(self, ctx):
        ctx.touched(self)
        if not self.items:
            self.I.throw(KeyError)
        return self.items.pop(ctx.choose(len(self.items)))

    def m_update(self, ctx, *others):
        ctx.touched(self)
        for o in others:
            for x in must_list(self.I, o):
                self._add(x)

    def fold(self, op, others):
        r = self
        for o in others:
            r = r.op(op, TextSet(self.I, must_list(self.I, o)))
        return r if r is not self else self.m_copy(self.I.ctx)

    def m_union(self, ctx, *o):
        return self.fold('BitOr', o)

    def m_intersection(self, ctx, *o):
        return self.fold('BitAnd', o)

    def m_difference(self, ctx, *o):
        return self.fold('Sub', o)

    def m_symmetric_difference(self, ctx, o):
        return self.fold('BitXor', [o])

    def m_issubset(self, ctx, o):
        o = TextSet(self.I, must_list(self.I, o))
        return all(o._in(x) for x in self.items)

    def m_issuperset(self, ctx, o):
        return all(self._in(x) for x in must_list(self.I, o))

    def m_isdisjoint(self, ctx, o):
        return not any(self._in(x) for x in must_list(self.I, o))

    def m___contains__(self, ctx, x):
        return wrapbool(self.has(x))


def become_textset(I, v):
    v.__class__ = TextSet
    v.I, v.items = I, list(v.s)


def textset(I, v):
    if isinstance(v, TextSet):
        return v
    return TextSet(I, v.s if isinstance(v, PSet) else v)


def delitem(I, o, i):
    ctx = I.ctx
    if isinstance(o, PList):
        ctx.touched(o)
        if o.prefix is None and isinstance(i, (int, slice)):
            try:
                del o.items[i]
            except IndexError as e:
                I.throw(IndexError, *e.args)
            return
        if isinstance(i, int) and i < 0 and -i <= len(o.items):
            del o.items[i]
            return
        if isinstance(i, (int, SInt)) and (o.prefix is None or has_getter(o)):
            n = z3.simplify((o.prefix.length if o.prefix is not None else 0) + len(o.items))
            at = numterm(i)
            if not ctx.branch(z3.And(at >= -n, at < n)):
                I.throw(IndexError, 'list assignment index out of range')
            if not ctx.branch(at >= 0):
                at = z3.simplify(at + n)
            get = spliced(I, PList(ctx, o.items, o.prefix))
            el = o.prefix.elem if o.prefix is not None else frozenset()
            for x in o.items:
                el = join_shapes(el, shape_of(I, x))
            b = Abstract(z3.simplify(n - 1), None, None, {}, getter=lambda c, k: get(c, k) if c.branch(k < at) else get(c, z3.simplify(k + 1)))
            b.elem, b.cache = el, {}
            for nm, F in ctx.folds.items():
                b.folds[nm] = ctx.fresh(F.sort, 'fold_' + nm)
            o.prefix, o.items = b, []
            return
        raise Unsupported('del at a symbolic list index')
    if isinstance(o, PDict):
        ctx.touched(o)
        if is_concrete(i):
            if i not in o.d:
                I.throw(KeyError, i)
            del o.d[i]
            return
        for kk in o.d:
            if kk is i:
                del o.d[kk]
                return
        raise Unsupported('del symbolic key')
    if isinstance(o, SMap):
        k = term(i)
        if not ctx.branch(z3.Select(o.dom, k)):
            I.throw(KeyError, i)
        ctx.touched(o)
        o.dom = z3.Store(o.dom, k, False)
        return
    if isinstance(o, Hook):
        return o.delitem(ctx, i)
    raise Unsupported(f'delitem on {o!r}')


# ------------------------------------------------------------------ lists ---
class Fold:
    """a monoid homomorphism from lists: unit(value) -> term, op, identity"""

    def __init__(self, name, sort, unit, op, ident, mirror=None, fact=None):
        self.name, self.sort, self.unit, self.op, self.ident = name, sort, unit, op, ident
        self.mirror = mirror
        self.fact = fact          # (length term, fold term) -> z3 Bool true of every list


def abs_facts(ctx, a):
    for nm, F in ctx.folds.items():
        ctx.assume(z3.Implies(a.length == 0, a.folds[nm] == F.ident))
        if F.fact is not None:
            ctx.assume(F.fact(a.length, a.folds[nm]))


def text_parts(v):
    if v is None:
        return []
    if isinstance(v, tuple):
        out = []
        for x in v:
            out.extend(text_parts(x))
        return out
    if isinstance(v, MatchV):
        return [SStr(z3.SubString(term(v.string), term(v.start), term(v.end) - term(v.start)), kind_of(v.string))]
    if is_text(v):
        return [v]
    raise Unsupported(f'text_parts of {v!r}')


def joined_unit(v):
    ts = [term(x) for x in text_parts(v)]
    ts = [t for t in ts if not (z3.is_string_value(t) and t.as_string() == '')]
    return cat(ts)


def cat(ts):
    ts = list(ts)
    if not ts:
        return z3.StringVal('')
    if len(ts) == 1:
        return ts[0]
    return z3.Concat(*ts)


def _cat2(a, b):
    if z3.is_string_value(a) and a.as_string() == '':
        return b
    if z3.is_string_value(b) and b.as_string() == '':
        return a
    return z3.Concat(a, b)


JOINED = Fold('joined', StringS, joined_unit, _cat2, z3.StringVal(''), 'rjoined')
RJOINED = Fold('rjoined', StringS, joined_unit, lambda a, b: _cat2(b, a), z3.StringVal(''), 'joined')


def all_fold(name, pred):
    """for-all over the elements; pred(value) -> z3 Bool"""
    return Fold(name, BoolS, lambda v: _b(pred(v)), lambda a, b: z3.And(a, b), z3.BoolVal(True), name)


def count_fold(name, fn):
    return Fold(name, IntS, lambda v: term(fn(v)), lambda a, b: a + b, z3.IntVal(0), name)


def _b(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def fold_of(I, l, name):
    """z3 term of fold `name` over list/tuple/view l"""
    F = I.ctx.folds[name]
    if isinstance(l, (tuple, list)):
        acc = F.ident
        for x in l:
            acc = F.op(acc, F.unit(x))
        return acc
    if isinstance(l, Seqs):
        acc = F.ident
        for p in l.parts:
            acc = F.op(acc, fold_of(I, p, name))
        return acc
    if isinstance(l, TupleRep):
        # only folds whose unit on these elements is the identity
        for x in l.t:
            if not I.ctx.holds(F.unit(x) == F.ident):
                raise Unsupported('fold of a repeated tuple')
        return F.ident
    if isinstance(l, IterView):
        a = getattr(l, 'abstract', None)
        if a is None:
            raise Unsupported('fold of a view')
        return a.folds[name]
    acc = F.ident
    if l.prefix is not None:
        if name not in l.prefix.folds:
            raise Unsupported(f'list has no fold {name}')
        acc = l.prefix.folds[name]
    for x in l.items:
        acc = F.op(acc, F.unit(x))
    return z3.simplify(acc) if not z3.is_quantifier(acc) else acc


def seq_term(I, l):
    if l.prefix is None and not l.items:
        return None
    parts = []
    if l.prefix is not None:
        if l.prefix.seq is None:
            raise Unsupported('list content not tracked')
        parts.append(l.prefix.seq)
    parts += [z3.Unit(term(x)) for x in l.items]
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def fresh_abstract(I, elem, seq=None, lo=0, empty_ok=True):
    """Abstract with unknown content; elem: frozenset of shapes"""
    ctx = I.ctx
    folds = {}
    for nm, F in ctx.folds.items():
        folds[nm] = ctx.fresh(F.sort, 'fold_' + nm)
    want_seq = seq if seq is not None else not ctx.folds
    st = None
    wrap = None
    if want_seq and len(elem) == 1:
        sort, wrap = scalar_sort(next(iter(elem)))
        if sort is not None:
            st = ctx.fresh(z3.SeqSort(sort), 'seq')
    if st is not None:
        ln = z3.Length(st)
    else:
        ln = ctx.fresh(IntS, 'len')
        ctx.assume(ln >= 0)
    a = Abstract(ln, st, wrap, folds)
    a.elem = elem
    abs_facts(ctx, a)
    a.cache = {}
    return a


def scalar_sort(sh):
    k = sh[0]
    if k == 'int':
        return IntS, SInt
    if k == 'bool':
        return BoolS, SBool
    if k == 'str':
        return StringS, lambda t: SStr(t, 'str')
    if k == 'bytes':
        return StringS, lambda t: SStr(t, 'bytes')
    if k == 'obj':
        return Obj, lambda t: SObj(t, sh[1])
    if k == 'real':
        return RealS, SReal
    return None, None


def fresh_list(I, elem, seq=None):
    l = PList(I.ctx)
    l.prefix = fresh_abstract(I, elem, seq)
    return l


def _elem_fresh(I, a):
    if not a.elem:
        raise PathEnd()
    return fresh_shape(I, a.elem, None)


def split_last(I, l):
    """prefix = prefix' + [e]; requires length > 0 on the path.  Returns e."""
    ctx = I.ctx
    a = l.prefix
    if a.seq is not None:
        n = z3.Length(a.seq)
        e = a.wrap(z3.simplify(a.seq[n - 1]))
        ns = z3.SubSeq(a.seq, 0, n - 1)
        b = Abstract(n - 1, ns, a.wrap, {})
    else:
        e = _elem_fresh(I, a)
        b = Abstract(a.length - 1, None, None, {})
    b.elem = a.elem
    b.cache = {}
    for nm in a.folds:
        F = ctx.folds[nm]
        b.folds[nm] = ctx.fresh(F.sort, 'fold_' + nm)
        ctx.assume(a.folds[nm] == F.op(b.folds[nm], F.unit(e)))
    abs_facts(ctx, b)
    l.prefix = b
    return e


def split_first(I, l):
    ctx = I.ctx
    a = l.prefix
    if a.seq is not None:
        n = z3.Length(a.seq)
        e = a.wrap(a.seq[0])
        b = Abstract(n - 1, z3.SubSeq(a.seq, 1, n - 1), a.wrap, {})
    else:
        e = _elem_fresh(I, a)
        b = Abstract(a.length - 1, None, None, {})
    b.elem = a.elem
    b.cache = {}
    for nm in a.folds:
        F = ctx.folds[nm]
        b.folds[nm] = ctx.fresh(F.sort, 'fold_' + nm)
        ctx.assume(a.folds[nm] == F.op(F.unit(e), b.folds[nm]))
    abs_facts(ctx, b)
    l.prefix = b
    return e


def list_append(I, l, v):
    I.ctx.touched(l)
    l.items.append(v)


def list_extend(I, l, v):
    ctx = I.ctx
    it = v if isinstance(v, (PList, Seqs, TupleRep)) else drained(I, iterate(I, v))
    ctx.touched(l)
    if isinstance(it, list):
        l.items.extend(it)
        return
    if isinstance(it, PList):
        if it.prefix is None:
            l.items.extend(it.items)
            return
        l.prefix = append_abs(I, l, it)
        l.items = list(it.items)
        return
    if isinstance(it, IterView) and getattr(it, 'abstract', None) is not None:
        p = PList(ctx, (), it.abstract)
        l.prefix = append_abs(I, l, p)
        l.items = []
        return
    if isinstance(it, (TupleRep, Seqs)) and not ctx.folds:
        it = IterView(numterm(length(I, it)), lambda ctx, k, it=it: seqs_at(I, it, k))
    if isinstance(it, IterView) and not ctx.folds:
        a = Abstract(term(it.n), None, None, {}, getter=it.get)
        a.elem, a.cache = frozenset(), {}
        l.prefix = append_abs(I, l, PList(ctx, (), a))
        l.items = []
        return
    raise Unsupported('extend with a symbolic iterable')


def append_abs(I, l, r):
    """Abstract for (all of l) + r.prefix"""
    ctx = I.ctx
    b = r.prefix
    if l.prefix is None and not l.items:
        return b
    elem = b.elem
    if l.prefix is not None:
        elem = elem | l.prefix.elem
    for x in l.items:
        elem = join_shapes(elem, shape_of(I, x))
    n = b.length + len(l.items) + (l.prefix.length if l.prefix is not None else 0)
    seq = None
    try:
        if b.seq is not None:
            s = seq_term(I, l)
            seq = z3.Concat(s, b.seq)
            n = z3.Length(seq)
    except Unsupported:
        seq = None
    a = Abstract(n, seq, b.wrap, {})
    if has_getter(r) or has_getter(l):
        a.getter = spliced(I, PList(ctx, l.items, l.prefix), r)
    a.elem = elem
    a.cache = {}
    for nm, F in ctx.folds.items():
        a.folds[nm] = F.op(fold_of(I, l, nm), b.folds[nm])
    return a


def list_getitem(I, l, i):
    ctx = I.ctx
    if isinstance(i, slice):
        return list_slice(I, l, i)
    if not isinstance(i, (int, SInt, SBool)):
        I.throw(TypeError, 'list indices must be integers')
    if l.prefix is None:
        if isinstance(i, int):
            try:
                return l.items[i]
            except IndexError as e:
                I.throw(IndexError, *e.args)
        n = len(l.items)
        it = numterm(i)
        conds = [z3.Or(it == j, it == j - n) for j in range(n)]
        conds.append(z3.Or(it >= n, it < -n))
        k = ctx.choose(n + 1, conds)
        if k == n:
            I.throw(IndexError, 'list index out of range')
        return l.items[k]
    a = l.prefix
    if isinstance(i, int) and i < 0 and -i <= len(l.items):
        return l.items[i]
    total = a.length + len(l.items)
    it = numterm(i)
    idx = z3.If(it < 0, it + total, it)
    idx = z3.simplify(idx) if isinstance(i, int) else (it if ctx.holds(it >= 0, 500) else idx)
    if not ctx.branch(z3.And(idx >= 0, idx < total)):
        I.throw(IndexError, 'list index out of range')
    conds = [idx < a.length] + [idx == a.length + j for j in range(len(l.items))]
    k = ctx.choose(len(conds), conds) if l.items else 0
    if k > 0:
        return l.items[k - 1]
    return abs_get(I, a, idx)


def abs_get(I, a, idx):
    ctx = I.ctx
    if a.getter is not None:
        return a.getter(ctx, idx)
    if a.seq is not None:
        return a.wrap(a.seq[idx])
    idx = z3.simplify(idx)
    key = idx.get_id()
    if key in a.cache:
        return a.cache[key][1]
    e = _elem_fresh(I, a)
    for nm in a.folds:
        F = ctx.folds[nm]
        pre, post = ctx.fresh(F.sort, 'pre_' + nm), ctx.fresh(F.sort, 'post_' + nm)
        ctx.assume(a.folds[nm] == F.op(F.op(pre, F.unit(e)), post))
        ctx.assume(z3.Implies(idx == 0, pre == F.ident))
        if F.fact is not None:
            ctx.assume(F.fact(idx, pre))
        ctx.assume(z3.Implies(idx == a.length - 1, post == F.ident))
        if F.fact is not None:
            ctx.assume(F.fact(a.length - 1 - idx, post))
    a.cache[key] = (idx, e)
    return e


def list_slice(I, l, sl):
    ctx = I.ctx
    if l.prefix is None and is_concrete(sl):
        return PList(ctx, l.items[sl])
    if sl.step is not None and sl.step != 1:
        if sl.step == -1 and sl.start is None and sl.stop is None:
            r = PList(ctx, l.items, l.prefix)
            list_reverse(I, r)
            return r
        raise Unsupported('list slice with a step')
    if sl.start is None and sl.stop is None:
        return PList(ctx, l.items, l.prefix)
    if l.prefix is None:
        n = z3.IntVal(len(l.items))
    else:
        n = l.prefix.length + len(l.items)
    lo = norm_index(I, sl.start, n, z3.IntVal(0))
    hi = norm_index(I, sl.stop, n, n)
    lo, hi = z3.simplify(lo), z3.simplify(hi)
    a = l.prefix
    if a is None:
        elem = NOSHAPE
        for x in l.items:
            elem = join_shapes(elem, shape_of(I, x))
        folds = {nm: fold_of(I, l, nm) for nm in ctx.folds}
        a = Abstract(n, None, None, folds)
        a.elem, a.cache = elem, {}
    elif l.items:
        if a.seq is not None:
            s = seq_term(I, l)
            b = Abstract(z3.Length(s), s, a.wrap, {})
            b.elem, b.cache = a.elem, {}
            a = b
        else:
            b = Abstract(n, None, None, {nm: fold_of(I, l, nm) for nm in ctx.folds})
            b.elem, b.cache = a.elem, {}
            for x in l.items:
                b.elem = join_shapes(b.elem, shape_of(I, x))
            a = b
    ln = z3.If(hi > lo, hi - lo, z3.IntVal(0))
    if has_getter(l):
        get = spliced(I, l)
        r = Abstract(z3.simplify(hi - lo if ctx.holds(hi >= lo, 500) else ln), None, None, {}, getter=lambda c, k: get(c, z3.simplify(lo + k)))
        r.elem, r.cache = a.elem, {}
        for nm in ctx.folds:
            r.folds[nm] = ctx.fresh(ctx.folds[nm].sort, 'fold_' + nm)
        return PList(ctx, (), r)
    if a.seq is not None:
        r = Abstract(z3.simplify(ln), z3.SubSeq(a.seq, lo, hi - lo), a.wrap, {})
    else:
        r = Abstract(z3.simplify(ln), None, None, {})
    r.elem, r.cache = a.elem, {}
    for nm, F in ctx.folds.items():
        pre, mid, post = (ctx.fresh(F.sort, x + nm) for x in ('pre_', 'mid_', 'post_'))
        ctx.assume(a.folds[nm] == F.op(F.op(pre, mid), post))
        ctx.assume(z3.Implies(lo == 0, pre == F.ident))
        ctx.assume(z3.Implies(hi == n, post == F.ident))
        r.folds[nm] = mid
    abs_facts(ctx, r)
    return PList(ctx, (), r)


def has_getter(l):
    return l.prefix is not None and l.prefix.getter is not None


def spliced(I, *lists):
    """getter for the concatenation of the lists as they are now (index in range)"""
    parts = []
    for l in lists:
        if l.prefix is not None:
            parts.append((l.prefix.length, lambda ctx, k, a=l.prefix: abs_get(I, a, k)))
        for x in l.items:
            parts.append((1, lambda ctx, k, x=x: x))

    def get(ctx, k):
        for n, g in parts[:-1]:
            if ctx.branch(k < n):
                return g(ctx, k)
            k = z3.simplify(k - n)
        return parts[-1][1](ctx, k)
    return get


def list_reverse(I, l):
    ctx = I.ctx
    ctx.touched(l)
    if l.prefix is None:
        l.items.reverse()
        return
    if has_getter(l):
        get, n = spliced(I, l), z3.simplify(l.prefix.length + len(l.items))
        b = Abstract(n, None, None, {}, getter=lambda c, k: get(c, z3.simplify(n - 1 - k)))
        b.elem, b.cache = l.prefix.elem, {}
        for nm, F in ctx.folds.items():
            b.folds[nm] = fold_of(I, l, F.mirror) if F.mirror and F.mirror in l.prefix.folds else ctx.fresh(F.sort, 'fold_' + nm)
        l.prefix, l.items = b, []
        return
    if l.items:
        # fold the tail into the prefix first
        a = l.prefix
        b = Abstract(a.length + len(l.items), None, a.wrap, {nm: fold_of(I, l, nm) for nm in ctx.folds})
        b.elem, b.cache = a.elem, {}
        for x in l.items:
            b.elem = join_shapes(b.elem, shape_of(I, x))
        l.items = []
        l.prefix = b
    a = l.prefix
    b = Abstract(a.length, None, a.wrap, {})
    b.elem, b.cache = a.elem, {}
    for nm, F in ctx.folds.items():
        if F.mirror and F.mirror in a.folds:
            b.folds[nm] = a.folds[F.mirror]
        else:
            b.folds[nm] = ctx.fresh(F.sort, 'fold_' + nm)
    if a.seq is not None:
        REVS = z3.Function('seq.rev.' + str(a.seq.sort()), a.seq.sort(), a.seq.sort())
        b.seq = REVS(a.seq)
        ctx.assume(z3.Length(b.seq) == z3.Length(a.seq))
    l.prefix = b


def make_set(I, items):
    if all(is_concrete(x) for x in items):
        try:
            return PSet(I.ctx, items)
        except TypeError as e:
            I.throw(TypeError, *e.args)
    objs = [x for x in items if isinstance(x, SObj)]
    if len(objs) == len(items):
        arr = z3.K(Obj, z3.BoolVal(False))
        for x in items:
            arr = z3.Store(arr, x.t, True)
        return SSet(I.ctx, arr)
    if all(is_text(x) or is_concrete(x) for x in items):
        return TextSet(I, items)
    raise Unsupported('set of symbolic values')


def to_sset(I, v):
    if isinstance(v, SSet):
        return v.arr, v.sort, v.wrap
    if isinstance(v, SMap):
        return v.dom, v.sort, SObj
    if isinstance(v, PSet) and not v.s:
        return z3.K(Obj, z3.BoolVal(False)), Obj, SObj
    if isinstance(v, (PList, tuple)):
        s = make_set(I, must_list(I, v))
        if isinstance(s, SSet):
            return s.arr, s.sort, s.wrap
        if not s.s:
            return z3.K(Obj, z3.BoolVal(False)), Obj, SObj
    raise Unsupported(f'not a set: {v!r}')


def setop(I, op, a, b):
    ctx = I.ctx
    if (isinstance(a, TextSet) or isinstance(b, TextSet)) and isinstance(a, (TextSet, PSet, set, frozenset)) and isinstance(b, (TextSet, PSet, set, frozenset)):
        return textset(I, a).op(op, b)
    if isinstance(a, PSet) and isinstance(b, (PSet, set, frozenset)):
        bs = b.s if isinstance(b, PSet) else b
        return PSet(ctx, nativebin(I, op, a.s, bs))
    if isinstance(a, (set, frozenset)) and isinstance(b, PSet):
        return PSet(ctx, nativebin(I, op, a, b.s))
    if isinstance(a, PDict) and isinstance(b, PDict) and op == 'BitOr':
        return PDict(ctx, {**a.d, **b.d})
    x, sort, w = to_sset(I, a)
    y, _, _ = to_sset(I, b)
    q = z3.Const('x!l', sort)
    if op == 'BitOr':
        e = z3.Or(x[q], y[q])
    elif op == 'BitAnd':
        e = z3.And(x[q], y[q])
    elif op == 'Sub':
        e = z3.And(x[q], z3.Not(y[q]))
    elif op == 'BitXor':
        e = x[q] != y[q]
    else:
        raise Unsupported(f'set {op}')
    if ctx.ghost.get('named sets'):
        r = ctx.fresh(z3.ArraySort(sort, BoolS), 'set')
        ctx.assume(z3.ForAll([q], r[q] == e))
        return SSet(ctx, r, sort, w)
    return SSet(ctx, z3.Lambda([q], e), sort, w)


# --------------------------------------------------------------- iterate ----
def must_list(I, v):
    it = iterate(I, v)
    if not isinstance(it, list):
        raise Unsupported(f'symbolic iterable {v!r}')
    return it


def iterate(I, v):
    """a Python list of values (known spine) or an IterView / live iterator"""
    ctx = I.ctx
    if isinstance(v, GenObj):
        return iterate(I, I.collect(v))
    if isinstance(v, Hook):
        return v.iterate(ctx)
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, PList):
        if v.prefix is None:
            return list(v.items)
        if v.prefix is not None:
            items = list(v.items)
            a = v.prefix
            n = z3.simplify(a.length + len(items))

            def get(ctx, k, a=a, items=items):
                if not items:
                    return abs_get(I, a, k)
                j = ctx.choose(1 + len(items), [k < a.length] + [k == a.length + q for q in range(len(items))])
                return abs_get(I, a, k) if j == 0 else items[j - 1]
            view = IterView(n, get)
            if not items:
                view.abstract = a
            return view
    if isinstance(v, PDict):
        return list(v.d)
    if isinstance(v, PSet):
        return sorted(v.s, key=repr)
    if isinstance(v, SSet):
        view = set_view(I, v.arr, v.sort, v.wrap)
        view.source = v
        return view
    if isinstance(v, SMap):
        view = set_view(I, v.dom, v.sort, SObj)
        view.source = v
        return view
    if isinstance(v, Bag) and v.distinct:
        q = z3.Const('x!l', v.sort)
        view = set_view(I, v.arr if v.arr is not None else z3.Lambda([q], v.cnt[q] > 0), v.sort, v.wrap)
        view.source = v
        return view
    if isinstance(v, SStr):
        t = v.t
        if v.kind == 'bytes':
            return IterView(z3.Length(t), lambda ctx, k: wrapnum(z3.StrToCode(z3.SubString(t, k, 1))))
        return IterView(z3.Length(t), lambda ctx, k: SStr(z3.SubString(t, k, 1), 'str'))
    if isinstance(v, IterView):
        return v
    if isinstance(v, IterObj):
        return iter_rest(I, v)
    if isinstance(v, RangeV):
        return v.view(ctx)
    if isinstance(v, (Seqs,)):
        out = []
        for p in v.parts:
            x = iterate(I, p)
            if not isinstance(x, list):
                raise Unsupported('iterate symbolic concatenation')
            out.extend(x)
        return out
    if isinstance(v, Iterating):
        return v.iterate(I)
    if isinstance(v, PObj):
        m = I.class_lookup(v.cls, '__iter__')
        if m is None:
            I.throw(TypeError, 'not iterable')
        r = I.call(m, [v])
        if r is v:
            raise Unsupported('iteration over an iterator object')
        return iterate(I, r)
    if isinstance(v, DictOf):
        return list(v.o.attrs)
    if isinstance(v, (SInt, SBool, SReal, SObj, Native, Closure)):
        I.throw(TypeError, 'object is not iterable')
    if is_concrete(v):
        try:
            return [abstractize(I, x) for x in v]
        except TypeError as e:
            I.throw(TypeError, *e.args)
    if isinstance(v, (list,)):
        return list(v)
    raise Unsupported(f'iterate {v!r}')


def set_view(I, arr, sort, wrap, value=None):
    """every element once, in some order: vis(k) are the first k of them"""
    ctx = I.ctx
    n = ctx.fresh(IntS, 'size')
    vis = z3.Function(ctx.name('visited'), IntS, z3.ArraySort(sort, BoolS))
    el = z3.Function(ctx.name('element'), IntS, sort)
    ctx.assume(n >= 0)
    ctx.assume(vis(0) == z3.K(sort, z3.BoolVal(False)))
    if z3.is_quantifier(arr):
        q = z3.Const('x!v', sort)
        ctx.assume(z3.ForAll([q], vis(n)[q] == z3.simplify(arr[q])))
    else:
        ctx.assume(vis(n) == arr)

    def get(ctx, k):
        x = el(k)
        ctx.assume(z3.And(z3.simplify(arr[x]), z3.Not(vis(k)[x])))
        ctx.assume(vis(k + 1) == z3.Store(vis(k), x, True))
        r = wrap(x)
        return r if value is None else (r, value(ctx, x))
    view = IterView(n, get)
    view.vis, view.el, view.arr = vis, el, arr
    return view


class Iterating:
    pass


def iter_rest(I, io):
    view = io.view
    pos = io.pos
    if isinstance(view, list):
        I.ctx.touched(io)
        rest = view[pos:]
        io.consumed = True
        return Stepper(I, io)
    # symbolic: live view starting at pos
    base = term(pos)
    n = term(view.n)
    I.ctx.touched(io)

    return LiveView(I, io)


def drained(I, it):
    """what is left in a live iterator, which is used up"""
    if isinstance(it, Stepper):
        return list(it)
    if isinstance(it, LiveView):
        io, base = it.io, term(it.io.pos)
        I.ctx.touched(io)
        io.pos = term(io.view.n)
        r = IterView(it.n, lambda ctx, k: io.view.get(ctx, z3.simplify(base + k)))
        if z3.is_int_value(base) and base.as_long() == 0 and getattr(io.view, 'abstract', None) is not None:
            r.abstract = io.view.abstract
        return r
    return it


class Stepper:
    """concrete-spine iterator consumed step by step (so a later loop resumes)"""

    def __init__(self, I, io):
        self.I, self.io = I, io

    def __iter__(self):
        return self

    def __next__(self):
        io = self.io
        if io.pos >= len(io.view):
            raise StopIteration
        v = io.view[io.pos]
        io.pos += 1
        self.I.ctx.touched(io)
        return v


class LiveView(IterView):
    def __init__(self, I, io):
        self.io = io
        base = term(io.pos)
        n = term(io.view.n)
        IterView.__init__(self, n - base, lambda ctx, k: self._get(ctx, base, k))

    def _get(self, ctx, base, k):
        ctx.touched(self.io, 'pos')
        self.io.pos = base + k + 1
        return self.io.view.get(ctx, z3.simplify(base + k))


class RangeV:
    def __init__(self, a, b, step):
        self.a, self.b, self.step = a, b, step

    def view(self, ctx):
        a, b, s = self.a, self.b, self.step
        if all(isinstance(x, int) for x in (a, b, s)) and len(range(a, b, s)) <= 400:
            return list(range(a, b, s))
        a, b = term(a), term(b)
        if s == 1:
            return IterView(z3.simplify(z3.If(b > a, b - a, z3.IntVal(0))), lambda ctx, k: wrapnum(a + k))
        if s == -1:
            return IterView(z3.simplify(z3.If(a > b, a - b, z3.IntVal(0))), lambda ctx, k: wrapnum(a - k))
        if isinstance(s, int):
            if s > 0:
                n = z3.If(b > a, (b - a + (s - 1)) / s, z3.IntVal(0))
            else:
                n = z3.If(a > b, (a - b + (-s - 1)) / (-s), z3.IntVal(0))
            return IterView(z3.simplify(n), lambda ctx, k: wrapnum(a + k * s))
        raise Unsupported('range step')


def unpack_view(I, view, n):
    if isinstance(view, IterView):
        if I.ctx.branch(term(view.n) == n):
            return [view.get(I.ctx, z3.IntVal(i)) for i in range(n)]
        I.throw(ValueError, 'unpack length mismatch')
    raise Unsupported('unpack')


def comp_view(I, e, f, g, view):
    h = I.ctx.ghost.get('comp')
    if h:
        r = h(I, e, f, g, view)
        if r is not None:
            return r
    return CompList(I, e, f, g, view)


def freeze(f):
    """a copy of a frame whose local names keep their current values"""
    g = copy.copy(f)
    g.locals = dict(f.locals)
    g.out = None
    if f.parent is not None:
        g.parent = freeze(f.parent)
    return g


class CompList(Hook):
    """the list [elt for target in view if conds] over a symbolic view, known pointwise:
    probe(ctx, k) is the list of values contributed by the k-th element"""
    pytype = list

    def __init__(self, I, e, f, g, view):
        self.serial = I.ctx.next_serial()
        self.I, self.e, self.g, self.view = I, e, g, view
        self.f = freeze(f)
        self.n = view.n
        I.ctx.unprobed.add(self)

    def probe(self, ctx, k):
        from .interp import CompFrame
        I = self.I
        ctx.unprobed.discard(self)
        cf = CompFrame(ctx, self.f)
        log = {'serial': ctx.serial, 'writes': set(), 'locals': set(), 'frame': cf}
        ctx.writelogs.append(log)
        try:
            I.assign(self.g.target, self.view.get(ctx, k), cf)
            for c in self.g.ifs:
                if not I.truth(I.eval(c, cf)):
                    return []
            return [I.eval(self.e.elt, cf)]
        finally:
            ctx.writelogs.remove(log)
            if log['writes'] or any(fr is not cf for fr, _ in log['locals']):
                raise Unsupported('a comprehension with side effects')

    def iterate(self, ctx):
        if self.g.ifs:
            raise Unsupported('iteration over a filtered symbolic list')
        return IterView(self.n, lambda ctx, k: self.probe(ctx, k)[0])

    def length(self, ctx):
        if self.g.ifs:
            n = ctx.int('filtered', 0)
            ctx.assume(n.t <= term(self.n))
            return n
        return wrapnum(term(self.n))


    def contains(self, ctx, x):
        """membership: a witness, or no element equals x (used at the indices in ghost 'instances')"""
        hook = ctx.ghost.get('instances')
        if hook is None:
            raise Unsupported('membership in a symbolic collection')
        ctx.unprobed.discard(self)
        if ctx.choose(2):
            w = ctx.fresh(IntS, 'member')
            ctx.assume(z3.And(w >= 0, w < term(self.n)))
            got = self.probe(ctx, w)
            if not got:
                raise PathEnd()
            ctx.assume(_b(eq_term(self.I, x, got[0])))
            return True
        for w in hook(ctx, self):
            if ctx.branch(z3.And(w >= 0, w < term(self.n))):
                for v in self.probe(ctx, w):
                    e = eq_term(self.I, x, v)
                    if e is True:
                        raise PathEnd()
                    if e is not False:
                        ctx.assume(z3.Not(e))
        return False

    methods = ('__contains__',)

    def m___contains__(self, ctx, x):
        return self.contains(ctx, x)


class CompDict(CompList):
    """{key: value for target in view if conds}: probe gives the pairs"""
    pytype = dict

    def __init__(self, I, e, f, g, view):
        pair = types.SimpleNamespace(elt=ast.copy_location(ast.Tuple([e.key, e.value], ast.Load()), e))
        CompList.__init__(self, I, pair, f, g, view)

    def m_items(self, ctx):
        return self.iterate(ctx)

    def iterate(self, ctx):
        raise Unsupported('iteration over a symbolic dict comprehension')


def retyped(ty, v):
    """ty(v) for a pointwise described collection v: the same description, another type"""
    r = copy.copy(v)
    r.pytype = ty
    if v in v.I.ctx.unprobed:
        v.I.ctx.unprobed.discard(v)
        v.I.ctx.unprobed.add(r)
    return r


class SeqV(Hook):
    """an immutable sequence of symbolic length: n (term), at(ctx, k) -> value.
    == and < are decided by the first difference (which exists or the sequences are equal: well-ordering)"""
    pytype = tuple
    methods = ()

    def __init__(self, ctx, n, at, pytype=tuple, src=None):
        self.serial = ctx.next_serial()
        self.n, self.at, self.pytype, self.src = term(n), at, pytype, src

    def probe(self, ctx, k):
        return [self.at(ctx, k)]

    def length(self, ctx):
        return wrapnum(self.n)

    def truth(self, ctx):
        return ctx.branch(self.n > 0)

    def iterate(self, ctx):
        if self.src is not None:
            self.src(ctx)
        return IterView(self.n, self.at)

    def getitem(self, ctx, i):
        I = ctx.interp
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported('slice step')
            lo = z3.simplify(norm_index(I, i.start, self.n, z3.IntVal(0)))
            hi = z3.simplify(norm_index(I, i.stop, self.n, self.n))
            n = hi - lo if ctx.holds(hi >= lo, 500) else z3.If(hi > lo, hi - lo, z3.IntVal(0))
            return SeqV(ctx, z3.simplify(n), lambda ctx, k: self.at(ctx, z3.simplify(lo + k)), self.pytype)
        if not isinstance(i, (int, SInt)):
            I.throw(TypeError, 'indices must be integers')
        t = numterm(i)
        if isinstance(i, int) and i < 0:
            t = self.n + i
        elif not isinstance(i, int) and not ctx.holds(t >= 0, 500):
            t = z3.If(t < 0, t + self.n, t)
        if not ctx.branch(z3.And(t >= 0, t < self.n)):
            I.throw(IndexError, 'index out of range')
        return self.at(ctx, z3.simplify(t))

    def difference(self, ctx, other):
        """None when equal, else the index of the first difference (maybe the length of the shorter)"""
        h = ctx.ghost.setdefault('seqdiff', {})
        key = (id(self), id(other))
        if key in h:
            return h[key][0]
        if ctx.choose(2):
            d = ctx.fresh(IntS, 'diff')
            ctx.assume(z3.And(d >= 0, d <= self.n, d <= other.n, z3.Or(d < self.n, d < other.n)))
        else:
            d = None
            ctx.assume(self.n == other.n)
        for hook in ctx.ghost.get('seqdiff_instances', []):
            for k in hook(ctx, self, other, d):
                # equal below the difference
                if ctx.branch(z3.And(k >= 0, k < self.n, k < other.n, z3.BoolVal(True) if d is None else k < d)):
                    ctx.assume(_b(eq_term(ctx.interp, self.at(ctx, k), other.at(ctx, k))))
        if d is not None and ctx.branch(z3.And(d < self.n, d < other.n)):
            e = eq_term(ctx.interp, self.at(ctx, d), other.at(ctx, d))
            if e is True:
                raise PathEnd()
            if e is not False:
                ctx.assume(z3.Not(e))
        h[key] = h[(id(other), id(self))] = (d, self, other)
        return d

    def as_seq(self, ctx, other):
        if isinstance(other, SeqV):
            return other
        if isinstance(other, tuple):
            items = PList(ctx, other)
            return SeqV(ctx, z3.IntVal(len(other)), lambda c, k: list_getitem(c.interp, items, SInt(k) if not z3.is_int_value(k) else k.as_long()))
        return None

    def eq(self, ctx, other):
        if self is other:
            return True
        o = self.as_seq(ctx, other)
        if o is None or o.pytype is not self.pytype:
            return False
        return self.difference(ctx, o) is None

    def order(self, ctx, op, other):
        o = self.as_seq(ctx, other)
        if o is None:
            ctx.interp.throw(TypeError, f'{op} not supported')
        d = self.difference(ctx, o) if self is not o else None
        if d is None:
            return op in ('LtE', 'GtE')
        if ctx.branch(z3.And(d < self.n, d < o.n)):
            return order(ctx.interp, {'LtE': 'Lt', 'GtE': 'Gt'}.get(op, op), self.at(ctx, d), o.at(ctx, d))
        shorter = ctx.branch(d == self.n)
        return shorter == (op in ('Lt', 'LtE'))


class LoopList(CompList):
    """the list a loop over a symbolic view builds when all it does is append to it (or yield)"""

    def __init__(self, I, s, f, view, name):
        self.serial = I.ctx.next_serial()
        self.I, self.s, self.view, self.name = I, s, view, name
        self.raising = False
        self.f = freeze(f)
        for n in assigned(s):
            self.f.locals.pop(n, None)
        self.n = view.n
        I.ctx.unprobed.add(self)

    def probe(self, ctx, k):
        from .interp import ContinueX, PyExc
        I = self.I
        ctx.unprobed.discard(self)
        g = freeze(self.f)
        acc = PList(ctx)
        if self.name is None:
            g.out = acc
        else:
            g.locals[self.name] = acc
        log = {'serial': ctx.serial, 'writes': set(), 'locals': set(), 'frame': g}
        ctx.writelogs.append(log)
        try:
            I.assign(self.s.target, self.view.get(ctx, k), g)
            try:
                I.exec_block(self.s.body, g)
            except ContinueX:
                pass
            except PyExc:
                if self.raising:
                    raise PathEnd()         # the loop was taken to have run to its end
                raise
        finally:
            ctx.writelogs.remove(log)
        if any(o is not acc and o is not g for o, _ in log['writes']) or any(fr is not g for fr, _ in log['locals']):
            raise Unsupported('the loop body changes more than its result list')
        if acc.prefix is not None or (self.name is not None and g.locals.get(self.name) is not acc):
            raise Unsupported('loop result list')
        return list(acc.items)

    def iterate(self, ctx):
        raise Unsupported('iteration over a list built by a symbolic loop')

    def length(self, ctx):
        return ctx.int('built', 0)


def assigned(s):
    return {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def map_filter_loop(I, s, f, view):
    """the rule for `for x in view: ... out.append(..)`: out is an empty list and the body only appends to it
    (checked when an iteration is looked at); returns False if the loop does not have this shape"""
    if s.orelse:
        return False
    names = set()
    yields = False
    for n in ast.walk(ast.Module(s.body, [])):
        if isinstance(n, (ast.Break, ast.Return, ast.Try, ast.While, ast.For, ast.With, ast.Nonlocal, ast.Global, ast.Delete, ast.YieldFrom, ast.AugAssign)):
            return False
        if isinstance(n, ast.Yield):
            yields = True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and isinstance(n.func.value, ast.Name):
            names.add(n.func.value.id)
    target = {n for n in names}
    if len(target) + yields != 1:
        return False
    stored = assigned(s)
    if yields:
        if f.out is None or f.out.items or f.out.prefix is not None or f.onyield is not None:
            return False
        out, name = f.out, None
    else:
        name = target.pop()
        out = f.locals.get(name)
        if name in stored or not isinstance(out, PList) or out.items or out.prefix is not None:
            return False
    if isinstance(view, LiveView):          # the iterator is used up by the loop
        io, base = view.io, term(view.io.pos)
        view = IterView(view.n, lambda ctx, k: io.view.get(ctx, z3.simplify(base + k)))
        I.ctx.touched(io)
        io.pos = term(io.view.n)
    lst = LoopList(I, s, f, view, name)
    I.ctx.touched(out)
    if any(isinstance(n, ast.Raise) for n in ast.walk(s)):
        # either some iteration raises, or none does
        if I.ctx.choose(2):
            k = I.ctx.fresh(IntS, 'raising')
            I.ctx.assume(z3.And(k >= 0, k < term(view.n)))
            lst.probe(I.ctx, k)
            raise PathEnd()
        lst.raising = True
        I.ctx.unprobed.discard(lst)         # an arbitrary iteration has been looked at
        for w in I.ctx.ghost.get('instances', lambda ctx, comp: [])(I.ctx, lst):
            if I.ctx.holds(z3.And(w >= 0, w < term(view.n))):
                lst.probe(I.ctx, w)
    if not yields and one_each(s.body, name):
        out.prefix = Abstract(z3.simplify(term(view.n)), None, None, {}, getter=lambda ctx, k: lst.probe(ctx, k)[0])
        out.prefix.elem, out.prefix.cache = frozenset(), {}
    else:
        n = I.ctx.int('built', 0)

        def getter(ctx, k):
            raise Unsupported('element of a list built by a symbolic loop')
        out.prefix = Abstract(n.t, None, None, {}, getter=getter)
    out.prefix.built = lst
    for x in stored:
        f.locals.pop(x, None)
    return True


def one_each(body, name):
    """does every complete run of the body append exactly once to the list?"""
    def appends(n):
        return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'append' and isinstance(x.func.value, ast.Name) and x.func.value.id == name
                   for x in ast.walk(n))
    top = [s for s in body if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and appends(ast.Expr(s.value.func)) is False and
           isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'append' and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == name]
    if len(top) != 1:
        return False
    return not any(appends(s) or any(isinstance(x, ast.Continue) for x in ast.walk(s)) for s in body if s is not top[0]) and not any(appends(a) for a in top[0].value.args)


def built(v):
    """the pointwise description of a list value, or None"""
    if isinstance(v, CompList):
        return v
    if isinstance(v, PList) and v.prefix is not None and not v.items:
        return getattr(v.prefix, 'built', None)
    return None


# -------------------------------------------------------------- shapes ------
def shape_of(I, v):
    return frozenset([_shape(I, v)])


def _shape(I, v):
    if v is None:
        return ('none',)
    if isinstance(v, (bool, SBool)):
        return ('bool',)
    if isinstance(v, (int, SInt)):
        return ('int',)
    if isinstance(v, (float, SReal)):
        return ('real',)
    if isinstance(v, SStr):
        return (v.kind,)
    if isinstance(v, str) and type(v) is str:
        return ('lit', v)
    if isinstance(v, bytes) and type(v) is bytes:
        return ('lit', v)
    if isinstance(v, SObj):
        return ('obj', v.tag)
    if isinstance(v, tuple) and type(v) is tuple:
        return ('tuple', tuple(shape_of(I, x) for x in v))
    if isinstance(v, PList):
        el = v.prefix.elem if v.prefix is not None else NOSHAPE
        for x in v.items:
            el = join_shapes(el, shape_of(I, x))
        return ('list', el)
    if isinstance(v, MatchV):
        return ('match',)
    if isinstance(v, PDict):
        return ('const', HK(v.d.get('$id', None) or v))
    return ('const', HK(v))


def controllable(v):
    return v is None or type(v) in (bool, int, str, bytes) or type(v) is tuple and all(controllable(x) for x in v) or isinstance(v, (types.FunctionType, types.BuiltinFunctionType))


class BoundRef:
    """a method of the object at a path"""

    def __init__(self, fn, at):
        self.fn, self.at = fn, at

    def __hash__(self):
        return hash((id(self.fn), self.at))

    def __eq__(self, o):
        return isinstance(o, BoundRef) and self.fn is o.fn and self.at == o.at

    def __repr__(self):
        return f'{".".join(map(str, self.at))}.{getattr(self.fn, "__name__", self.fn)}'


class HK:
    """identity-hashed holder; for heap objects compares by serial so it is stable across re-executions"""

    def __init__(self, v):
        self.v = v
        self.key = ('s', v.serial) if isinstance(v, Heapy) else ('b', id(v.fn), HK(v.self_).key) if isinstance(v, BoundM) else ('i', id(v))

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, HK) and self.key == o.key

    def __repr__(self):
        return f'HK{self.key}'


def join_shapes(a, b):
    if a is UNBOUND or a == UNBOUND:
        return UNBOUND
    out = set(a) | set(b)
    lits = [x for x in out if x[0] == 'lit']
    for kind, ty in (('str', str), ('bytes', bytes)):
        mine = [x for x in lits if isinstance(x[1], ty)]
        if (kind,) in out or len(mine) > 8:
            for x in mine:
                out.discard(x)
            if mine:
                out.add((kind,))
    lists = [x for x in out if x[0] == 'list']
    if len(lists) > 1:
        el = frozenset()
        for x in lists:
            el = join_shapes(el, x[1])
            out.discard(x)
        out.add(('list', el))
    tups = {}
    for x in [x for x in out if x[0] == 'tuple']:
        tups.setdefault(len(x[1]), []).append(x)
    for n, xs in tups.items():
        if len(xs) > 1:
            for x in xs:
                out.discard(x)
            out.add(('tuple', tuple(join_many([x[1][i] for x in xs]) for i in range(n))))
    if ('int',) in out and ('bool',) in out:
        out.discard(('bool',))
    return frozenset(out)


def join_many(l):
    r = frozenset()
    for x in l:
        r = join_shapes(r, x)
    return r


def fresh_shape(I, shapes, spec):
    ctx = I.ctx
    alts = sorted(shapes, key=repr)
    if not alts:
        raise PathEnd()
    sh = alts[ctx.choose(len(alts))]
    k = sh[0]
    if k == 'none':
        return None
    if k == 'bool':
        return ctx.bool()
    if k == 'int':
        return ctx.int()
    if k == 'real':
        return ctx.real()
    if k in ('str', 'bytes'):
        return ctx.str('s', k)
    if k == 'lit':
        return sh[1]
    if k == 'obj':
        return ctx.obj('o', sh[1])
    if k == 'tuple':
        return tuple(fresh_shape(I, x, spec) for x in sh[1])
    if k == 'list':
        return fresh_list(I, sh[1], spec.seq if spec is not None and spec.seq else None)
    if k == 'match':
        s = ctx.str('ms')
        return fresh_match(I, s)
    if k == 'const':
        if isinstance(sh[1].v, Heapy):
            raise Unsupported(f'havoc of an object-valued variable ({type(sh[1].v).__name__})')
        return sh[1].v
    raise Unsupported(f'shape {sh}')


def fresh_match(I, s, name='m'):
    ctx = I.ctx
    a, b = ctx.int(name + 's'), ctx.int(name + 'e')
    ctx.assume(z3.And(0 <= a.t, a.t <= b.t, b.t <= z3.Length(term(s))))
    return MatchV(s, a, b)


# ---------------------------------------------------------- access paths ----
def roots(I, f):
    """(root path, value) for everything the loop's frame can name"""
    seen = set()
    g = f
    out = []
    tag = 'local'
    while g is not None:
        for n in sorted(g.locals):
            if (n) not in seen:
                seen.add(n)
                out.append(((tag, n), g.locals[n], g))
        for n in sorted(g.freevars):
            if n not in seen:
                seen.add(n)
                out.append((('free', n), g.freevars[n], g))
        g = g.parent
        tag = 'up'
    if f.out is not None:
        out.append((('out', ''), f.out, f))
    # the callers' locals (objects passed down are reachable from here anyway)
    c = f.caller
    d = 1
    while c is not None and d < 12:
        for n in sorted(c.locals):
            out.append((('caller%d' % d, n), c.locals[n], c))
        if c.out is not None:
            out.append((('caller%d' % d, '$out'), c.out, c))
        c = c.caller
        d += 1
    for n, v in sorted(I.ctx.ghost.items(), key=lambda kv: str(kv[0])):
        out.append((('ghost', n), v, None))
    return out


def children(v):
    if isinstance(v, PObj):
        return [(n, v.attrs[n]) for n in sorted(v.attrs)]
    if isinstance(v, PList):
        return [(i, x) for i, x in enumerate(v.items)]
    if isinstance(v, tuple):
        return [(i, x) for i, x in enumerate(v)]
    if isinstance(v, PDict):
        return [(('k', repr(n)), v.d[n]) for n in v.d]
    if isinstance(v, (BoundM,)):
        return [('self', v.self_)]
    if isinstance(v, ModelM):
        return [('self', v.obj)]
    return []


def find(I, f, pred, depth=5):
    queue = [(p, v) for p, v, _ in roots(I, f)]
    seen = set()
    while queue:
        nq = []
        for p, v in queue:
            if pred(v):
                return p
            if id(v) in seen:
                continue
            seen.add(id(v))
            if len(p) < depth + 2:
                for n, x in children(v):
                    nq.append((p + (n,), x))
        queue = nq
    return None


def local_path(I, f, fr, name):
    g = f
    tag = 'local'
    while g is not None:
        if g is fr:
            return (tag, name)
        g = g.parent
        tag = 'up'
    c = f.caller
    d = 1
    while c is not None and d < 12:
        if c is fr:
            return ('caller%d' % d, name)
        c = c.caller
        d += 1
    return None


def access_path(I, f, o, fld):
    p = find(I, f, lambda v: v is o)
    if p is None:
        return None
    return p + (('.', fld),) if isinstance(o, PObj) else p + ('[]',)


def path_order(p):
    return (0 if p[-1] == '[]' else 1 if isinstance(p[-1], tuple) else 2, str(p))


def resolve_root(I, f, p):
    tag, name = p[0], p[1]
    if tag == 'local':
        return f.locals, name
    if tag == 'up':
        g = f.parent
        while g is not None:
            if name in g.locals:
                return g.locals, name
            g = g.parent
        raise KeyError(name)
    if tag == 'free':
        g = f
        while g is not None:
            if name in g.freevars:
                return g.freevars, name
            g = g.parent
        raise KeyError(name)
    if tag == 'out':
        return {'': f.out}, ''
    if tag == 'ghost':
        return I.ctx.ghost, name
    d = int(tag[6:])
    c = f
    for _ in range(d):
        c = c.caller
    if name == '$out':
        return {'$out': c.out}, '$out'
    return c.locals, name


def read_path(I, f, p):
    d, n = resolve_root(I, f, p)
    if n not in d:
        raise KeyError(n)
    v = d[n]
    for s in p[2:]:
        if s == '[]':
            return v
        if isinstance(s, tuple) and s[0] == '.':
            v = v.attrs[s[1]] if s[1] in v.attrs else None
        elif isinstance(s, tuple) and s[0] == 'k':
            v = next(x for k, x in v.d.items() if repr(k) == s[1])
        elif s == 'self':
            v = v.self_ if isinstance(v, BoundM) else v.obj
        elif isinstance(v, PObj):
            v = v.attrs[s]
        elif isinstance(v, PList):
            v = v.items[s]
        else:
            v = v[s]
    return v


def write_path(I, f, p, v):
    if len(p) == 2:
        d, n = resolve_root(I, f, p)
        d[n] = v
        for log in I.ctx.writelogs:
            if f.serial <= log['serial'] and p[0] == 'local':
                log['locals'].add((f, p[1]))
        return
    last = p[-1]
    if isinstance(last, tuple) and last[0] == '.':
        o = read_path(I, f, p[:-1])
        I.ctx.touched(o, last[1])
        o.attrs[last[1]] = v
        return
    if last == '[]' and isinstance(v, PList):
        try:
            o = read_path(I, f, p)
        except KeyError:
            return
        if isinstance(o, PList):
            I.ctx.touched(o)
            o.prefix, o.items = v.prefix, list(v.items)
            return
    raise Unsupported(f'write_path {p}')


def havoc_path(I, f, p, shape, spec):
    ctx = I.ctx
    if shape == UNBOUND:
        d, n = resolve_root(I, f, p)
        d.pop(n, None)
        return
    try:
        cur = read_path(I, f, p)
    except KeyError:
        if p[-1] == '[]':
            return              # no such object on this path
        cur = None
    last = p[-1]
    is_field = isinstance(last, tuple) and last[0] == '.'
    if last == '[]':
        # content havoc, identity preserved
        ctx.touched(cur)
        havoc_content(I, cur, shape, spec)
        return
    try:
        v = fresh_shape(I, shape, spec)
    except Unsupported as e:
        raise Unsupported(f'{e} [{p}]')
    if is_field or len(p) == 2:
        write_path(I, f, p, v)
    else:
        raise Unsupported(f'havoc {p}')


def havoc_content(I, cur, shape, spec):
    ctx = I.ctx
    if isinstance(cur, PList):
        el = frozenset()
        for sh in shape:
            if sh[0] == 'list':
                el = join_shapes(el, sh[1])
        if not el:
            cur.prefix, cur.items = None, []
            return
        cur.prefix = fresh_abstract(I, el, spec.seq if spec is not None and spec.seq else None)
        cur.items = []
        return
    if isinstance(cur, SSet):
        cur.arr = ctx.fresh(z3.ArraySort(cur.sort, BoolS), 'set')
        return
    if isinstance(cur, SMap):
        cur.dom = ctx.fresh(cur.dom.sort(), 'dom')
        cur.val = ctx.fresh(cur.val.sort(), 'val')
        return
    if isinstance(cur, Bag):
        cur.cnt = ctx.fresh(cur.cnt.sort(), 'bag')
        return
    if isinstance(cur, IterObj):
        if isinstance(cur.view, list):
            raise Unsupported('havoc of a concrete iterator')
        p = ctx.fresh(IntS, 'pos')
        ctx.assume(z3.And(p >= 0, p <= term(cur.view.n)))
        cur.pos = p
        return
    if hasattr(cur, 'havoc'):
        cur.havoc(ctx)
        return
    raise Unsupported(f'havoc of {cur!r}')


def snapshot(I, f):
    old = {'locals': dict(f.locals), 'paths': set()}
    for p, v, g in roots(I, f):
        old['paths'].add(p)
    snap = {}
    for n, v in f.locals.items():
        if isinstance(v, PList):
            snap[n] = (list(v.items), v.prefix)
    old['lists'] = snap
    return old


# --------------------------------------------------------- formatting -------
def fmt(I, x, conv, spec):
    if isinstance(x, (str,)) and conv == -1 and not spec:
        return str(x)
    if isinstance(x, SStr) and x.kind == 'str' and conv in (-1, 115) and not spec:
        return x
    try:
        c = concretize(x)
        s = concretize(spec)
        if conv == 114:
            c = repr(c)
        elif conv == 115:
            c = str(c)
        elif conv == 97:
            c = ascii(c)
        return format(c, s)
    except Unsupported:
        if isinstance(x, SInt) and conv == -1:
            h = I.ctx.ghost.get('fmt_int')
            if h:
                return h(I.ctx, x, spec)
        return SStr(I.ctx.fresh(StringS, 'fmt'))


# ------------------------------------------------------- builtin calls ------
from .builtins_model import call_builtin, call_method, getattr_model  # noqa: E402
from . import builtins_model as _bm  # noqa: E402
_bm._init()
