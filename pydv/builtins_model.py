import builtins
import functools
import heapq
import itertools
import re
import types
import operator
import z3
from .values import *
from .ctx import PathEnd, Unsupported
from . import models as M

CASE = {n: z3.Function('str.' + n, StringS, StringS) for n in
        ('lower', 'upper', 'title', 'capitalize', 'casefold', 'swapcase')}
PRED = {n: z3.Function('str.' + n, StringS, BoolS) for n in
        ('isspace', 'islower', 'isupper', 'isdigit', 'isalpha', 'isalnum', 'isidentifier', 'isdecimal', 'isnumeric', 'isprintable', 'istitle', 'isascii')}
HASH = z3.Function('hash', StringS, IntS)


def isinstance_(I, v, t):
    if isinstance(t, tuple):
        return M.disj([isinstance_(I, v, x) for x in t])
    if isinstance(v, SObj) and v.tag is None:
        h = I.ctx.ghost.get('obj_isinstance')
        if h:
            return h(I.ctx, v, t)
        return t is object
    if isinstance(t, (PObj, SObj)):
        h = I.ctx.ghost.get('isinstance_dyn')
        if h:
            return h(I.ctx, v, t)
        raise Unsupported('isinstance with a symbolic class')
    if not isinstance(t, type) and not hasattr(t, '__instancecheck__'):
        I.throw(TypeError, 'isinstance() arg 2 must be a type')
    if isinstance(v, (SV, Heapy, Native, Closure, BoundM, ExcV, MatchV)):
        h = I.ctx.ghost.get('isinstance')
        if h:
            r = h(I.ctx, v, t)
            if r is not None:
                return r
        try:
            return issubclass(M.pytype(I, v), t)
        except TypeError:
            raise Unsupported(f'isinstance {t}')
    return isinstance(v, t)


def getattr_model(I, o, name, default):
    if isinstance(o, Hook_types):
        r = o.getattr(I.ctx, name)
        if r is M.NONE:
            return None
        return r if r is not None else default
    if isinstance(o, SObj):
        h = I.ctx.ghost.get('obj_attr')
        if h:
            r = h(I.ctx, o, name)
            if r is not None:
                return r
        raise Unsupported(f'attribute {name} of an opaque object')
    if isinstance(o, ExcV):
        if name == 'args':
            return o.args
        return o.attrs.get(name, default)
    if isinstance(o, MatchV):
        if name == 'string':
            return o.string
        return ModelM(o, name)
    if isinstance(o, IterView):
        return ModelM(o, name)
    if isinstance(o, (SV, PList, PDict, PSet, SSet, SMap, Bag, DictOf_types, IterObj, GenObj)):
        ty = M.pytype(I, o)
        if isinstance(o, M.DictOf):
            ty = dict
        if isinstance(o, (IterObj,)):
            ty = types.GeneratorType
        if name == '__class__':
            return ty
        if hasattr(ty, name):
            return ModelM(o, name)
        return default
    if isinstance(o, Native):
        if name == '__name__':
            return o.name
        return default
    if isinstance(o, Closure):
        if name == '__name__':
            return o.node.name if hasattr(o.node, 'name') else '<lambda>'
        return default
    if isinstance(o, tuple) and not M.is_concrete(o):
        if hasattr(o, '_fields') and name in o._fields:
            return getattr(o, name)
        if hasattr(tuple, name):
            return ModelM(o, name)
        return default
    if isinstance(o, (str, bytes, int, float, tuple, frozenset, dict, set, list)) and not isinstance(o, type):
        if hasattr(o, name):
            a = getattr(o, name)
            if callable(a):
                return ModelM(o, name)
            return a
        return default
    try:
        return getattr(o, name)
    except AttributeError:
        return default


Hook_types = ()
DictOf_types = ()


def _init():
    global Hook_types, DictOf_types
    Hook_types = (M.Hook,)
    DictOf_types = (M.DictOf,)


def call_builtin(I, fn, args, kwargs):
    ctx = I.ctx
    name = getattr(fn, '__name__', None)
    h = BUILTINS.get(fn) if _hashable(fn) else None
    if h is not None:
        r = h(I, *args, **kwargs)
        if r is not NotImplemented:
            return r
    # bound builtin method of a concrete object, e.g. 'x'.join, frozenset.__contains__
    self_ = getattr(fn, '__self__', None)
    if isinstance(fn, (types.BuiltinMethodType, types.MethodWrapperType)) and self_ is not None and not isinstance(self_, types.ModuleType):
        if all(M.is_concrete(a) for a in args):
            return M.native(I, fn, args, kwargs)
        return call_method(I, self_, fn.__name__, args, kwargs)
    if isinstance(fn, types.MethodDescriptorType) and args:
        return call_method(I, args[0], fn.__name__, list(args[1:]), kwargs)
    if hasattr(fn, '__wrapped__') and callable(fn.__wrapped__):
        from .interp import in_repo
        if isinstance(fn.__wrapped__, types.FunctionType) and in_repo(fn.__wrapped__):
            ctx.trust('functools.lru_cache returns what the wrapped function returns')
            try:
                a = [M.concretize(x) for x in args]
                k = {n: M.concretize(x) for n, x in kwargs.items()}
                return M.native(I, fn, a, k)
            except Unsupported:
                return I.call(fn.__wrapped__, args, kwargs)
    if isinstance(fn, functools.partial):
        return I.call(fn.func, list(fn.args) + list(args), {**fn.keywords, **kwargs})
    if callable(fn):
        return M.native(I, fn, args, kwargs)
    I.throw(TypeError, f'object is not callable: {fn!r}')


def _hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


BUILTINS = {}


def bi(*fns):
    def deco(f):
        for x in fns:
            BUILTINS[x] = f
        return f
    return deco


@bi(isinstance)
def _isinstance(I, v, t):
    r = isinstance_(I, v, t)
    return r if isinstance(r, bool) else M.wrapbool(r)


@bi(issubclass)
def _issubclass(I, a, b):
    return issubclass(a, b)


@bi(len)
def _len(I, v):
    return M.length(I, v)


@bi(type)
def _type(I, *a):
    if len(a) != 1:
        raise Unsupported('type(...)')
    return M.pytype(I, a[0])


@bi(bool)
def _bool(I, v=False):
    if isinstance(v, SBool):
        return v
    if isinstance(v, (SInt, SReal)):
        return M.wrapbool(v.t != 0)
    if isinstance(v, SStr):
        return M.wrapbool(v.t != z3.StringVal(''))
    return M.truth(I, v)


@bi(hasattr)
def _hasattr(I, o, n):
    from .interp import UNSET
    return I.getattr_or(o, n, UNSET) is not UNSET


@bi(getattr)
def _getattr(I, o, n, *d):
    if not isinstance(n, str):
        h = I.ctx.ghost.get('getattr_dyn')
        if h:
            return h(I.ctx, o, n, *d)
        raise Unsupported('getattr with a symbolic name')
    if d:
        return I.getattr_or(o, n, d[0])
    return I.getattr(o, n)


@bi(property)
def _property(I, *a, **k):
    return M.PropV(*a, **k)


@bi(setattr)
def _setattr(I, o, n, v):
    if not isinstance(n, str):
        h = I.ctx.ghost.get('setattr_dyn')
        if h:
            return h(I.ctx, o, n, v)
        raise Unsupported('setattr with a symbolic name')
    I.setattr(o, n, v)


@bi(callable)
def _callable(I, o):
    if isinstance(o, (Native, Closure, BoundM, ModelM)):
        return True
    if isinstance(o, (SV, Heapy)):
        return False
    return callable(o)


@bi(id)
def _id(I, o):
    return I.ctx.int('id')


@bi(hex)
def _hex(I, o):
    if isinstance(o, SInt):
        return I.ctx.str('hex')
    return NotImplemented


@bi(repr)
def _repr(I, o):
    if M.is_concrete(o):
        return repr(o)
    return I.ctx.str('repr')


@bi(str)
def _str(I, o='', *a):
    if isinstance(o, SStr) and o.kind == 'str' and not a:
        return o
    if M.is_concrete(o):
        return M.native(I, str, [o] + list(a), {})
    h = I.ctx.ghost.get('str')
    if h:
        return h(I.ctx, o, *a)
    return I.ctx.str('str')


@bi(bytes)
def _bytes(I, o=b'', *a):
    if isinstance(o, SStr) and o.kind == 'bytes' and not a:
        return o
    if M.is_concrete(o):
        return M.native(I, bytes, [o] + list(a), {})
    raise Unsupported('bytes() of a symbolic value')


@bi(int)
def _int(I, o=0, *a):
    if isinstance(o, SInt) and not a:
        return o
    if isinstance(o, SBool):
        return M.wrapnum(M.numterm(o))
    if M.is_concrete(o):
        return M.native(I, int, [o] + list(a), {})
    h = I.ctx.ghost.get('int')
    if h:
        return h(I.ctx, o, *a)
    raise Unsupported('int() of a symbolic value')


@bi(float)
def _float(I, o=0.0):
    if isinstance(o, SReal):
        return o
    if M.is_concrete(o):
        return M.native(I, float, [o], {})
    h = I.ctx.ghost.get('float')
    if h:
        return h(I.ctx, o)
    if isinstance(o, SInt):
        return SReal(z3.ToReal(o.t))
    raise Unsupported('float() of a symbolic value')


@bi(abs)
def _abs(I, x):
    if isinstance(x, (SInt, SReal)):
        return M.wrapnum(z3.If(x.t < 0, -x.t, x.t))
    return NotImplemented


def _minmax(I, args, kwargs, op):
    key = kwargs.get('key')
    if len(args) == 1 and isinstance(args[0], M.Hook) and hasattr(args[0], 'minmax'):
        return args[0].minmax(I.ctx, op, kwargs)
    if len(args) == 1:
        it = M.iterate(I, args[0])
        if not isinstance(it, list):
            h = I.ctx.ghost.get('minmax')
            if h:
                return h(I.ctx, args[0], op)
            raise Unsupported('min/max of a symbolic iterable')
        args = it
        if not args:
            if 'default' in kwargs:
                return kwargs['default']
            I.throw(ValueError, 'empty')
    best = args[0]
    if key is None and all(isinstance(a, (int, SInt)) for a in args):
        t = M.numterm(best)
        for a in args[1:]:
            x = M.numterm(a)
            t = z3.If((x < t) if op == 'min' else (x > t), x, t)
        return M.wrapnum(t)
    for a in args[1:]:
        x, y = (a, best) if key is None else (I.call(key, [a]), I.call(key, [best]))
        if M.truth(I, M.compare(I, 'Lt' if op == 'min' else 'Gt', x, y)):
            best = a
    return best


@bi(min)
def _min(I, *a, **k):
    return _minmax(I, list(a), k, 'min')


@bi(max)
def _max(I, *a, **k):
    return _minmax(I, list(a), k, 'max')


@bi(sum)
def _sum(I, it, start=0):
    l = M.iterate(I, it)
    if not isinstance(l, list):
        raise Unsupported('sum of a symbolic iterable')
    acc = start
    for x in l:
        acc = M.binop(I, 'Add', acc, x)
    return acc


def comp_quantifier(I, comp, want):
    """any (want True) / all (want False) over a symbolic comprehension: either some element has that truth
    value (a witness), or none has, which is instantiated at the indices the contract names"""
    ctx = I.ctx
    n = M.term(comp.n)
    if ctx.choose(2) == 0:
        k = ctx.fresh(IntS, 'witness')
        ctx.assume(z3.And(k >= 0, k < n))
        ctx.ghost.setdefault('witnesses', []).append((comp, k))
        v = comp.probe(ctx, k)
        if not v or M.truth(I, v[0]) is not want:
            raise PathEnd()
        return want
    for k in ctx.ghost.get('instances', lambda ctx, comp: [])(ctx, comp):
        if ctx.branch(z3.And(k >= 0, k < n)):
            v = comp.probe(ctx, k)
            if v and M.truth(I, v[0]) is want:
                raise PathEnd()
    ctx.unprobed.discard(comp)
    return not want


@bi(any)
def _any(I, it):
    if isinstance(it, M.CompList):
        return comp_quantifier(I, it, True)
    for x in M.must_list(I, it):
        if M.truth(I, x):
            return True
    return False


@bi(all)
def _all(I, it):
    if isinstance(it, M.CompList):
        return comp_quantifier(I, it, False)
    for x in M.must_list(I, it):
        if not M.truth(I, x):
            return False
    return True


@bi(range)
def _range(I, *a):
    if len(a) == 1:
        a = (0, a[0], 1)
    elif len(a) == 2:
        a = (a[0], a[1], 1)
    if all(isinstance(x, int) for x in a):
        return M.RangeV(*a)
    return M.RangeV(*a)


@bi(enumerate)
def _enumerate(I, it, start=0):
    v = M.iterate(I, it)
    if isinstance(v, list):
        return tuple((M.binop(I, 'Add', start, i), x) for i, x in enumerate(v))
    if isinstance(v, IterView):
        return IterView(v.n, lambda ctx, k: (M.wrapnum(k + M.term(start)), v.get(ctx, k)))
    raise Unsupported('enumerate')


@bi(zip)
def _zip(I, *its, strict=False):
    vs = [M.iterate(I, x) for x in its]
    if all(isinstance(v, list) for v in vs):
        return tuple(zip(*vs))
    ns = [z3.IntVal(len(v)) if isinstance(v, list) else M.term(v.n) for v in vs]
    n = ns[0]
    for x in ns[1:]:
        n = z3.If(x < n, x, n)

    def get(ctx, k):
        out = []
        for v in vs:
            if isinstance(v, list):
                out.append(M.list_getitem(I, PList(ctx, v), SInt(k)))
            else:
                out.append(v.get(ctx, k))
        return tuple(out)
    return IterView(z3.simplify(n), get)


@bi(reversed)
def _reversed(I, o):
    if isinstance(o, M.RangeV):
        a, b, s = o.a, o.b, o.step
        if s == 1:
            return M.RangeV(M.binop(I, 'Sub', b, 1), M.binop(I, 'Sub', a, 1), -1)
    if isinstance(o, PList) and o.prefix is not None:
        r = PList(I.ctx, o.items, o.prefix)
        M.list_reverse(I, r)
        return r
    v = M.iterate(I, o)
    if isinstance(v, list):
        return tuple(reversed(v))
    n = M.term(v.n)
    return IterView(v.n, lambda ctx, k: v.get(ctx, n - 1 - k))


@bi(sorted)
def _sorted(I, it, key=None, reverse=False):
    if isinstance(it, M.Hook) and hasattr(it, 'to_sorted'):
        return it.to_sorted(I.ctx, key, reverse)
    l = PList(I.ctx)
    M.list_extend(I, l, it)
    call_method(I, l, 'sort', [], {'key': key, 'reverse': reverse})
    return l


@bi(list)
def _list(I, it=()):
    if isinstance(it, M.Hook) and hasattr(it, 'to_list'):
        return it.to_list(I.ctx)
    l = PList(I.ctx)
    if isinstance(it, M.CompList):
        return M.retyped(list, it)
    if isinstance(it, GenObj):
        return I.collect(it)
    if isinstance(it, Bag):
        return bag_method(I, it, 'copy', ())
    M.list_extend(I, l, it)
    return l


@bi(tuple)
def _tuple(I, it=()):
    if isinstance(it, GenObj):
        it = I.collect(it)
    if isinstance(it, M.CompList) and not isinstance(it, M.LoopList) and not it.g.ifs:
        def src(ctx):
            ctx.unprobed.discard(it)
        return M.SeqV(I.ctx, it.n, lambda ctx, k: it.probe(ctx, k)[0], tuple, src)
    if isinstance(it, M.SeqV):
        return M.SeqV(I.ctx, it.n, it.at, tuple, it.src)
    if isinstance(it, Bag):
        return bag_method(I, it, 'copy', ())
    if isinstance(it, M.Hook) and hasattr(it, 'to_tuple'):
        return it.to_tuple(I.ctx)
    if isinstance(it, IterObj):
        it = _list(I, it)
    v = it if isinstance(it, (M.Seqs, M.TupleRep)) else M.iterate(I, it)
    if isinstance(v, list):
        return tuple(v)
    if isinstance(it, PList):
        # an immutable snapshot of an abstract list
        r = M.list_slice(I, it, slice(None, None, None))
        if isinstance(r, PList):
            r.immutable = True
        return r
    return v


@bi(set, frozenset)
def _set(I, it=()):
    if it == ():
        r = I.empty('set')
        if r is not None:
            return r
    if isinstance(it, SSet):
        return SSet(I.ctx, it.arr, it.sort, it.wrap)
    if isinstance(it, SMap):
        return SSet(I.ctx, it.dom, it.sort)
    if isinstance(it, Bag):
        q = z3.Const('x!l', it.sort)
        return SSet(I.ctx, z3.Lambda([q], it.cnt[q] > 0), it.sort, it.wrap)
    if isinstance(it, M.Hook) and hasattr(it, 'to_set'):
        return it.to_set(I)
    if M.built(it) is not None:
        return M.retyped(set, M.built(it))
    return M.make_set(I, M.must_list(I, it))


@bi(dict)
def _dict(I, *a, **k):
    d = PDict(I.ctx)
    if a:
        src = a[0]
        if isinstance(src, M.CompDict) and not k:
            return src
        if isinstance(src, PDict):
            d.d.update(src.d)
        else:
            for kv in M.must_list(I, src):
                x, y = M.must_list(I, kv)
                M.setitem(I, d, x, y)
    d.d.update(k)
    return d


@bi(operator.index)
def _index(I, o):
    if isinstance(o, SBool):
        return I.ctx.interp.call(int, [o])
    if isinstance(o, (int, SInt)):
        return o
    if isinstance(o, (float, SReal, str, bytes, SStr, tuple, PList)) or o is None:
        I.throw(TypeError, 'object cannot be interpreted as an integer')
    raise Unsupported('operator.index')


@bi(iter)
def _iter(I, o):
    if isinstance(o, (IterObj, GenObj)):
        return o
    if isinstance(o, PObj):
        m = I.class_lookup(o.cls, '__iter__')
        if m is not None:
            return I.call(m, [o])
    h = I.ctx.ghost.get('iter')
    if h:
        r = h(I.ctx, o)
        if r is not None:
            return r
    return IterObj(I.ctx, M.iterate(I, o))


@bi(next)
def _next(I, o, *d):
    ctx = I.ctx
    if isinstance(o, GenObj):
        if not hasattr(o, 'io'):
            o.io = IterObj(ctx, M.iterate(I, I.collect(o)))
        o = o.io
    if isinstance(o, PObj):
        m = I.class_lookup(o.cls, '__next__')
        return I.call(m, [o])
    if isinstance(o, M.Hook):
        return o.next(ctx, *d)
    if isinstance(o, SObj):
        h = ctx.ghost.get('next')
        if h:
            return h(ctx, o, *d)
    if not isinstance(o, IterObj):
        raise Unsupported(f'next of {o!r}')
    if isinstance(o.view, list):
        if o.pos < len(o.view):
            ctx.touched(o)
            o.pos += 1
            return o.view[o.pos - 1]
    else:
        p = M.term(o.pos)
        if ctx.branch(p < M.term(o.view.n)):
            ctx.touched(o)
            o.pos = z3.simplify(p + 1)
            return o.view.get(ctx, p)
    if d:
        return d[0]
    I.throw(StopIteration)


@bi(hash)
def _hash(I, o):
    if isinstance(o, SV):
        t = o.t
        return SInt(z3.Function('hash.' + str(t.sort()), t.sort(), IntS)(t))
    if isinstance(o, (tuple,)) and not M.is_concrete(o):
        acc = z3.IntVal(len(o))
        mix = z3.Function('hash.mix', IntS, IntS, IntS)
        for x in o:
            h = _hash(I, x)
            acc = mix(acc, M.term(hash(x) if h is NotImplemented else h))
        return SInt(acc)
    if isinstance(o, M.SeqV):
        # a function of the content: equal sequences have equal hashes
        known = I.ctx.ghost.setdefault('seqhash', [])
        v = I.ctx.int('hash')
        for x, hx in known:
            if x is o or I.ctx.ghost.get('seqdiff', {}).get((id(x), id(o)), (0,))[0] is None:
                I.ctx.assume(v.t == hx.t)
        known.append((o, v))
        return v
    if isinstance(o, (PList, PDict, PSet)):
        I.throw(TypeError, 'unhashable')
    if isinstance(o, PObj):
        m = I.class_lookup(o.cls, '__hash__')
        if isinstance(m, types.FunctionType):
            return I.call(m, [o])
        return I.ctx.int('hash')
    return NotImplemented


@bi(print)
def _print(I, *a, **k):
    return None


@bi(ord)
def _ord(I, c):
    if isinstance(c, SStr):
        return M.wrapnum(z3.StrToCode(c.t))
    return NotImplemented


@bi(chr)
def _chr(I, c):
    if isinstance(c, SInt):
        return SStr(z3.StrFromCode(c.t))
    return NotImplemented


@bi(map)
def _map(I, fn, *its):
    return tuple(I.call(fn, [x]) for x in M.must_list(I, its[0]))


@bi(filter)
def _filter(I, fn, it):
    return tuple(x for x in M.must_list(I, it) if M.truth(I, I.call(fn, [x]) if fn is not None else x))


@bi(itertools.zip_longest)
def _zl(I, *its, fillvalue=None):
    return tuple(itertools.zip_longest(*[M.must_list(I, x) for x in its], fillvalue=fillvalue))


# ---------------------------------------------------------------- methods ---
def call_method(I, o, name, args, kwargs):
    ctx = I.ctx
    if isinstance(o, M.Hook):
        return o.method(ctx, name, args, kwargs)
    if M.is_text(o):
        if isinstance(o, (str, bytes)) and all(M.is_concrete(a) for a in args) and not kwargs:
            return M.native(I, getattr(o, name), args, kwargs)
        m = STR.get(name)
        if m is None:
            raise Unsupported(f'str.{name}')
        return m(I, o, *args, **kwargs)
    if isinstance(o, PList):
        m = LIST.get(name)
        if m is None:
            raise Unsupported(f'list.{name}')
        return m(I, o, *args, **kwargs)
    if isinstance(o, PDict):
        m = DICT.get(name)
        if m is None:
            raise Unsupported(f'dict.{name}')
        return m(I, o, *args, **kwargs)
    if isinstance(o, M.DictOf):
        if name == 'update':
            for a in args:
                for k, v in (a.d if isinstance(a, PDict) else dict(a)).items():
                    ctx.touched(o.o, k)
                    o.o.attrs[k] = v
            return None
        if name == 'items':
            return tuple(o.o.attrs.items())
        raise Unsupported(f'__dict__.{name}')
    if isinstance(o, (PSet, set, frozenset)):
        return set_method(I, o, name, args)
    if isinstance(o, SSet):
        return sset_method(I, o, name, args)
    if isinstance(o, SMap):
        return smap_method(I, o, name, args)
    if isinstance(o, Bag):
        return bag_method(I, o, name, args)
    if isinstance(o, MatchV):
        return match_method(I, o, name, args)
    if isinstance(o, dict):
        if name == 'get':
            v = M.dict_lookup(I, o, args[0])
            if v is M.MISSING:
                return args[1] if len(args) > 1 else None
            return v
        if name in ('items', 'keys', 'values'):
            return tuple(M.abstractize(I, x) for x in getattr(o, name)())
        if name == 'copy':
            return PDict(ctx, {k: M.abstractize(I, v) for k, v in o.items()})
    if isinstance(o, tuple):
        if name == 'index':
            for i, x in enumerate(o):
                if M.truth(I, M.compare(I, 'Eq', x, args[0])):
                    return i
            I.throw(ValueError, 'not in tuple')
        if name == 'count':
            return sum(1 for x in o if M.truth(I, M.compare(I, 'Eq', x, args[0])))
        if name == '__contains__':
            return M.compare(I, 'In', args[0], o)
    if name == '__contains__':
        return M.compare(I, 'In', args[0], o)
    if name == '__eq__':
        return M.compare(I, 'Eq', o, args[0])
    if name == '__iter__':
        return call_builtin(I, iter, [o], {})
    if name == '__next__':
        return _next(I, o)
    if isinstance(o, (SInt, SReal)) and name == 'is_integer':
        return isinstance(o, SInt) or M.wrapbool(z3.IsInt(o.t))
    if isinstance(o, IterView) and name in ('copy',):
        return o
    raise Unsupported(f'method {name} of {o!r}')


def match_method(I, m, name, args):
    ctx = I.ctx
    k = M.kind_of(m.string)
    if name in ('start', 'end', 'span'):
        g = args[0] if args else 0
        if g == 0:
            s, e = m.start, m.end
        else:
            s, e = m.groups[g]
        return s if name == 'start' else e if name == 'end' else (s, e)
    if name == 'group':
        if len(args) > 1:
            return tuple(match_method(I, m, 'group', [a]) for a in args)
        g = args[0] if args else 0
        if g == 0:
            return M.slice_str(I, m.string, slice(m.start, m.end, None))
        if g in m.groups:
            v = m.groups[g]
            return v
        raise Unsupported('regex group')
    if name == 'groups':
        return tuple(m.groups[i] for i in sorted(x for x in m.groups if isinstance(x, int)))
    raise Unsupported(f'match.{name}')


STR = {}
LIST = {}
DICT = {}


def reg(table, *names):
    def deco(f):
        for n in names:
            table[n] = f
        return f
    return deco


def _arg_text(I, s, a):
    if not M.is_text(a) or M.kind_of(a) != M.kind_of(s):
        I.throw(TypeError, 'wrong argument type')
    return M.term(a)


def _affix(I, s, a, fn, rng):
    if rng:
        raise Unsupported('startswith with a range')
    t = M.term(s)
    if isinstance(a, (tuple, IterView)) or isinstance(a, PList):
        its = M.must_list(I, a)
        r = M.disj([M._b(fn(_arg_text(I, s, x), t)) for x in its])
        return r if isinstance(r, bool) else M.wrapbool(r)
    return M.wrapbool(fn(_arg_text(I, s, a), t))


@reg(STR, 'startswith')
def _sw(I, s, a, *r):
    return _affix(I, s, a, z3.PrefixOf, r)


@reg(STR, 'endswith')
def _ew(I, s, a, *r):
    return _affix(I, s, a, z3.SuffixOf, r)


@reg(STR, 'find')
def _find(I, s, a, *r):
    start = M.numterm(r[0]) if r else z3.IntVal(0)
    if len(r) > 1:
        raise Unsupported('find with an end')
    return M.wrapnum(z3.IndexOf(M.term(s), _arg_text(I, s, a), start))


@reg(STR, 'index')
def _index(I, s, a, *r):
    f = _find(I, s, a, *r)
    if I.truth(M.compare(I, 'Lt', f, 0)):
        I.throw(ValueError, 'substring not found')
    return f


@reg(STR, 'rfind')
def _rfind(I, s, a):
    ctx = I.ctx
    r = ctx.int('rfind', -1)
    t, x = M.term(s), _arg_text(I, s, a)
    ctx.assume(z3.If(z3.Contains(t, x),
                     z3.And(r.t >= 0, r.t + z3.Length(x) <= z3.Length(t), z3.SubString(t, r.t, z3.Length(x)) == x,
                            z3.Implies(z3.Length(x) > 0, z3.Not(z3.Contains(z3.SubString(t, r.t + 1, z3.Length(t)), x)))),
                     r.t == -1))
    return r


@reg(STR, '__contains__')
def _cont(I, s, a):
    return M.compare(I, 'In', a, s)


@reg(STR, '__eq__')
def _seq(I, s, a):
    return M.compare(I, 'Eq', a, s)


for _n in CASE:
    def _case(I, s, _n=_n):
        return SStr(CASE[_n](M.term(s)), M.kind_of(s))
    STR[_n] = _case
for _n in PRED:
    def _pred(I, s, _n=_n):
        ctx = I.ctx
        t = M.term(s)
        r = PRED[_n](t)
        if _n not in ('isascii', 'isprintable'):
            ctx.assume(z3.Implies(t == z3.StringVal(''), z3.Not(r)))
        if _n == 'isupper':
            ctx.assume(z3.Not(z3.And(r, PRED['islower'](t))))
            ctx.assume(z3.Not(z3.And(r, PRED['isspace'](t))))
        if _n == 'islower':
            ctx.assume(z3.Not(z3.And(r, PRED['isupper'](t))))
            ctx.assume(z3.Not(z3.And(r, PRED['isspace'](t))))
        return M.wrapbool(r)
    STR[_n] = _pred


ALLWS = z3.Function('str.all_in_strip_set', StringS, StringS, BoolS)   # (charset, text)


def _strip_parts(I, s, chars, left, right):
    """fresh l, m, r with s == l+m+r; l, r made of strip characters; m starts/ends with none"""
    ctx = I.ctx
    t = M.term(s)
    cs = M.term(chars) if chars is not None else z3.StringVal('<ws>')
    l = ctx.fresh(StringS, 'sl') if left else z3.StringVal('')
    r = ctx.fresh(StringS, 'sr') if right else z3.StringVal('')
    m = ctx.fresh(StringS, 'sm')
    ctx.assume(t == M.cat([x for x in (l, m, r) if not z3.is_string_value(x)]))
    n = z3.Length(m)

    def isin(c):
        if chars is None:
            return PRED['isspace'](c)
        return z3.Contains(cs, c)
    e = z3.StringVal('')
    if left:
        ctx.assume(z3.Or(l == e, ALLWS(cs, l)))
        ctx.assume(z3.Or(m == e, z3.Not(isin(z3.SubString(m, 0, 1)))))
    if right:
        ctx.assume(z3.Or(r == e, ALLWS(cs, r)))
        ctx.assume(z3.Or(m == e, z3.Not(isin(z3.SubString(m, n - 1, 1)))))
    if left and right:
        ctx.assume(z3.Implies(m == e, r == e))
    h = ctx.ghost.get('strip')
    if h:
        h(ctx, s, chars, l, m, r)
    return SStr(m, M.kind_of(s))


@reg(STR, 'strip')
def _strip(I, s, chars=None):
    return _strip_parts(I, s, chars, True, True)


@reg(STR, 'lstrip')
def _lstrip(I, s, chars=None):
    return _strip_parts(I, s, chars, True, False)


@reg(STR, 'rstrip')
def _rstrip(I, s, chars=None):
    return _strip_parts(I, s, chars, False, True)


@reg(STR, 'join')
def _join(I, sep, it):
    ctx = I.ctx
    kind = M.kind_of(sep)
    if isinstance(it, GenObj):
        it = I.collect(it)
    v = it if isinstance(it, (M.Seqs, M.TupleRep)) else M.iterate(I, it)
    if isinstance(v, list):
        for x in v:
            if not M.is_text(x) or M.kind_of(x) != kind:
                I.throw(TypeError, 'join: wrong item type')
        out = []
        for i, x in enumerate(v):
            if i:
                out.append(sep)
            out.append(x)
        return M.concat(I, out, kind)
    if sep in ('', b'') and not isinstance(sep, SV):
        if isinstance(it, (PList, IterView, M.Seqs)) and 'joined' in ctx.folds:
            return M.wrapstr(M.fold_of(I, it, 'joined'), kind)
    h = ctx.ghost.get('join')
    if h:
        r = h(ctx, sep, it)
        if r is not None:
            return r
    return ctx.str('join', kind)


@reg(STR, 'replace')
def _replace(I, s, a, b, *n):
    if n:
        raise Unsupported('replace with count')
    if isinstance(s, (str, bytes)) and isinstance(a, (str, bytes)) and a:
        parts = []
        for k, piece in enumerate(s.split(a)):
            if k:
                parts.append(b)
            parts.append(piece)
        return M.concat(I, parts, M.kind_of(s))
    return SStr(z3.Function('str.replaceall', StringS, StringS, StringS, StringS)(M.term(s), M.term(a), M.term(b)), M.kind_of(s))


@reg(STR, 'count')
def _count(I, s, a):
    return I.ctx.int('count', 0)


@reg(STR, 'partition')
def _partition(I, s, sep):
    ctx = I.ctx
    t, x = M.term(s), _arg_text(I, s, sep)
    k = M.kind_of(s)
    e = b'' if k == 'bytes' else ''
    if ctx.branch(z3.Contains(t, x)):
        i = z3.IndexOf(t, x, z3.IntVal(0))
        a, b = ctx.fresh(StringS, 'pa'), ctx.fresh(StringS, 'pb')
        ctx.assume(t == z3.Concat(a, x, b))
        ctx.assume(z3.Length(a) == i)
        return (SStr(a, k), sep, SStr(b, k))
    return (s, e, e)


@reg(STR, 'rpartition')
def _rpartition(I, s, sep):
    ctx = I.ctx
    t, x = M.term(s), _arg_text(I, s, sep)
    k = M.kind_of(s)
    e = b'' if k == 'bytes' else ''
    if ctx.branch(z3.Contains(t, x)):
        a, b = ctx.fresh(StringS, 'pa'), ctx.fresh(StringS, 'pb')
        ctx.assume(t == z3.Concat(a, x, b))
        ctx.assume(z3.Not(z3.Contains(b, x)))
        return (SStr(a, k), sep, SStr(b, k))
    return (e, e, s)


@reg(STR, 'splitlines')
def _splitlines(I, s, keepends=False):
    ctx = I.ctx
    h = ctx.ghost.get('splitlines')
    if h:
        return h(ctx, s, keepends)
    l = M.fresh_list(I, frozenset([(M.kind_of(s),)]))
    ctx.assume((l.prefix.length == 0) == (M.term(s) == z3.StringVal('')))
    if keepends is True and 'joined' in ctx.folds:
        ctx.assume(l.prefix.folds['joined'] == M.term(s))
    return l


@reg(STR, 'split', 'rsplit')
def _split(I, s, *a, **k):
    h = I.ctx.ghost.get('split')
    if h:
        return h(I.ctx, s, *a, **k)
    raise Unsupported('str.split')


@reg(STR, 'expandtabs')
def _expandtabs(I, s, n=8):
    ctx = I.ctx
    f = z3.Function('str.expandtabs', StringS, IntS, StringS)
    r = f(M.term(s), M.numterm(n))
    ctx.assume(z3.Implies(z3.Not(z3.Contains(M.term(s), z3.StringVal('\t'))), r == M.term(s)))
    return SStr(r, M.kind_of(s))


@reg(STR, 'ljust', 'rjust', 'center')
def _just(I, s, n, *a):
    ctx = I.ctx
    r = ctx.str('just', M.kind_of(s))
    L = z3.Length(M.term(s))
    ctx.assume(z3.Length(r.t) == z3.If(L > M.numterm(n), L, M.numterm(n)))
    return r


@reg(STR, 'ljust')
def _ljust(I, s, n, *a):
    ctx = I.ctx
    L = z3.Length(M.term(s))
    N = M.numterm(n)
    c = a[0] if a else ' '
    # s + c * (n - len(s)): the repetition is the function that the operator * is modelled by
    room = z3.simplify(N - L)
    pad = M.term(M.repeat(I, c, SInt(room))) if not z3.is_int_value(room) else M.term(M.repeat(I, c, room.as_long()))
    return SStr(z3.Concat(M.term(s), pad), M.kind_of(s))


@reg(STR, 'format')
def _format(I, s, *a, **k):
    return I.ctx.str('format')


ENC = z3.Function('str.encode', StringS, StringS, StringS)
DEC = z3.Function('bytes.decode', StringS, StringS, StringS)


@reg(STR, 'encode')
def _encode(I, s, enc='utf-8', *a):
    h = I.ctx.ghost.get('encode')
    if h:
        return h(I.ctx, s, enc, *a)
    return SStr(ENC(M.term(s), M.term(enc)), 'bytes')


@reg(STR, 'decode')
def _decode(I, s, enc='utf-8', *a):
    h = I.ctx.ghost.get('decode')
    if h:
        return h(I.ctx, s, enc, *a)
    return SStr(DEC(M.term(s), M.term(enc)), 'str')


@reg(STR, 'translate')
def _translate(I, s, table):
    h = I.ctx.ghost.get('translate')
    if h:
        return h(I.ctx, s, table)
    raise Unsupported('str.translate')


# lists
@reg(LIST, 'append')
def _append(I, l, v):
    M.list_append(I, l, v)


@reg(LIST, 'extend')
def _extend(I, l, v):
    M.list_extend(I, l, v)


@reg(LIST, 'clear')
def _clear(I, l):
    I.ctx.touched(l)
    l.items, l.prefix = [], None


@reg(LIST, 'copy')
def _copy(I, l):
    return PList(I.ctx, l.items, l.prefix)


@reg(LIST, 'reverse')
def _reverse(I, l):
    M.list_reverse(I, l)


@reg(LIST, 'pop')
def _pop(I, l, i=-1):
    ctx = I.ctx
    ctx.touched(l)
    if l.prefix is None:
        if isinstance(i, int):
            try:
                return l.items.pop(i)
            except IndexError as e:
                I.throw(IndexError, *e.args)
        raise Unsupported('pop at a symbolic index')
    if i == -1:
        if l.items:
            return l.items.pop()
        if not ctx.branch(l.prefix.length > 0):
            I.throw(IndexError, 'pop from empty list')
        return M.split_last(I, l)
    if i == 0:
        if not ctx.branch(l.prefix.length > 0):
            if l.items:
                return l.items.pop(0)
            I.throw(IndexError, 'pop from empty list')
        return M.split_first(I, l)
    raise Unsupported('pop from the middle')


@reg(LIST, 'insert')
def _insert(I, l, i, v):
    ctx = I.ctx
    ctx.touched(l)
    if l.prefix is None and isinstance(i, int):
        l.items.insert(i, v)
        return
    if i == 0:
        a = l.prefix
        new = PList(ctx, [v])
        l.prefix = M.append_abs(I, new, PList(ctx, (), a))
        return
    raise Unsupported('list.insert')


@reg(LIST, 'sort')
def _sort(I, l, key=None, reverse=False):
    ctx = I.ctx
    h = ctx.ghost.get('sort')
    if h:
        r = h(ctx, l, key, reverse)
        if r is not NotImplemented:
            return r
    if l.prefix is None:
        if all(M.is_concrete(x) for x in l.items):
            ctx.touched(l)
            try:
                if key is None:
                    l.items.sort(reverse=bool(reverse))
                else:
                    ks = [(M.concretize(I.call(key, [x])), x) for x in l.items]
                    l.items = [x for _, x in sorted(ks, key=lambda p: p[0], reverse=bool(reverse))]
            except TypeError as e:
                I.throw(TypeError, *e.args)
            return None
        if len(l.items) <= 5:
            # insertion sort on symbolic keys
            ctx.touched(l)
            kf = (lambda x: I.call(key, [x])) if key is not None else (lambda x: x)
            out = []
            for x in l.items:
                j = len(out)
                while j > 0:
                    a, b = (kf(x), kf(out[j - 1]))
                    lt = M.compare(I, 'Lt' if not reverse else 'Gt', a, b)
                    if not M.truth(I, lt):
                        break
                    j -= 1
                out.insert(j, x)
            l.items = out
            return None
    raise Unsupported('sort of an abstract list')


@reg(LIST, 'index')
def _lindex(I, l, v):
    ctx = I.ctx
    if l.prefix is None:
        for i, x in enumerate(l.items):
            if M.truth(I, M.compare(I, 'Eq', x, v)):
                return i
        I.throw(ValueError, 'not in list')
    s = M.seq_term(I, l)
    u = z3.Unit(M.term(v))
    if not ctx.branch(z3.Contains(s, u)):
        I.throw(ValueError, 'not in list')
    return M.wrapnum(z3.IndexOf(s, u, z3.IntVal(0)))


@reg(LIST, 'remove')
def _lremove(I, l, v):
    ctx = I.ctx
    if l.prefix is None:
        for i, x in enumerate(l.items):
            if M.truth(I, M.compare(I, 'Eq', x, v)):
                ctx.touched(l)
                del l.items[i]
                return
        I.throw(ValueError, 'not in list')
    raise Unsupported('remove from abstract list')


@reg(LIST, '__contains__')
def _lcont(I, l, v):
    return M.compare(I, 'In', v, l)


@reg(LIST, 'count')
def _lcount(I, l, v):
    return I.ctx.int('count', 0)


@reg(LIST, '__iter__')
def _liter(I, l):
    return IterObj(I.ctx, M.iterate(I, l))


# dicts
@reg(DICT, 'get')
def _dget(I, d, k, default=None):
    v = M.dict_lookup(I, d.d, k)
    return default if v is M.MISSING else v


@reg(DICT, 'items')
def _ditems(I, d):
    return tuple((k, v) for k, v in d.d.items())


@reg(DICT, 'keys')
def _dkeys(I, d):
    return tuple(d.d)


@reg(DICT, 'values')
def _dvalues(I, d):
    return tuple(d.d.values())


@reg(DICT, 'copy')
def _dcopy(I, d):
    return PDict(I.ctx, d.d)


@reg(DICT, 'clear')
def _dclear(I, d):
    I.ctx.touched(d)
    d.d = {}


@reg(DICT, 'update')
def _dupdate(I, d, *a, **k):
    I.ctx.touched(d)
    for src in a:
        if isinstance(src, PDict):
            d.d.update(src.d)
        elif isinstance(src, dict):
            d.d.update({x: M.abstractize(I, y) for x, y in src.items()})
        else:
            for kv in M.must_list(I, src):
                x, y = M.must_list(I, kv)
                M.setitem(I, d, x, y)
    d.d.update(k)


@reg(DICT, 'pop')
def _dpop(I, d, k, *default):
    if M.is_concrete(k) and all(M.is_concrete(x) for x in d.d):
        if k in d.d:
            I.ctx.touched(d)
            return d.d.pop(k)
        if default:
            return default[0]
        I.throw(KeyError, k)
    raise Unsupported('dict.pop symbolic')


@reg(DICT, 'setdefault')
def _dsetdefault(I, d, k, v=None):
    r = M.dict_lookup(I, d.d, k)
    if r is M.MISSING:
        M.setitem(I, d, k, v)
        return v
    return r


@reg(DICT, '__contains__')
def _dcont(I, d, k):
    return M.compare(I, 'In', k, d)


def set_method(I, o, name, args):
    s = o.s if isinstance(o, PSet) else o
    ctx = I.ctx
    if name == '__contains__':
        return M.compare(I, 'In', args[0], o)
    if isinstance(o, PSet) and name in ('add', 'discard', 'remove', 'update', 'union', 'intersection', 'difference', 'issubset', 'issuperset', 'isdisjoint', 'symmetric_difference') \
            and any(M.is_text(x) and not M.is_concrete(x) for a in args for x in ([a] if name in ('add', 'discard', 'remove') else M.must_list(I, a))):
        M.become_textset(I, o)
        return o.method(ctx, name, args, {})
    if name in ('add', 'discard', 'remove'):
        if not M.is_concrete(args[0]):
            raise Unsupported('concrete set with a symbolic element')
        ctx.touched(o)
        if name == 'remove' and args[0] not in s:
            I.throw(KeyError, args[0])
        getattr(s, name)(args[0])
        return None
    if name == 'copy':
        return PSet(ctx, s)
    if name == 'clear':
        ctx.touched(o)
        o.s = set()
        return None
    if name == 'update':
        ctx.touched(o)
        for a in args:
            for x in M.must_list(I, a):
                if not M.is_concrete(x):
                    raise Unsupported('concrete set with a symbolic element')
                s.add(x)
        return None
    if name in ('union', 'intersection', 'difference', 'issubset', 'issuperset', 'isdisjoint', 'symmetric_difference'):
        aa = [set(M.concretize(x) for x in M.must_list(I, a)) for a in args]
        r = getattr(set(s), name)(*aa)
        return PSet(ctx, r) if isinstance(r, set) else r
    if name == 'pop':
        ctx.touched(o)
        if not s:
            I.throw(KeyError)
        x = sorted(s, key=repr)[0]
        s.discard(x)
        return x
    raise Unsupported(f'set.{name}')


def sset_method(I, o, name, args):
    ctx = I.ctx
    if name == 'add':
        ctx.touched(o)
        o.arr = z3.Store(o.arr, M.term(args[0]), True)
        return None
    if name == 'discard':
        ctx.touched(o)
        o.arr = z3.Store(o.arr, M.term(args[0]), False)
        return None
    if name == 'remove':
        k = M.term(args[0])
        if not ctx.branch(z3.Select(o.arr, k)):
            I.throw(KeyError, args[0])
        ctx.touched(o)
        o.arr = z3.Store(o.arr, k, False)
        return None
    if name == 'copy':
        return SSet(ctx, o.arr, o.sort, o.wrap)
    if name == 'clear':
        ctx.touched(o)
        o.arr = z3.K(o.sort, z3.BoolVal(False))
        return None
    if name == '__contains__':
        return M.compare(I, 'In', args[0], o)
    if name in ('update', 'difference_update', 'intersection_update', 'union', 'difference', 'intersection'):
        a = args[0]
        if isinstance(a, Bag):
            q = z3.Const('x!l', o.sort)
            a = SSet(ctx, z3.Lambda([q], a.cnt[q] > 0), o.sort)
        op = {'u': 'BitOr', 'd': 'Sub', 'i': 'BitAnd'}[name[0]]
        r = M.setop(I, op, o, a)
        if name.endswith('update'):
            ctx.touched(o)
            o.arr = r.arr
            return None
        return r
    raise Unsupported(f'set.{name}')


def smap_method(I, o, name, args):
    ctx = I.ctx
    if name == 'get':
        k = M.term(args[0])
        if ctx.branch(z3.Select(o.dom, k)):
            return o.wrap(ctx, z3.Select(o.val, k), o, k)
        return args[1] if len(args) > 1 else None
    if name == 'pop':
        k = M.term(args[0])
        if ctx.branch(z3.Select(o.dom, k)):
            v = o.wrap(ctx, z3.Select(o.val, k), o, k)
            ctx.touched(o)
            o.dom = z3.Store(o.dom, k, False)
            return v
        if len(args) > 1:
            return args[1]
        I.throw(KeyError, args[0])
    if name == 'clear':
        ctx.touched(o)
        o.dom = z3.K(o.sort, z3.BoolVal(False))
        return None
    if name == 'copy':
        return SMap(ctx, o.dom, o.val, o.wrap, o.unwrap, o.sort, o.default)
    if name == 'update':
        a = args[0]
        if isinstance(a, SMap):
            ctx.touched(o)
            q = z3.Const('x!l', o.sort)
            nd = z3.Lambda([q], z3.Or(o.dom[q], a.dom[q]))
            nv = z3.Lambda([q], z3.If(a.dom[q], a.val[q], o.val[q]))
            o.dom, o.val = nd, nv
            return None
    if name == '__contains__':
        return M.compare(I, 'In', args[0], o)
    if name == 'keys':
        return SSet(ctx, o.dom, o.sort)
    if name in ('items', 'values'):
        v = M.set_view(I, o.dom, o.sort, SObj, lambda ctx, x: o.wrap(ctx, z3.Select(o.val, x), o, x))
        v.source = o
        if name == 'values':
            g = v.get
            v.get = lambda ctx, k: g(ctx, k)[1]
        return v
    raise Unsupported(f'dict.{name}')


def bag_method(I, o, name, args):
    ctx = I.ctx
    if name == 'append':
        ctx.touched(o)
        k = M.term(args[0])
        o.cnt = z3.Store(o.cnt, k, z3.Select(o.cnt, k) + 1)
        return None
    if name == 'remove':
        k = M.term(args[0])
        if not ctx.branch(z3.Select(o.cnt, k) > 0):
            I.throw(ValueError, 'not in list')
        ctx.touched(o)
        o.cnt = z3.Store(o.cnt, k, z3.Select(o.cnt, k) - 1)
        return None
    if name == 'clear':
        ctx.touched(o)
        o.cnt = z3.K(o.sort, z3.IntVal(0))
        return None
    if name == 'copy':
        r = Bag(ctx, o.cnt, o.sort, o.wrap)
        r.distinct = o.distinct
        return r
    if name == 'extend':
        a = args[0]
        if isinstance(a, Bag):
            ctx.touched(o)
            q = z3.Const('x!l', o.sort)
            o.cnt = z3.Lambda([q], o.cnt[q] + a.cnt[q])
            return None
    raise Unsupported(f'list.{name} on a bag')
