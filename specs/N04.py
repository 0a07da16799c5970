"""Re-encoding: structural recursion.  The recursive calls are checked against the contract of the function itself."""
import z3
from pydv.framework import proof
from pydv.ctx import Unsupported
from pydv.values import *
from pydv import models as M
from pydv.models import Hook
from pydv.interp import PyExc
import big.text as T

NOTE = 'one step of the structural recursion for str, bytes, list, tuple, set, dict and their subclasses, of any size; nested elements through the contract'
ASSUMPTIONS = ['str.encode(encoding) followed by decode(encoding) is the identity where encode succeeds (the codec)',
               'a subclass of list, tuple, set or dict can be constructed from an iterable like its base class',
               'induction over the nesting depth of the (finite) collection']

ELEM = z3.Function('element', IntS, Obj)
KEY = z3.Function('key', IntS, Obj)
RENC = z3.Function('encoded', Obj, StringS, Obj)
BAD = z3.Function('not encodable', Obj, BoolS)


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class MySet(set):
    pass


class MyDict(dict):
    pass


class Coll(Hook):
    """an arbitrary collection; nothing may modify it"""

    def __init__(self, ctx, ty):
        self.serial = ctx.next_serial()
        self.pytype = ty
        self.n = ctx.int('n', 0).t
        self.methods = ('items', 'keys', 'values') if issubclass(ty, dict) else ()

    def elem(self, k):
        return (SObj(KEY(k)), SObj(ELEM(k))) if issubclass(self.pytype, dict) else SObj(ELEM(k))

    def iterate(self, ctx):
        return IterView(self.n, lambda ctx, k: SObj(KEY(k)) if issubclass(self.pytype, dict) else SObj(ELEM(k)))

    def m_items(self, ctx):
        return IterView(self.n, lambda ctx, k: self.elem(k))

    def m_keys(self, ctx):
        return self.iterate(ctx)

    def m_values(self, ctx):
        return IterView(self.n, lambda ctx, k: SObj(ELEM(k)))

    def getitem(self, ctx, i):
        if issubclass(self.pytype, dict) and isinstance(i, SObj) and z3.is_app(i.t) and i.t.decl().eq(KEY):
            return SObj(ELEM(i.t.arg(0)))
        raise Unsupported('indexing the collection')

    def length(self, ctx):
        return SInt(self.n)

    def truth(self, ctx):
        return ctx.branch(self.n > 0)


class Built(Hook):
    """the value of Sub(collection) for a subclass Sub of a builtin collection"""

    def __init__(self, ty, content):
        self.pytype, self.content = ty, content


def world(ctx, I, o, enc):
    def contract(ctx, x, encoding='ascii'):
        if x is o:
            return NotImplemented
        ctx.prove('nested elements are encoded with the same encoding', encoding is enc)
        if not isinstance(x, SObj):
            raise Unsupported('recursion on something that is not an element')
        if ctx.branch(BAD(x.t)):
            raise PyExc(ExcV(TypeError))
        return SObj(RENC(x.t, M.term(enc)))

    def guard(q):
        fn = getattr(T, q)

        def c(ctx, *a, **k):
            r = contract(ctx, *a, **k)
            return I.call_function(fn, list(a), k, skip_contract=True) if r is NotImplemented else r
        return c
    for q in ('_recursive_encode_strings', 'encode_strings'):
        if hasattr(T, q):
            ctx.contracts['text.' + q] = guard(q)
    for ty, base in ((MyList, list), (MyTuple, tuple), (MySet, set), (MyDict, dict)):
        def make(ctx, it=(), ty=ty, base=base):
            return Built(ty, I.call(base, [it]))
        ctx.overrides[ty] = make


@proof('encode_strings', ['text.encode_strings', 'text._recursive_encode_strings'])
def encode_strings(ctx, I):
    tys = [list, tuple, set, dict, MyList, MyTuple, MySet, MyDict]
    j = ctx.choose(len(tys) + 3)
    default = ctx.choose(2) == 0
    enc = 'ascii' if default else ctx.str('encoding')
    if j < len(tys):
        o = Coll(ctx, tys[j])
    else:
        o = [ctx.str('text'), ctx.str('data', 'bytes'), None][j - len(tys)]
    other = None
    if o is None:
        other = [ctx.int('number'), ctx.obj('object', float), None, (1.5, 2)[0], object][ctx.choose(5)]
        o = other
    world(ctx, I, o, enc)
    k, r = I.outcome(lambda: I.call(T.encode_strings, [o] + ([] if default else [enc])))
    if j == len(tys):
        ctx.prove('a string is encoded in the given encoding', k == 'return' and isinstance(r, SStr) and r.kind == 'bytes')
        from pydv.builtins_model import ENC
        ctx.prove('a string is encoded in the given encoding', r.t == ENC(o.t, M.term(enc)))
        return
    if j == len(tys) + 1:
        ctx.prove('bytes are kept', k == 'return' and isinstance(r, SStr) and r.kind == 'bytes')
        ctx.prove('bytes are kept', r.t == o.t)
        return
    if j > len(tys):
        ctx.prove('other objects raise TypeError', k == 'raise' and r.cls is TypeError)
        return
    if k == 'raise':
        raise_ok = r.cls is TypeError
        ctx.prove('a collection raises only TypeError, for an element that cannot be encoded', raise_ok)
        ctx.prove('a collection raises only for an element', ctx.ghost.get('witness') is not None)
        return
    ty = o.pytype
    ctx.prove('the result is of the same kind', M.pytype(I, r) is ty)
    if isinstance(r, Built):
        r = r.content
    b = M.built(r) or (r if isinstance(r, M.SeqV) else None)
    if b is None:
        raise Unsupported('result not described')
    ctx.prove('every element is encoded', M.term(b.n) == o.n)
    i = ctx.fresh(IntS, 'i')
    ctx.assume(z3.And(i >= 0, i < o.n))
    if isinstance(b, M.SeqV) and b.src:
        b.src(ctx)
    k, got = I.outcome(lambda: b.probe(ctx, i))
    e = o.elem(i)
    parts = list(e) if isinstance(e, tuple) else [e]
    if k == 'raise':
        ctx.prove('an element raises only when it is not encodable', got.cls is TypeError)
        ctx.prove('an element raises only when it is not encodable', z3.Or(*[BAD(x.t) for x in parts]))
        return
    ctx.prove('one element for each', len(got) == 1)
    for x in parts:
        ctx.prove('an element that is not encodable is not passed over', z3.Not(BAD(x.t)))
    v = got[0] if isinstance(got[0], tuple) else (got[0],)
    ctx.prove('one element for each', len(v) == len(parts))
    for x, y in zip(parts, v):
        ctx.prove('each element is encoded, in order', isinstance(y, SObj))
        ctx.prove('each element is encoded, in order', y.t == RENC(x.t, M.term(enc)))
    ctx.cover(ty.__name__)
