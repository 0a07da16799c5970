"""Heap mutators against the multiset view: content(queue), queue satisfies the heap invariant."""
import z3
from pydv.framework import proof
from pydv.values import *
from specs.heaplib import *
from big.heap import Heap

ASSUMPTIONS = ['an iterable passed to the constructor is false only when it is None or has no values']


def pre(ctx, I):
    install(ctx)
    q = HList(ctx, ctx.fresh(CntS, 'content'))
    ver = ctx.int('version', lo=0)
    h = PObj(ctx, Heap, dict(_queue=q, _version=ver))
    return h, q, q.cnt, ver


def content(h):
    q = h.attrs['_queue']
    return q.cnt


def same(a, b):
    return z3.ForAll([x], z3.Select(a, x) == z3.Select(b, x), patterns=[z3.Select(a, x)])


def post(ctx, nm, h, ver, want, total):
    q = h.attrs['_queue']
    if not isinstance(q, HList):
        raise Unsupported('the content is no longer kept in one list')
    ctx.prove(nm + ': the queue satisfies the heap invariant', bool(q.heap))
    ctx.prove(nm + ': content', same(q.cnt, want))
    ctx.prove(nm + ': number of values', TOT(q.cnt) == total)
    if ver is not None:
        ctx.prove(nm + ': a mutation is visible to running iterators', term(h.attrs['_version']) > ver.t)


def unchanged(ctx, nm, h, q, c, ver):
    ctx.prove(nm + ': nothing changes', same(content(h), c))
    ctx.prove(nm + ': the heap invariant still holds', bool(h.attrs['_queue'].heap))


@proof('append', ['heap.Heap.append'])
def append(ctx, I):
    h, q, c, ver = pre(ctx, I)
    o = ctx.obj('o')
    I.call(I.getattr(h, 'append'), [o])
    post(ctx, 'append', h, ver, add(c, o.t), TOT(c) + 1)


@proof('clear', ['heap.Heap.clear'])
def clear(ctx, I):
    h, q, c, ver = pre(ctx, I)
    I.call(I.getattr(h, 'clear'), [])
    post(ctx, 'clear', h, ver, EMPTY, 0)


@proof('copy', ['heap.Heap.copy', 'heap.Heap.__init__'])
def copy(ctx, I):
    h, q, c, ver = pre(ctx, I)
    g = I.call(I.getattr(h, 'copy'), [])
    ctx.prove('copy: is a heap', isinstance(g, PObj) and g.cls is Heap)
    post(ctx, 'copy: the copy', g, None, c, TOT(c))
    ctx.prove('copy: the original keeps its content', same(content(h), c))
    # independence: change one, look at the other
    o = ctx.obj('o')
    a, b, nm = (h, g, 'original') if ctx.choose(2) else (g, h, 'copy')
    k = ctx.choose(3)
    op = ['append', 'clear', 'popleft'][k]
    I.outcome(lambda: I.call(I.getattr(a, op), [o] if k == 0 else []))
    ctx.prove(f'copy: changing the {nm} leaves the other alone', same(content(b), c))


@proof('extend', ['heap.Heap.extend'])
def extend(ctx, I):
    h, q, c, ver = pre(ctx, I)
    it = Values(ctx)
    was = it.cnt
    I.call(I.getattr(h, 'extend'), [it])
    d = ctx.fresh(CntS, 'want')
    ctx.assume(z3.ForAll([x], z3.Select(d, x) == z3.Select(c, x) + z3.Select(was, x), patterns=[z3.Select(d, x)]))
    post(ctx, 'extend', h, ver, d, TOT(c) + TOT(was))


@proof('extend by a few', ['heap.Heap.extend'])
def extend_self(ctx, I):
    h, q, c, ver = pre(ctx, I)
    o, p = ctx.obj('o'), ctx.obj('p')
    l = PList(ctx, [o, p])
    I.call(I.getattr(h, 'extend'), [l])
    post(ctx, 'extend by two values', h, ver, add(add(c, o.t), p.t), TOT(c) + 2)
    ctx.prove('extend: the argument keeps its values', len(l.items) == 2 and l.items[0] is o and l.items[1] is p)


@proof('remove', ['heap.Heap.remove'])
def remove(ctx, I):
    h, q, c, ver = pre(ctx, I)
    o = ctx.obj('o')
    kind, r = I.outcome(lambda: I.call(I.getattr(h, 'remove'), [o]))
    if kind == 'return':
        ctx.cover('remove succeeds')
        ctx.prove('remove: succeeds only for a value in the heap', z3.Select(c, o.t) > 0)
        post(ctx, 'remove', h, ver, add(c, o.t, -1), TOT(c) - 1)
    else:
        ctx.prove('remove: fails with ValueError only for an absent value', z3.And(z3.BoolVal(r.cls is ValueError), z3.Select(c, o.t) <= 0))
        unchanged(ctx, 'failed remove', h, q, c, ver)


def popping(ctx, nm, h, c, kind, r):
    if kind == 'raise':
        ctx.prove(nm + ': IndexError only when empty', z3.And(z3.BoolVal(r.cls is IndexError), TOT(c) == 0))
        return False
    ctx.cover(nm + ' returns')
    return True


@proof('popleft', ['heap.Heap.popleft'])
def popleft(ctx, I):
    h, q, c, ver = pre(ctx, I)
    kind, r = I.outcome(lambda: I.call(I.getattr(h, 'popleft'), []))
    if not popping(ctx, 'popleft', h, c, kind, r):
        return unchanged(ctx, 'failed popleft', h, q, c, ver)
    ctx.prove('popleft: returns a smallest value', minimal(c, r.t))
    post(ctx, 'popleft', h, ver, add(c, r.t, -1), TOT(c) - 1)


@proof('append_and_popleft', ['heap.Heap.append_and_popleft'])
def aap(ctx, I):
    h, q, c, ver = pre(ctx, I)
    o = ctx.obj('o')
    r = I.call(I.getattr(h, 'append_and_popleft'), [o])
    c2 = add(c, o.t)
    ctx.prove('append_and_popleft: returns a smallest value after adding', minimal(c2, r.t))
    post(ctx, 'append_and_popleft', h, ver, add(c2, r.t, -1), TOT(c))


@proof('popleft_and_append', ['heap.Heap.popleft_and_append'])
def paa(ctx, I):
    h, q, c, ver = pre(ctx, I)
    o = ctx.obj('o')
    kind, r = I.outcome(lambda: I.call(I.getattr(h, 'popleft_and_append'), [o]))
    if not popping(ctx, 'popleft_and_append', h, c, kind, r):
        return unchanged(ctx, 'failed popleft_and_append', h, q, c, ver)
    ctx.prove('popleft_and_append: returns a smallest value of before', minimal(c, r.t))
    post(ctx, 'popleft_and_append', h, ver, add(add(c, r.t, -1), o.t), TOT(c))


@proof('__init__', ['heap.Heap.__init__'])
def init(ctx, I):
    install(ctx)
    ctx.assume(TOT(EMPTY) == 0)
    if ctx.choose(2):
        it = Values(ctx)
        c = it.cnt
        h = I.call(Heap, [it])
    else:
        c = EMPTY
        h = I.call(Heap, [None] if ctx.choose(2) else [])
    q = h.attrs['_queue']
    if isinstance(q, PList) and q.prefix is None and not q.items:
        ctx.prove('__init__: no values given, none kept', TOT(c) == 0)
        return
    post(ctx, '__init__', h, None, c, TOT(c))
