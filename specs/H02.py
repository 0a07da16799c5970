"""Heap views against SORTED(content): the ascending list of the content."""
import z3
from pydv.framework import proof
from pydv.values import *
from pydv.models import truth, compare, contains
from specs.heaplib import *
from specs.H01 import pre, same, content
from big.heap import Heap

ASSUMPTIONS = ['the content sorts the same way whatever its arrangement (values equal in order are interchangeable)']


def seq_of(ctx, v):
    if isinstance(v, SeqL):
        if v.rev:
            raise Unsupported('descending list returned')
        return v.t
    if isinstance(v, HList) and v.heap == 'sorted':
        return sorted_facts(ctx, v.cnt)
    return None


def frame(ctx, nm, h, c, ver):
    ctx.prove(nm + ': the content is not changed', same(content(h), c))
    ctx.prove(nm + ': the queue still satisfies the heap invariant', bool(h.attrs['_queue'].heap))


@proof('index', ['heap.Heap.__getitem__'], budget=100)
def index(ctx, I):
    h, q, c, ver = pre(ctx, I)
    s = sorted_facts(ctx, c)
    i = ctx.int('i')
    kind, r = I.outcome(lambda: M.getitem(I, h, i))
    n = TOT(c)
    if kind == 'raise':
        ctx.prove('index: IndexError exactly out of range', z3.And(z3.BoolVal(r.cls is IndexError), z3.Or(i.t < -n, i.t >= n)))
    else:
        ctx.prove('index: in range', z3.And(i.t >= -n, i.t < n))
        ctx.prove('index: the value at that position of the sorted content',
                  RANK(r.t) == RANK(s[z3.If(i.t < 0, i.t + n, i.t)]))
    frame(ctx, 'index', h, c, ver)


@proof('bool index and other types', ['heap.Heap.__getitem__'])
def other(ctx, I):
    h, q, c, ver = pre(ctx, I)
    v = [None, 'a', 1.5, (0,), ctx.obj('any')][ctx.choose(5)]
    kind, r = I.outcome(lambda: M.getitem(I, h, v))
    ctx.prove('index: TypeError for other types', kind == 'raise' and r.cls is TypeError)
    frame(ctx, 'index', h, c, ver)


@proof('slice', ['heap.Heap.__getitem__'], budget=200, ob_ms=8000)
def slc(ctx, I):
    h, q, c, ver = pre(ctx, I)
    s = sorted_facts(ctx, c)

    def b(nm):
        return None if ctx.choose(2) else ctx.int(nm)
    sl = slice(b('start'), b('stop'), b('step'))
    kind, r = I.outcome(lambda: M.getitem(I, h, sl))
    k2, want = I.outcome(lambda: py_slice(ctx, s, sl))
    if k2 == 'raise':
        ctx.prove('slice: step zero raises ValueError', kind == 'raise' and r.cls is ValueError)
        return
    ctx.prove('slice: returns a list', kind == 'return')
    got = seq_of(ctx, r)
    ctx.prove('slice: returns a list', got is not None)
    ctx.prove('slice: the same slice of the sorted content', got == want)
    frame(ctx, 'slice', h, c, ver)


@proof('queue', ['heap.Heap.queue'])
def queue(ctx, I):
    h, q, c, ver = pre(ctx, I)
    r = I.getattr(h, 'queue')
    got = seq_of(ctx, r)
    ctx.prove('queue: the sorted content', got is not None and got == sorted_facts(ctx, c))
    ctx.prove('queue: a separate list', r is not q)
    frame(ctx, 'queue', h, c, ver)


@proof('len, truth, in', ['heap.Heap.__len__', 'heap.Heap.__bool__', 'heap.Heap.__contains__'])
def simple(ctx, I):
    h, q, c, ver = pre(ctx, I)
    o = ctx.obj('o')
    case = ctx.choose(3)
    if case == 0:
        ctx.prove('len: number of values', term(I.call(len, [h])) == TOT(c))
    elif case == 1:
        r = I.call(bool, [h])
        ctx.prove('truth: non-empty', z3.BoolVal(truth(I, r)) == (TOT(c) > 0))
    else:
        r = contains(I, h, o)
        r = z3.BoolVal(r) if isinstance(r, bool) else r
        ctx.prove('in: some value equal to it', r == (z3.Select(c, o.t) > 0))
    frame(ctx, 'len/truth/in', h, c, ver)


@proof('eq', ['heap.Heap.__eq__'])
def eq(ctx, I):
    h, q, c, ver = pre(ctx, I)
    if ctx.choose(2):
        d = ctx.fresh(CntS, 'content2')
        g = PObj(ctx, Heap, dict(_queue=HList(ctx, d), _version=ctx.int('version2', lo=0)))
        r = compare(I, 'Eq', h, g)
        r = term(r) if isinstance(r, SBool) else z3.BoolVal(truth(I, r))
        ctx.prove('eq: equal exactly when the sorted contents are', r == (sorted_facts(ctx, c) == sorted_facts(ctx, d)))
        frame(ctx, 'eq', g, d, ver)
    else:
        o = [None, 3, 'x'][ctx.choose(3)]
        r = compare(I, 'Eq', h, o)
        ctx.prove('eq: unequal to anything that is not a heap', not truth(I, r))
    frame(ctx, 'eq', h, c, ver)


@proof('iteration', ['heap.Heap.__iter__', 'heap.Heap.HeapIterator.__init__'])
def it_init(ctx, I):
    h, q, c, ver = pre(ctx, I)
    it = I.call(I.getattr(h, '__iter__'), [])
    l = [v for v in it.attrs.values() if isinstance(v, HList)]
    ctx.prove('iter: starts with the whole content', len(l) == 1 and same(l[0].cnt, c))
    ctx.prove('iter: works on its own copy', len(l) == 1 and l[0] is not q)
    ctx.prove('iter: the copy satisfies the heap invariant', bool(l[0].heap))
    ctx.prove('iter: remembers the current version', any(isinstance(v, (SInt, int)) and v is h.attrs['_version'] for v in it.attrs.values()))
    frame(ctx, 'iter', h, c, ver)


@proof('next', ['heap.Heap.HeapIterator.__next__'])
def it_next(ctx, I):
    h, q, c, ver = pre(ctx, I)
    rest = ctx.fresh(CntS, 'rest')
    copy = HList(ctx, rest)
    seen = ctx.int('seen', lo=0)
    ctx.assume(seen.t <= ver.t)
    it = PObj(ctx, Heap.HeapIterator, dict(_heap=h, _copy=copy, _version=seen))
    kind, r = I.outcome(lambda: I.call(I.getattr(it, '__next__'), []))
    if kind == 'return':
        ctx.cover('next returns')
        ctx.prove('next: only while the heap is unmodified', seen.t == ver.t)
        ctx.prove('next: a smallest remaining value', minimal(rest, r.t))
        ctx.prove('next: exactly that value is used up', same(it.attrs['_copy'].cnt, add(rest, r.t, -1)))
        ctx.prove('next: the copy still satisfies the heap invariant', bool(it.attrs['_copy'].heap))
    elif r.cls is RuntimeError:
        ctx.cover('next raises RuntimeError')
        ctx.prove('next: RuntimeError only after a modification', seen.t != ver.t)
    else:
        ctx.cover('next stops')
        ctx.prove('next: StopIteration only when nothing is left', z3.And(z3.BoolVal(r.cls is StopIteration), TOT(rest) == 0, seen.t == ver.t))
    frame(ctx, 'next', h, c, ver)
