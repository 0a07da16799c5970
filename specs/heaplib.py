"""A Python list of totally ordered values as (content, is-a-heap flag), and trusted contracts of heapq."""
import heapq
import z3
from pydv.values import *
from pydv.models import Hook, term, numterm, wrapnum, wrapbool, length, truth, iterate
from pydv.ctx import Unsupported
from pydv.interp import PyExc
import pydv.models as M

CntS = z3.ArraySort(Obj, IntS)
SeqO = z3.SeqSort(Obj)
RANK = z3.Function('rank', Obj, RealS)           # the total order of the values
SORTED = z3.Function('sorted_content', CntS, SeqO)   # ascending list of a content
STEP = z3.Function('extended_slice', SeqO, IntS, IntS, IntS, IntS, SeqO)
TOT = z3.Function('size', CntS, IntS)
EMPTY = z3.K(Obj, z3.IntVal(0))
x = z3.Const('x!h', Obj)
y = z3.Const('y!h', Obj)


def add(c, o, k=1):
    return z3.Store(c, o, z3.Select(c, o) + k)


def all_in(c, f):
    return z3.ForAll([x], z3.Implies(z3.Select(c, x) > 0, f(x)), patterns=[z3.Select(c, x)])


def minimal(c, e):
    return z3.And(z3.Select(c, e) > 0, all_in(c, lambda q: RANK(e) <= RANK(q)))


def maximal(c, e):
    return z3.And(z3.Select(c, e) > 0, all_in(c, lambda q: RANK(q) <= RANK(e)))


def wf(ctx, c):
    """facts about every content"""
    ctx.assume(z3.ForAll([x], z3.Select(c, x) >= 0, patterns=[z3.Select(c, x)]))
    ctx.assume(TOT(c) >= 0)
    ctx.assume(z3.Implies(TOT(c) == 0, z3.ForAll([x], z3.Select(c, x) == 0, patterns=[z3.Select(c, x)])))


def step_facts(ctx, c, o, d):
    """d = content c with o added"""
    ctx.assume(TOT(d) == TOT(c) + 1)


class SeqL(Hook):
    """an immutable-by-us list value known by its z3 sequence (result of sorted / nsmallest / nlargest)"""
    pytype = list
    methods = ('reverse', 'sort', 'copy')

    def __init__(self, ctx, t, cnt=None, rev=False):
        self.serial = ctx.next_serial()
        self.t = t          # ascending sequence
        self.rev = rev      # True: the list is the reverse of t
        self.cnt = cnt

    def m_reverse(self, ctx):
        ctx.touched(self)
        self.rev = not self.rev

    def m_sort(self, ctx, key=None, reverse=False):
        if key is not None or reverse is not False:
            raise Unsupported('sort with options')
        self.rev = False

    def m_copy(self, ctx):
        return SeqL(ctx, self.t, self.cnt, self.rev)

    def truth(self, ctx):
        return ctx.branch(z3.Length(self.t) > 0)

    def length(self, ctx):
        return wrapnum(z3.Length(self.t))

    def at(self, ctx, k):
        n = z3.Length(self.t)
        return SObj(self.t[n - 1 - k] if self.rev else self.t[k])

    def getitem(self, ctx, i):
        if isinstance(i, (int, SInt)):
            it = numterm(i)
            n = z3.Length(self.t)
            idx = z3.simplify(z3.If(it < 0, it + n, it))
            if not ctx.branch(z3.And(idx >= 0, idx < n)):
                raise PyExc(ExcV(IndexError, ('index out of range',)))
            return self.at(ctx, idx)
        if isinstance(i, slice):
            return SeqL(ctx, py_slice(ctx, self.t, i, self.rev), None, False)
        raise PyExc(ExcV(TypeError, ('list indices must be integers or slices',)))

    def eq(self, ctx, other):
        if isinstance(other, SeqL) and not self.rev and not other.rev:
            return self.t == other.t
        raise Unsupported('comparison of lists')

    def iterate(self, ctx):
        return IterView(z3.Length(self.t), lambda ctx, k: self.at(ctx, k))

    def to_list(self, ctx):
        return SeqL(ctx, self.t, self.cnt, self.rev)


def bound(v, n, default):
    """clamped slice bound for step 1"""
    if v is None:
        return default
    t = numterm(v)
    t = z3.If(t < 0, t + n, t)
    return z3.If(t < 0, 0, z3.If(t > n, n, t))


def py_slice(ctx, t, sl, rev=False):
    """the z3 sequence Python slicing denotes"""
    n = z3.Length(t)
    step = sl.step
    if step is None or (isinstance(step, (int, SInt)) and ctx.branch(numterm(step) == 1)):
        lo, hi = bound(sl.start, n, z3.IntVal(0)), bound(sl.stop, n, n)
        if rev:
            lo, hi = n - hi, n - lo
            if True:
                raise Unsupported('slice of a reversed list')
        return z3.SubSeq(t, lo, z3.If(hi > lo, hi - lo, 0))
    if ctx.branch(numterm(step) == 0):
        raise PyExc(ExcV(ValueError, ('slice step cannot be zero',)))
    none = z3.IntVal(0)
    code = z3.IntVal((1 if sl.start is None else 0) + (2 if sl.stop is None else 0))
    if rev:
        raise Unsupported('slice of a reversed list')
    return STEP(t, none if sl.start is None else numterm(sl.start), none if sl.stop is None else numterm(sl.stop),
                numterm(step), code)


def sorted_facts(ctx, c):
    s = SORTED(c)
    i = z3.Int('i!h')
    ctx.assume(z3.Length(s) == TOT(c))
    n = TOT(c)
    ctx.assume(z3.Implies(n > 0, minimal(c, s[0])))
    ctx.assume(z3.Implies(n > 0, maximal(c, s[n - 1])))
    return s


class HList(Hook):
    """list whose order is abstracted: content, and whether it satisfies the heap invariant"""
    pytype = list
    methods = ('append', 'clear', 'copy', 'extend', 'remove', 'sort', 'pop', 'index', 'count', 'insert')

    def __init__(self, ctx, cnt, heap=True):
        self.serial = ctx.next_serial()
        self.cnt = cnt
        self.heap = heap
        self.wf(ctx)

    def wf(self, ctx):
        wf(ctx, self.cnt)

    def put(self, ctx, o, heap=False):
        ctx.touched(self)
        old = self.cnt
        self.cnt = add(old, term(o))
        ctx.assume(TOT(self.cnt) == TOT(old) + 1)
        wf(ctx, self.cnt)
        self.heap = heap

    def take(self, ctx, e, heap):
        ctx.touched(self)
        old = self.cnt
        self.cnt = add(old, e, -1)
        ctx.assume(TOT(self.cnt) == TOT(old) - 1)
        wf(ctx, self.cnt)
        self.heap = heap

    def any(self, ctx):
        e = ctx.fresh(Obj, 'e')
        ctx.assume(z3.Select(self.cnt, e) > 0)
        return e

    def smallest(self, ctx):
        e = ctx.fresh(Obj, 'min')
        ctx.assume(minimal(self.cnt, e))
        return e

    def nonempty(self, ctx):
        return ctx.branch(TOT(self.cnt) > 0)

    def truth(self, ctx):
        return self.nonempty(ctx)

    def length(self, ctx):
        return wrapnum(TOT(self.cnt))

    def contains(self, ctx, o):
        return z3.Select(self.cnt, term(o)) > 0

    def m_append(self, ctx, o):
        self.put(ctx, o)

    def m_insert(self, ctx, i, o):
        self.put(ctx, o)

    def m_clear(self, ctx):
        ctx.touched(self)
        self.cnt = EMPTY
        ctx.assume(TOT(EMPTY) == 0)
        self.heap = True

    def m_copy(self, ctx):
        return HList(ctx, self.cnt, self.heap)

    def m_sort(self, ctx, key=None, reverse=False):
        if key is not None or reverse is not False:
            raise Unsupported('sort with options')
        ctx.touched(self)
        self.heap = 'sorted'

    def m_pop(self, ctx, i=-1):
        if not self.nonempty(ctx):
            raise PyExc(ExcV(IndexError, ('pop from empty list',)))
        if i == 0 and self.heap:
            e = self.smallest(ctx)
            self.take(ctx, e, self.heap == 'sorted' and 'sorted')
        else:
            e = self.any(ctx)
            self.take(ctx, e, self.heap if i == -1 else False)
        return SObj(e)

    def m_count(self, ctx, o):
        return wrapnum(z3.Select(self.cnt, term(o)))

    def m_remove(self, ctx, o):
        if not ctx.branch(z3.Select(self.cnt, term(o)) > 0):
            raise PyExc(ExcV(ValueError, ('not in list',)))
        self.take(ctx, term(o), False)

    def m_extend(self, ctx, it):
        if isinstance(it, HList) or hasattr(it, 'cnt'):
            if it.cnt is None:
                raise Unsupported('extend by a list of unknown content')
            ctx.touched(self)
            old, b = self.cnt, it.cnt
            new = ctx.fresh(CntS, 'cnt')
            ctx.assume(z3.ForAll([x], z3.Select(new, x) == z3.Select(old, x) + z3.Select(b, x), patterns=[z3.Select(new, x)]))
            ctx.assume(TOT(new) == TOT(old) + TOT(b))
            self.cnt, self.heap = new, False
            wf(ctx, new)
            return
        v = iterate(ctx.interp, it)
        if not isinstance(v, list):
            raise Unsupported('extend')
        for o in v:
            self.put(ctx, o)

    def getitem(self, ctx, i):
        if isinstance(i, slice):
            if i.start is None and i.stop is None and i.step is None:
                return HList(ctx, self.cnt, self.heap)
            if self.heap == 'sorted':
                return self.to_sorted(ctx).getitem(ctx, i)
            raise Unsupported('slice of an unsorted list')
        if not isinstance(i, (int, SInt)):
            raise PyExc(ExcV(TypeError, ('list indices must be integers or slices',)))
        if self.heap == 'sorted':
            return self.to_sorted(ctx).getitem(ctx, i)
        it, n = numterm(i), TOT(self.cnt)
        if not ctx.branch(z3.And(it >= -n, it < n)):
            raise PyExc(ExcV(IndexError, ('list index out of range',)))
        if self.heap and ctx.branch(z3.Or(it == 0, it == -n)):
            return SObj(self.smallest(ctx))
        return SObj(self.any(ctx))

    def to_list(self, ctx):
        return HList(ctx, self.cnt, self.heap)

    def to_sorted(self, ctx, key=None, reverse=False):
        if key is not None or reverse is not False:
            raise Unsupported('sorted with options')
        return SeqL(ctx, sorted_facts(ctx, self.cnt), self.cnt)

    def minmax(self, ctx, op, kw):
        if kw:
            raise Unsupported('min/max options')
        if not self.nonempty(ctx):
            raise PyExc(ExcV(ValueError, ('empty',)))
        e = ctx.fresh(Obj, op)
        ctx.assume((minimal if op == 'min' else maximal)(self.cnt, e))
        return SObj(e)

    def iterate(self, ctx):
        if self.heap == 'sorted':
            return self.to_sorted(ctx).iterate(ctx)

        def get(ctx, k):
            return SObj(self.any(ctx))
        return IterView(TOT(self.cnt), get)

    def eq(self, ctx, other):
        if isinstance(other, HList) and self.heap == 'sorted' and other.heap == 'sorted':
            a, b = sorted_facts(ctx, self.cnt), sorted_facts(ctx, other.cnt)
            return a == b
        if isinstance(other, (SeqL, HList)):
            raise Unsupported('comparison of unsorted lists')
        return False


class Values(Hook):
    """any iterable of values; false exactly when it has none (or has no opinion)"""

    def __init__(self, ctx):
        self.serial = ctx.next_serial()
        self.cnt = ctx.fresh(CntS, 'values')
        self.sized = ctx.choose(2)
        wf(ctx, self.cnt)

    def truth(self, ctx):
        return ctx.branch(TOT(self.cnt) > 0) if self.sized else True

    def to_list(self, ctx):
        return HList(ctx, self.cnt, False)

    def to_sorted(self, ctx, key=None, reverse=False):
        return HList(ctx, self.cnt, False).to_sorted(ctx, key, reverse)


def need_heap(ctx, l, fn):
    if not isinstance(l, HList):
        if isinstance(l, PList) and l.prefix is None:
            raise Unsupported(f'{fn} on an ordinary list')
        raise Unsupported(f'{fn} on {l!r}')
    ctx.prove(f'{fn}: its argument satisfies the heap invariant', bool(l.heap))


def install(ctx):
    ov = ctx.overrides
    ov[heapq.heapify] = heapify
    ov[heapq.heappush] = heappush
    ov[heapq.heappop] = heappop
    ov[heapq.heappushpop] = heappushpop
    ov[heapq.heapreplace] = heapreplace
    ov[heapq.nsmallest] = nsmallest
    ov[heapq.nlargest] = nlargest
    ctx.ghost['obj_order'] = lambda ctx, op, a, b: wrapbool(
        {'Lt': RANK(a.t) < RANK(b.t), 'LtE': RANK(a.t) <= RANK(b.t), 'Gt': RANK(a.t) > RANK(b.t), 'GtE': RANK(a.t) >= RANK(b.t)}[op])
    ctx.trust('contracts of heapq.heapify/heappush/heappop/heappushpop/heapreplace/nsmallest/nlargest as documented')
    ctx.trust('the values are totally ordered by < and equal values are interchangeable')
    ctx.ghost['lists'] = lambda: None
    del ctx.ghost['lists']


def heapify(ctx, l):
    if not isinstance(l, HList):
        raise Unsupported('heapify')
    ctx.touched(l)
    l.heap = l.heap or True


def heappush(ctx, l, o):
    need_heap(ctx, l, 'heappush')
    l.put(ctx, o, True)


def heappop(ctx, l):
    need_heap(ctx, l, 'heappop')
    if not l.nonempty(ctx):
        raise PyExc(ExcV(IndexError, ('index out of range',)))
    e = l.smallest(ctx)
    l.take(ctx, e, True)
    return SObj(e)


def heappushpop(ctx, l, o):
    need_heap(ctx, l, 'heappushpop')
    l.put(ctx, o, True)
    e = l.smallest(ctx)
    l.take(ctx, e, True)
    return SObj(e)


def heapreplace(ctx, l, o):
    need_heap(ctx, l, 'heapreplace')
    if not l.nonempty(ctx):
        raise PyExc(ExcV(IndexError, ('index out of range',)))
    e = l.smallest(ctx)
    l.take(ctx, e, True)
    l.put(ctx, o, True)
    return SObj(e)


def source(ctx, it):
    if isinstance(it, (HList, Values)):
        return sorted_facts(ctx, it.cnt)
    if isinstance(it, SeqL):
        return it.t
    raise Unsupported('nsmallest/nlargest source')


def nsmallest(ctx, n, it, key=None):
    if key is not None:
        raise Unsupported('nsmallest key')
    s, k = source(ctx, it), numterm(n)
    ln = z3.Length(s)
    return SeqL(ctx, z3.SubSeq(s, 0, z3.If(k < 0, 0, z3.If(k > ln, ln, k))))


def nlargest(ctx, n, it, key=None):
    if key is not None:
        raise Unsupported('nlargest key')
    s, k = source(ctx, it), numterm(n)
    ln = z3.Length(s)
    k = z3.If(k < 0, 0, z3.If(k > ln, ln, k))
    return SeqL(ctx, z3.SubSeq(s, ln - k, k), rev=True)
