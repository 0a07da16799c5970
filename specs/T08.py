"""combine_splits: the heap of length lists is represented by the boundaries the lists stand for.

Every list w stands for increasing boundaries B(w, j); the lists in the heap at position `base` have head B(w, cur) - base and
then the differences of the following boundaries (checked at every write).  One arbitrary boundary c = B(g, jc) of one
arbitrary list g is followed through the run: it is a cut position of the result.  Every cut is a boundary of some list."""
import heapq
import z3
from pydv.framework import proof
from pydv.ctx import Unsupported
from pydv.values import *
from pydv import models as M
from pydv.models import Hook
from pydv.interp import LoopSpec
import big.text as T

MOD = 'text.'
NOTE = 'combine_splits is under contract for any number of splits of any length: an arbitrary boundary of an arbitrary split, and an arbitrary cut, are followed through the run'
ASSUMPTIONS = ['heapq.heappop removes a least list and element 0 is a least list (subtracting the same number from the first item of all lists keeps their order)']
L_ = z3.Length
B = z3.Function('boundary', IntS, IntS, IntS)
NB = z3.Function('boundaries', IntS, IntS)          # how many boundaries a list has


def bfacts(ctx, w, j, total):
    c = z3.And(j >= 0, j < NB(w))
    ctx.assume(z3.Implies(c, z3.And(B(w, j) >= 1, B(w, j) <= total)))
    ctx.assume(z3.Implies(z3.And(j >= 1, j < NB(w)), B(w, j) > B(w, j - 1)))


class Lens(Hook):
    """a list of lengths: list w, with the boundaries from cur on still to come"""
    pytype = list
    methods = ('pop',)

    def __init__(self, ctx, heap, w, cur, at, index=None):
        self.serial = ctx.next_serial()
        self.heap, self.w, self.cur, self.at, self.index = heap, w, cur, at, index     # at: the position lengths count from
        self.popped = False
        bfacts(ctx, w, cur, heap.total)

    def length(self, ctx):
        ctx.assume(z3.And(NB(self.w) - self.cur >= 1))
        return SInt(z3.simplify(NB(self.w) - self.cur))

    def truth(self, ctx):
        return True

    def item(self, ctx, k):
        bfacts(ctx, self.w, z3.simplify(self.cur + k), self.heap.total)
        bfacts(ctx, self.w, z3.simplify(self.cur + k - 1), self.heap.total)
        for x in (self.cur + k, self.cur + k - 1):
            x = z3.simplify(x)
            ctx.assume(z3.Implies(z3.And(self.cur >= 0, self.cur <= x, x < NB(self.w)), B(self.w, self.cur) <= B(self.w, x)))
        if z3.is_int_value(k) and k.as_long() == 0:
            return B(self.w, self.cur) - self.at
        return B(self.w, z3.simplify(self.cur + k)) - z3.If(k == 0, self.at, B(self.w, z3.simplify(self.cur + k - 1)))

    def getitem(self, ctx, i):
        if type(i) is not int or i != 0:
            raise Unsupported('an item that is not the first')
        return SInt(z3.simplify(self.item(ctx, z3.IntVal(0))))

    def setitem(self, ctx, i, v):
        if type(i) is not int or i != 0 or self.index is None:
            raise Unsupported('an item that is not the first')
        h = self.heap
        ctx.prove('every list is moved to the new position', z3.And(M.numterm(v) == B(self.w, self.cur) - h.target(ctx), self.index == h.shifted))
        ctx.touched(h.shift)
        h.shifted = z3.simplify(h.shifted + 1)
        self.at = h.target(ctx)

    def m_pop(self, ctx, i=-1):
        if i != 0:
            raise Unsupported('pop of another item')
        r = self.item(ctx, z3.IntVal(0))
        ctx.assume(NB(self.w) > self.cur)
        # the rest is a list that counts from the boundary taken off
        self.at, self.cur, self.popped = B(self.w, self.cur), z3.simplify(self.cur + 1), True
        bfacts(ctx, self.w, self.cur, self.heap.total)
        return SInt(z3.simplify(r))

    def iterate(self, ctx):
        ctx.assume(NB(self.w) - self.cur >= 1)
        v = IterView(z3.simplify(NB(self.w) - self.cur), lambda c, k: SInt(z3.simplify(self.item(c, k))))
        v.lens = self
        return v


class Shift(Hook):
    """how many lists of the heap have been moved to the new position"""

    def __init__(self, ctx):
        self.serial = ctx.next_serial()
        self.count, self.raw = z3.IntVal(0), None

    def havoc(self, ctx):
        self.count = self.raw = ctx.fresh(IntS, 'moved')


class Heap(Hook):
    """the lists in the heap: n of them, all counting from base, zero of them with nothing left before their first boundary"""
    pytype = list
    methods = ('pop', 'append')

    def __init__(self, ctx, total, g, jc):
        self.serial = ctx.next_serial()
        self.total, self.g, self.jc = total, g, jc
        self.base = z3.IntVal(0)
        self.n = ctx.int('lists', 0).t
        self.zero = z3.IntVal(0)
        self.shift = Shift(ctx)
        self.ing, self.cg = z3.BoolVal(True), z3.IntVal(0)
        self.version(ctx)

    shifted = property(lambda self: self.shift.count, lambda self, v: setattr(self.shift, 'count', v))

    def havoc(self, ctx):
        self.base, self.n, self.zero, self.cg = (ctx.fresh(IntS, x) for x in ('base', 'lists', 'zero', 'cur'))
        self.ing = ctx.fresh(BoolS, 'in')
        self.version(ctx)

    def version(self, ctx):
        """the arrangement of the heap"""
        m = ctx.next_serial()
        self.ID, self.CUR, self.ZC = (z3.Function(f'{x}!{m}', IntS, IntS) for x in ('list', 'cur', 'zeros before'))
        self.gi = ctx.fresh(IntS, 'index of the followed list')
        self._target = None

    def inv(self):
        """what holds of the heap between rounds"""
        g, c = self.g, B(self.g, self.jc)
        return [('counts', z3.And(self.n >= 0, self.zero >= 0, self.zero <= self.n, self.base >= 0, self.base <= self.total)),
                ('the followed boundary lies behind, or its list still has it', z3.Or(c <= self.base, z3.And(self.ing, self.cg <= self.jc))),
                ('the followed list is in step', z3.Implies(self.ing, z3.And(self.n >= 1, self.cg >= 0, self.cg < NB(g), B(g, self.cg) >= self.base, (z3.Implies(B(g, self.cg) == self.base, self.zero >= 1)))))]

    def facts(self, ctx, k):
        """list k of the heap"""
        w, cur = self.ID(k), self.CUR(k)
        ctx.assume(z3.And(cur >= 0, cur < NB(w)))
        bfacts(ctx, w, cur, self.total)
        ctx.assume(B(w, cur) >= self.base)
        ctx.assume(z3.Implies(B(w, cur) == self.base, self.zero >= 1))
        ctx.assume(z3.Implies(self.ing, z3.And(0 <= self.gi, self.gi < self.n, self.ID(self.gi) == self.g, self.CUR(self.gi) == self.cg)))
        ctx.assume(z3.Implies(z3.And(w == self.g, self.ing), k == self.gi))
        # element 0 is least
        ctx.assume(B(self.ID(0), self.CUR(0)) <= B(w, cur))
        ctx.assume(z3.Implies(self.ing, B(self.ID(0), self.CUR(0)) <= B(self.g, self.cg)))
        ctx.assume(z3.And(self.CUR(0) >= 0, self.CUR(0) < NB(self.ID(0)), B(self.ID(0), self.CUR(0)) >= self.base))
        bfacts(ctx, self.g, self.cg, self.total)
        bfacts(ctx, self.ID(0), self.CUR(0), self.total)
        return w, cur

    def target(self, ctx):
        """the position of the first boundary to come"""
        self.facts(ctx, z3.IntVal(0))
        return B(self.ID(0), self.CUR(0))

    def settle(self, ctx):
        """after all lists were moved, base is the new position"""
        if z3.is_int_value(self.shifted) and self.shifted.as_long() == 0:
            return
        if ctx.holds(self.shifted == 0):
            return
        ctx.prove('either all lists are moved to the new position or none', self.shifted == self.n)
        t = self.target(ctx)
        ctx.touched(self)
        ctx.touched(self.shift)
        zero = self.ZC(self.n)
        ctx.assume(z3.And(zero >= 0, zero <= self.n))
        ctx.assume(z3.Implies(z3.And(self.ing, B(self.g, self.cg) == t), zero >= 1))
        self.base, self.shifted, self.zero = t, z3.IntVal(0), zero
        ctx.prove('the lists at the new position have been counted', True)

    def length(self, ctx):
        self.settle(ctx)
        return SInt(self.n)

    def truth(self, ctx):
        self.settle(ctx)
        return ctx.branch(self.n > 0)

    def lens(self, ctx, k):
        w, cur = self.facts(ctx, k)
        return Lens(ctx, self, w, cur, self.base, k)

    def getitem(self, ctx, i):
        self.settle(ctx)
        if type(i) is not int or i != 0:
            raise Unsupported('an element of the heap that is not the first')
        ctx.prove('there is a first list', self.n > 0)
        return self.lens(ctx, z3.IntVal(0))

    def iterate(self, ctx):
        self.settle(ctx)
        v = IterView(self.n, lambda c, k: self.zeros(c, k))
        v.heap = self
        return v

    def zeros(self, ctx, k):
        l = self.lens(ctx, k)
        ctx.assume(self.ZC(0) == 0)
        ctx.assume(self.ZC(k + 1) == self.ZC(k) + z3.If(B(l.w, l.cur) == self.target(ctx), z3.IntVal(1), z3.IntVal(0)))
        return l

    def pop(self, ctx):
        self.settle(ctx)
        ctx.prove('a list is taken only while there is one', self.n > 0)
        l = self.lens(ctx, z3.IntVal(0))
        l.index = None
        isg = ctx.branch(z3.And(self.ing, l.w == self.g))
        ctx.assume((self.zero > 0) == (B(l.w, l.cur) == self.base))
        if not isg:
            ctx.assume(z3.Implies(z3.And(self.ing, B(self.g, self.cg) == self.base), self.zero >= 2))
            ctx.assume(z3.Implies(self.ing, self.n >= 2))
        ctx.touched(self)
        self.n = z3.simplify(self.n - 1)
        self.zero = z3.simplify(z3.If(B(l.w, l.cur) == self.base, self.zero - 1, self.zero))
        if isg:
            self.ing = z3.BoolVal(False)
        self.version(ctx)
        return l

    def push(self, ctx, l):
        ctx.prove('only a list with boundaries to come goes back', isinstance(l, Lens))
        ctx.prove('only a list with boundaries to come goes back', z3.And(l.cur < NB(l.w), l.at == self.base))
        ctx.touched(self)
        self.n = z3.simplify(self.n + 1)
        bfacts(ctx, l.w, l.cur, self.total)
        self.zero = z3.simplify(z3.If(B(l.w, l.cur) == self.base, self.zero + 1, self.zero))
        if ctx.branch(l.w == self.g):
            self.ing, self.cg = z3.BoolVal(True), l.cur
        self.version(ctx)


class Pos(Hook):
    """how much of the text has been yielded, and whether the followed boundary was a cut"""

    def __init__(self, ctx):
        self.serial = ctx.next_serial()
        self.t, self.hit = z3.IntVal(0), z3.BoolVal(False)

    def havoc(self, ctx):
        self.t, self.hit = ctx.fresh(IntS, 'yielded'), ctx.fresh(BoolS, 'hit')


def inner(ctx, I, kind):
    s0 = ctx.str('s', kind)
    total = L_(s0.t)
    g, jc = ctx.int('g').t, ctx.int('j').t
    some = ctx.choose(2)                 # there is a split with boundaries, or none
    heap = Heap(ctx, total, g, jc)
    if some:
        # (the last boundary of a split of the text is the end of the text)
        ctx.assume(z3.And(jc >= 0, jc < NB(g) - 1, heap.n >= 1))
        bfacts(ctx, g, jc, total)
        bfacts(ctx, g, z3.IntVal(0), total)
    else:
        heap.ing = z3.BoolVal(False)
        ctx.assume(heap.n == 0)
    c = B(g, jc)
    pos = ctx.ghost['pos'] = Pos(ctx)
    ctx.ghost['heap'] = heap
    ctx.ghost['shift'] = heap.shift
    cur = {'last': None}

    def mono():
        """boundaries of the followed list are increasing"""
        q = heap.cg
        ctx.assume(z3.Implies(z3.And(0 <= q, q <= jc), B(g, q) <= c))
        ctx.assume(z3.Implies(z3.And(0 <= jc, jc < q), c < B(g, q)))
        ctx.assume(z3.Implies(z3.And(1 <= q, jc < q), c <= B(g, q - 1)))

    def common(st):
        return ([('the followed boundary was a cut exactly when it lies behind', z3.Implies(c <= pos.t, pos.hit)) if some else ('no boundary', True)] +
                [('what was yielded is in the text', z3.And(pos.t >= 0, pos.t <= total))])

    def main(st):
        mono()
        return (heap.inv() if some else heap.inv()[:1]) + common(st) + [
            ('no list is at the position', z3.And(heap.zero == 0, heap.shifted == 0, heap.n >= 2)),
            ('what is left is the rest of the text', z3.And(M.term(st['s']) == z3.SubString(s0.t, pos.t, total - pos.t), pos.t == heap.base, pos.t < total if st.k is not None else True))]

    def texts(st):
        return [(n + ' is the rest of the text', v.t == z3.SubString(s0.t, heap.base, total - heap.base)) for n, v in sorted(st.frame.locals.items()) if isinstance(v, SStr)]

    def inv(st):
        v = st.view
        mono()
        base = (heap.inv() if some else heap.inv()[:1]) + common(st)
        if v is None:
            if heap.shift.count is not heap.shift.raw or ctx.holds(heap.shifted == heap.n):
                heap.settle(ctx)
                base = (heap.inv() if some else heap.inv()[:1]) + common(st)
            return base + [('the position is that of the heap', z3.And(pos.t == heap.base, heap.shifted == 0))]
        if getattr(v, 'heap', None) is not None:
            return [('the lists before are moved', heap.shifted == st.k)]
        return []

    def cands(st):
        v = st.view
        out = []
        ints = [(n, M.numterm(x)) for n, x in sorted(st.frame.locals.items()) if isinstance(x, SInt) or type(x) is int]
        if v is None:
            out.append(('there are two lists', heap.n >= 2))
            out.append(('no list is at the position', heap.zero == 0))
            out.append(('text is left', heap.base < total))
            out += texts(st)
            out += [(n + ' lists are at the position', t == heap.zero) for n, t in ints]
            out += [(n + ' is zero', t == 0) for n, t in ints]
        elif getattr(v, 'heap', None) is not None:
            heap.facts(ctx, z3.IntVal(0))
            ctx.assume(heap.ZC(0) == 0)
            out += [(n + ' lists are at the new position', t == heap.ZC(st.k)) for n, t in ints]
            out += [(n + ' is zero', t == 0) for n, t in ints]
        elif getattr(v, 'lens', None) is not None:
            l = v.lens
            cur['view'], cur['k'] = v, st.k
            p = reached(l, st.k)
            out += [(n + ' is the boundary before', t == p - heap.base) for n, t in ints]
            out.append(('the boundary before is what was yielded', pos.t == p))
            for x in (l.cur + st.k, l.cur + st.k - 1):
                bfacts(ctx, l.w, z3.simplify(x), total)
            if some:
                ctx.assume(z3.Implies(z3.And(l.w == g, jc >= l.cur + st.k, jc < NB(g), st.k >= 1), B(g, z3.simplify(l.cur + st.k - 1)) < c))
                ctx.assume(z3.Implies(z3.And(l.w == g, jc <= l.cur + st.k - 1, st.k >= 1), B(g, z3.simplify(l.cur + st.k - 1)) >= c))
                out.append(('the followed boundary is behind or to come', z3.Or(z3.And(pos.hit, c <= p), z3.And(l.w == g, jc >= l.cur + st.k))))
        return out

    def reached(l, k):
        bfacts(ctx, l.w, z3.simplify(l.cur + k - 1), total)
        x = z3.simplify(l.cur + k - 1)
        ctx.assume(z3.Implies(z3.And(l.cur >= 0, l.cur <= x, x < NB(l.w)), B(l.w, l.cur) <= B(l.w, x)))
        return z3.If(k == 0, heap.base, B(l.w, z3.simplify(l.cur + k - 1)))

    def make(st, path):
        return None
    ctx.loops[('*', '*')] = LoopSpec(inv, cands)

    def at_yield(ctx, f, v):
        ctx.prove('a piece is text of the same type', M.is_text(v) and M.kind_of(v) == kind)
        t = M.term(v)
        ctx.prove('the pieces are the text in order', z3.And(t == z3.SubString(s0.t, pos.t, L_(t)), pos.t + L_(t) <= total))
        ctx.prove('no piece is empty', L_(t) > 0)
        ctx.touched(pos)
        was = pos.t
        pos.t = z3.simplify(pos.t + L_(t))
        end = pos.t
        # the cut is a boundary of the first list, the next boundary of the last list, or the end of the text
        opts = [end == total]
        if ctx.holds(heap.n >= 1):
            first = heap.lens(ctx, z3.IntVal(0))
            opts.append(end == B(first.w, first.cur))
            if cur.get('view') is not None:
                kk = cur['k']
                bfacts(ctx, first.w, z3.simplify(first.cur + kk), total)
                opts.append(end == B(first.w, z3.simplify(first.cur + kk)))
                x = z3.simplify(first.cur + kk)
                ctx.assume(z3.Implies(z3.And(first.w == g, 0 <= x, x <= jc, jc < NB(g)), B(g, x) <= c))
        ctx.prove('every cut is a boundary of a given split', z3.Or(*opts))
        pos.hit = z3.Or(pos.hit, end == c)
        if some:
            ctx.prove('no boundary is passed over', z3.Implies(z3.And(was < c, c <= end), end == c))
        ctx.cover('piece')
    ctx.ghost[('yield', MOD + 'combine_splits')] = at_yield

    ctx.overrides[heapq.heappop] = lambda ctx, h: h.pop(ctx)
    ctx.overrides[heapq.heappush] = lambda ctx, h, l: h.push(ctx, l)
    k, r = I.outcome(lambda: I.collect(I.call(T._combine_splits, [s0, heap], {})))
    ctx.prove('combining splits of the text does not raise', k == 'return')
    ctx.prove('the pieces make up the whole text', pos.t == total)
    if some:
        ctx.prove('every boundary of every split is a cut', z3.Or(pos.hit, c == total))


def proofs(kind):
    def each(ctx, I):
        return inner(ctx, I, kind)
    return proof(f'combining {kind}', [MOD + 'combine_splits'], budget=120)(each)


PROOFS = [proofs('str'), proofs('bytes')]
NOT_PROVED = ['the outer function (turning the splits into lists of lengths and refusing a split longer than the text) is covered by the bounded check only']
