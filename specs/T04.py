"""Regular-expression partition: the matches are an arbitrary sequence of non-overlapping spans; the result is examined at an arbitrary index."""
import re
import z3
from pydv.framework import proof
from pydv.ctx import Unsupported
from pydv.values import *
from pydv import models as M
from pydv.models import Hook
from pydv.interp import LoopSpec
import big.text as T

MOD = 'text.'
NOTE = 're_partition and re_rpartition are under contract for any text, any sequence of matches and any count; reversed_re_finditer yields genuine matches that go from right to left without overlap'
ASSUMPTIONS = ['pattern.finditer yields non-overlapping matches from left to right and pattern.search the first of them (the re module)',
               'heapq.heapify / heappop / heapreplace keep the elements of the list (which of them comes first is not used)']
BOUNDED = ['reversed_re_finditer against a search of all starts: enumerated and random patterns and texts (see evidence)']
NOT_PROVED = ['reversed_re_finditer (inner): maximality of the yielded matches is decided by the bounded comparison only']
START, END = z3.Function('start', IntS, IntS), z3.Function('end', IntS, IntS)
sub = lambda s, a, b: z3.SubString(s, a, b - a)


class Match(Hook):
    pytype = re.Match
    methods = ('start', 'end', 'span', 'group')

    def __init__(self, ctx, w, k):
        self.serial = ctx.next_serial()
        self.w, self.k = w, k

    def m_start(self, ctx, g=0):
        return SInt(self.w.start(self.k))

    def m_end(self, ctx, g=0):
        return SInt(self.w.end(self.k))

    def m_span(self, ctx, g=0):
        return (self.m_start(ctx), self.m_end(ctx))

    def m_group(self, ctx, g=0):
        return SStr(sub(self.w.s.t, self.w.start(self.k), self.w.end(self.k)), self.w.kind)

    def truth(self, ctx):
        return True


class World:
    """the matches in the order they are asked for: n of them, from the left or from the right"""

    def __init__(self, ctx, kind, reverse):
        self.ctx, self.kind, self.reverse = ctx, kind, reverse
        self.s = ctx.str('s', kind)
        self.n = ctx.int('matches', 0).t

    def facts(self, k):
        s, e, n, L = START(k), END(k), self.n, z3.Length(self.s.t)
        c = [0 <= s, s <= e, e <= L]
        c.append(z3.Implies(k > 0, e <= START(k - 1) if self.reverse else END(k - 1) <= s))
        c.append(z3.Implies(k > 0, z3.And(0 <= START(k - 1), START(k - 1) <= END(k - 1), END(k - 1) <= L)))
        self.ctx.assume(z3.Implies(z3.And(k >= 0, k < n), z3.And(*c)))

    def start(self, k):
        self.facts(k)
        return START(k)

    def end(self, k):
        self.facts(k)
        return END(k)

    def match(self, ctx, k):
        return Match(ctx, self, k)

    def matches(self, ctx):
        l = PList(ctx, [], prefix=Abstract(self.n, None, None, {}, getter=lambda c, k: self.match(c, k)))
        l.prefix.elem, l.prefix.cache = frozenset(), {}
        return ctx.interp.call(iter, [l], {})

    def before(self, k):
        """where the piece of match k begins (ends, when reversed)"""
        L = z3.Length(self.s.t)
        if self.reverse:
            return z3.If(k <= 0, L, self.start(k - 1))
        return z3.If(k <= 0, z3.IntVal(0), self.end(k - 1))

    def piece(self, k):
        if self.reverse:
            return sub(self.s.t, self.end(k), self.before(k))
        return sub(self.s.t, self.before(k), self.start(k))

    def rest(self, k):
        """what is left after k matches"""
        L = z3.Length(self.s.t)
        return sub(self.s.t, z3.IntVal(0), self.before(k)) if self.reverse else sub(self.s.t, self.before(k), L)

    def list(self, ctx, n):
        """piece 0, match 0, piece 1, match 1, ..."""
        def get(c, i):
            j = z3.simplify(i / 2)
            if c.branch(i % 2 == 0):
                return SStr(self.piece(j), self.kind)
            return self.match(c, j)
        l = PList(ctx, [], prefix=Abstract(n, None, None, {}, getter=get))
        l.prefix.elem, l.prefix.cache = frozenset(), {}
        l.prefix.made = True
        return l

    def is_list(self, l, k):
        """l holds the pieces and matches before match k"""
        a = l.prefix
        if a is not None and not getattr(a, 'made', False):
            return False
        n = a.length if a is not None else z3.IntVal(0)
        gs = [n + len(l.items) == 2 * k]
        for j, v in enumerate(l.items):
            at = 2 * k - len(l.items) + j
            if isinstance(v, Match):
                gs.append(z3.And(at % 2 == 1, v.k == (at - 1) / 2))
            elif M.is_text(v) and M.kind_of(v) == self.kind:
                gs.append(z3.And(at % 2 == 0, M.term(v) == self.piece(z3.simplify(at / 2))))
            else:
                return False
        return z3.And(*gs)


class Pattern(Hook):
    pytype = re.Pattern
    methods = ('search', 'match', 'finditer')

    def __init__(self, ctx, w):
        self.serial = ctx.next_serial()
        self.w = w

    def m_search(self, ctx, s):
        ctx.prove('the text itself is searched', s is self.w.s)
        return self.w.match(ctx, z3.IntVal(0)) if ctx.branch(self.w.n > 0) else None

    def m_finditer(self, ctx, s):
        ctx.prove('the text itself is searched', s is self.w.s)
        return self.w.matches(ctx)

    def m_match(self, ctx, s, *a):
        raise Unsupported('pattern.match')


@proof('partition', [MOD + 're_partition', MOD + 're_rpartition'], budget=120)
def partition(ctx, I):
    kind = 'bytes' if ctx.choose(2) else 'str'
    reverse = ctx.choose(3)             # re_partition, reverse=True, re_rpartition
    w = World(ctx, kind, reverse > 0)
    pat = Pattern(ctx, w)
    given = ctx.choose(2)
    src = ctx.str('pattern', kind)
    given_flags = ctx.int('flags') if not given and ctx.choose(2) else None
    asked = []

    def comp(ctx, p, flags=0):
        ctx.prove('the given pattern is used with the given flags', p is src)
        ctx.prove('the given pattern is used with the given flags', M.numterm(flags) == (given_flags.t if given_flags is not None else 0))
        return pat
    ctx.overrides[re.compile] = comp

    def rev(ctx, p, s, flags=0):
        ctx.prove('the text itself is searched from the right', s is w.s and reverse > 0)
        ctx.prove('the given pattern is used', p is pat or p is src)
        if p is src:
            ctx.prove('the given pattern is used with the given flags', M.numterm(flags) == (given_flags.t if given_flags is not None else 0))
        return w.matches(ctx)
    ctx.overrides[T.reversed_re_finditer] = rev
    cnt = ctx.choose(2)
    c = ctx.int('count') if cnt else 1
    kw = {}
    if cnt:
        kw['count'] = c
    if given_flags is not None:
        kw['flags'] = given_flags
    fn = T.re_rpartition if reverse == 2 else T.re_partition
    if reverse == 1 or reverse == 0 and ctx.choose(2):
        kw['reverse'] = reverse == 1

    def inv(st):
        return []

    def cands(st):
        out = []
        for nm, v in sorted(st.frame.locals.items()):
            if isinstance(v, SInt) or type(v) is int:
                out.append((nm + ' is where the next piece begins', M.numterm(v) == w.before(st.k)))
                out.append((nm + ' counts down', M.numterm(v) == M.numterm(c) - st.k + 1))
            elif isinstance(v, PList):
                out.append((nm + ' holds the pieces and matches so far', w.is_list(v, st.k)))
            elif isinstance(v, IterObj):
                out.append((nm + ' is at the next match', M.term(v.pos) == st.k))
        return out

    def make(st, path):
        if path[-1] == '[]' and isinstance(M.read_path(I, st.frame, path), PList):
            return lambda ctx, st: w.list(ctx, ctx.int('so far', 0).t)
        return None
    ctx.loops[('*', '*')] = LoopSpec(inv, cands, make=make)
    k, r = I.outcome(lambda: I.call(fn, [w.s, pat if given else src], kw))
    n = M.numterm(c)
    if ctx.branch(n < 0):
        ctx.prove('a negative count raises ValueError', k == 'raise' and r.cls is ValueError)
        return
    ctx.prove('partition does not raise', k == 'return')
    if k != 'return':
        return
    ctx.prove('the result is a tuple', isinstance(r, (tuple, M.Seqs, M.TupleRep, PList, IterView)))
    ctx.prove('there are 2 * count + 1 items', M.numterm(M.length(I, r)) == 2 * n + 1)
    found = z3.If(w.n < n, w.n, n)
    p = ctx.fresh(IntS, 'p')            # an arbitrary position, counted from the end the search starts at
    ctx.assume(z3.And(p >= 0, p <= 2 * n))
    v = M.getitem(I, r, SInt(z3.simplify(2 * n - p) if reverse else p))
    j = z3.simplify(p / 2)
    if ctx.branch(p % 2 == 1):
        if ctx.branch(j < found):
            ctx.cover('match found')
            ctx.prove('every other item is a match', isinstance(v, Match))
            if not isinstance(v, Match):
                return
            ctx.prove('the matches are the first ones, in order', v.k == j)
        else:
            ctx.cover('match missing')
            ctx.prove('a match that does not exist is None', v is None)
        return
    ctx.prove('the pieces are text of the same type', M.is_text(v) and M.kind_of(v) == kind)
    if ctx.branch(j < found):
        ctx.prove('a piece is the text between two matches', M.term(v) == w.piece(j))
    elif ctx.branch(j == found):
        ctx.prove('the rest of the text follows the last match', M.term(v) == w.rest(found))
    else:
        ctx.cover('padding')
        ctx.prove('missing pieces are empty', M.term(v) == z3.StringVal(''))


@proof('lemma: the pieces and matches re-join to the text', [])
def rejoin(ctx, I):
    """joined(k): the pieces and matches before match k, joined, are the text up to before(k) (induction on k)"""
    rev = ctx.choose(2) == 1
    w = World(ctx, 'str', rev)
    s, L = w.s.t, z3.Length(w.s.t)
    k = ctx.int('k', 0).t
    done = (lambda k: sub(s, w.before(k), L)) if rev else (lambda k: sub(s, z3.IntVal(0), w.before(k)))
    ctx.prove('nothing is joined before the first match', done(z3.IntVal(0)) == z3.StringVal(''))
    ctx.assume(k < w.n)
    text = sub(s, w.start(k), w.end(k))
    parts = [text, w.piece(k), done(k)] if rev else [done(k), w.piece(k), text]
    ctx.prove('each piece and match extend what is joined', M.cat(parts) == done(k + 1))
    ctx.prove('the rest completes the text', M.cat([w.rest(k + 1), done(k + 1)] if rev else [done(k + 1), w.rest(k + 1)]) == s)


# ------------------------------------------------------- searching in reverse
class Cand(Hook):
    """a genuine match of the pattern: [s, e)"""
    pytype = re.Match
    methods = ('start', 'end', 'span')

    def __init__(self, ctx, s, e):
        self.serial = ctx.next_serial()
        self.s, self.e = s, e

    def m_start(self, ctx, g=0):
        return SInt(self.s)

    def m_end(self, ctx, g=0):
        return SInt(self.e)

    def m_span(self, ctx, g=0):
        return (SInt(self.s), SInt(self.e))


class Unknown(Hook):
    """a set about which nothing is assumed"""
    pytype = set
    methods = ('add', 'discard', 'remove', 'clear', 'update')

    def __init__(self, ctx):
        self.serial = ctx.next_serial()

    def contains(self, ctx, x):
        return ctx.choose(2) == 1

    def m_add(self, ctx, x):
        return None

    m_discard = m_add

    def truth(self, ctx):
        return ctx.choose(2) == 1

    def iterate(self, ctx):
        raise Unsupported('iteration over a set of matches')


class Limit(Hook):
    """where the last match that was yielded starts"""

    def __init__(self, ctx, t):
        self.serial = ctx.next_serial()
        self.t = t

    def havoc(self, ctx):
        self.t = ctx.fresh(IntS, 'limit')


@proof('reversed_re_finditer', [MOD + 'reversed_re_finditer'], budget=120)
def reverse_search(ctx, I):
    import heapq
    kind = 'bytes' if ctx.choose(2) else 'str'
    s = ctx.str('string', kind)
    src = ctx.str('pattern', kind)
    L = z3.Length(s.t)
    given = ctx.choose(2)
    flags = ctx.int('flags') if ctx.choose(2) else None
    limit = ctx.ghost['limit'] = Limit(ctx, L)

    def cand(ctx, lo, end):
        e = ctx.fresh(IntS, 'e')
        ctx.assume(z3.And(lo <= e, e <= end))
        return Cand(ctx, lo, e)

    class P(Hook):
        pytype = re.Pattern
        methods = ('match', 'finditer')

        def m_match(self, ctx, text, start=0, end=None):
            ctx.prove('matches are looked for in the text itself', text is s)
            lo = M.numterm(start)
            hi = L if end is None else M.numterm(end)
            ctx.prove('matches are looked for inside the text', z3.And(lo >= 0, lo <= L, hi <= L))
            if ctx.choose(2) or not ctx.branch(lo <= hi):
                return None
            return cand(ctx, lo, hi)

        def m_finditer(self, ctx, text):
            ctx.prove('matches are looked for in the text itself', text is s)

            def get(ctx, k):
                lo = ctx.fresh(IntS, 'first')
                ctx.assume(z3.And(lo >= 0, lo <= L))
                return cand(ctx, lo, L)
            return ctx.interp.call(iter, [plist(ctx, ctx.int('matches', 0).t, get)], {})
    pat = P()
    pat.serial = ctx.next_serial()

    def comp(ctx, p, flags=0):
        ctx.prove('the given pattern is compiled with the given flags', p is src)
        ctx.prove('the given pattern is compiled with the given flags', M.numterm(flags) == (asked.t if asked is not None else 0))
        return pat
    asked = flags
    ctx.overrides[re.compile] = comp
    ctx.overrides[set] = lambda ctx, *a: Unknown(ctx)

    def plist(ctx, n, get):
        l = PList(ctx, [], prefix=Abstract(n, None, None, {}, getter=get))
        l.prefix.elem, l.prefix.cache = frozenset(), {}
        l.prefix.made = True
        return l

    def element(ctx, k):
        """an arbitrary candidate"""
        lo = ctx.fresh(IntS, 'start')
        ctx.assume(z3.And(lo >= 0, lo <= L))
        m = cand(ctx, lo, L)
        return (SInt(-m.e), SInt(m.s), m)

    def genuine(v):
        if not (isinstance(v, tuple) and len(v) == 3 and isinstance(v[2], Cand)):
            return False
        m = v[2]
        return z3.And(M.numterm(v[0]) == -m.e, M.numterm(v[1]) == m.s, 0 <= m.s, m.s <= m.e, m.e <= L)

    def fine(l):
        if l.prefix is not None and not getattr(l.prefix, 'made', False):
            return False
        gs = [genuine(v) for v in l.items]
        return False if any(g is False for g in gs) else z3.And(True, *gs)

    def shuffled(ctx, l, n):
        ctx.prove('the candidates are genuine matches', fine(l))
        ctx.touched(l)
        l.prefix, l.items = plist(ctx, z3.simplify(n), element).prefix, []

    def size(l):
        return M.numterm(M.length(I, l))

    def heapify(ctx, l):
        shuffled(ctx, l, size(l))

    def heappop(ctx, l):
        ctx.prove('a candidate is taken only while there is one', size(l) > 0)
        r = element(ctx, 0)
        shuffled(ctx, l, size(l) - 1)
        return r

    def heapreplace(ctx, l, x):
        ctx.prove('a candidate is taken only while there is one', size(l) > 0)
        ctx.prove('the candidates are genuine matches', genuine(x))
        r = element(ctx, 0)
        shuffled(ctx, l, size(l))
        return r

    def heappush(ctx, l, x):
        ctx.prove('the candidates are genuine matches', genuine(x))
        shuffled(ctx, l, size(l) + 1)
    for f in (heapify, heappop, heapreplace, heappush):
        ctx.overrides[getattr(heapq, f.__name__)] = f

    def inv(st):
        return [('the limit is in the text', z3.And(limit.t >= 0, limit.t <= L))]

    def cands(st):
        out = []
        for nm, v in sorted(st.frame.locals.items()):
            if isinstance(v, PList):
                out.append((nm + ' are genuine matches', fine(v)))
            elif isinstance(v, SInt) or type(v) is int:
                out.append((nm + ' is where the last match starts', M.numterm(v) == limit.t))
                out.append((nm + ' is before the text or in it', z3.And(M.numterm(v) >= -1, M.numterm(v) <= L)))
        return out

    def make(st, path):
        if path[-1] == '[]' and isinstance(M.read_path(I, st.frame, path), PList) and path[0] != 'out':
            return lambda ctx, st: plist(ctx, ctx.int('candidates', 0).t, element)
        return None
    ctx.loops[('*', '*')] = LoopSpec(inv, cands, make=make)

    def at_yield(ctx, f, v):
        ctx.cover('match')
        ctx.prove('a genuine match is yielded', isinstance(v, Cand))
        if not isinstance(v, Cand):
            return
        ctx.prove('a genuine match is yielded', z3.And(0 <= v.s, v.s <= v.e, v.e <= L))
        ctx.prove('the matches do not overlap and go from right to left', v.e <= limit.t)
        ctx.touched(limit)
        limit.t = v.s
    ctx.ghost[('yield', MOD + 'reversed_re_finditer')] = at_yield
    args = [pat if given else src, s] + ([flags] if flags is not None else [])
    k, r = I.outcome(lambda: I.collect(I.call(T.reversed_re_finditer, args, {})))
    ctx.prove('searching does not raise', k == 'return')
