"""lines_strip_indent: the open indentation levels form a stack of increasing columns; each line is examined at its yield."""
import z3
from pydv.framework import proof
from pydv.ctx import Unsupported
from pydv.values import *
from pydv import models as M
from pydv.interp import LoopSpec
import big.text as T
from .lineslib import *
from .L03 import LST, RST, strip_functions

NOTE = 'lines_strip_indent under contract for any sequence of lines: at an arbitrary line the level is decided against an arbitrary stack of open levels'
ASSUMPTIONS = ['each line comes with its own info object', 'the tab width is at least 1 (an expanded leading has no width only if it is empty)', 'clip_leading and clip_trailing as proved in L01',
               'str.lstrip removes exactly the whitespace in front']
Q = MOD + 'lines_strip_indent'


class Levels:
    """the columns of the open levels when an iteration begins: increasing, beyond the first column"""

    def __init__(self, ctx, src):
        self.f = z3.Function(f'level!{ctx.next_serial()}', IntS, IntS)
        self.src = src
        self.seen = []
        self.n = ctx.int('open levels', 0).t

    def __call__(self, ctx, j):
        t = self.f(j)
        if not any(j.eq(q) for q in self.seen):
            ctx.assume(z3.Implies(j >= 0, t > self.src.column))
            for q in self.seen:
                ctx.assume(z3.Implies(z3.And(j >= 0, q >= 0), z3.And((j < q) == (t < self.f(q)), (j == q) == (t == self.f(q)))))
            self.seen.append(j)
        return t

    def list(self, ctx, n):
        l = PList(ctx, [], prefix=Abstract(n, None, None, {}, getter=lambda c, j: SInt(self(c, z3.simplify(j)))))
        l.prefix.elem, l.prefix.cache = frozenset(), {}
        return l


@proof('lines_strip_indent', [Q], budget=120)
def indent(ctx, I):
    kind = 'bytes' if ctx.choose(2) else 'str'
    src = Source(ctx, kind)
    ctx.ghost['strip'] = strip_functions
    ctx.assume(LST(E) == E)
    st0 = {'old': Levels(ctx, src)}
    ctx.assume(st0['old'].n == 0)

    def width(t):
        ctx.assume(z3.And(DETABLEN(t) >= 0, (DETABLEN(t) == 0) == (t == E)))
        return DETABLEN(t)

    def blank_pair(ctx, k):
        """the pair waiting for line k: blank, all of it in trailing"""
        info = Info(ctx, src, k)
        ctx.assume(blank(k))
        info.cur, info.lead, info.trail, info.clips = E, E, z3.SubString(info.whole, 0, z3.Length(info.whole) - z3.Length(info.end)), 1
        return (info, SStr(E, kind) if ctx.choose(2) else (b'' if kind == 'bytes' else ''))

    def current():
        return src.pairs[-1][0] if src.pairs else None

    def blank(k):
        return LST(src.LINE(k)) == E

    def correct(D, info):
        """D is the level of the line that is being looked at, given the levels open before it"""
        lv = st0['old']
        if info is None:
            return D == 0
        t = src.LINE(info.k)
        lead = info.lead0 + z3.SubString(t, 0, z3.Length(t) - z3.Length(LST(t)))
        c = src.column + z3.If(lead == E, z3.IntVal(0), width(lead))
        n = lv.n
        top = lv(ctx, n - 1)
        return z3.If(lead == E, D == 0, z3.If(z3.Or(n == 0, c > top), D == n + 1, z3.And(1 <= D, D <= n, lv(ctx, z3.simplify(D - 1)) == c)))

    def waiting(l, k):
        """the lines waiting are the blank ones before line k"""
        gs = []
        n = M.numterm(M.length(I, l))
        for j, v in enumerate(l.items):
            at = k - len(l.items) + j
            info = v[0] if isinstance(v, tuple) and len(v) == 2 else None
            if not isinstance(info, Info):
                return False
            gs.append(z3.And(info.k == at, M.term(v[1]) == E, info.cur == E, info.lead == E, info.clips == 1, blank(at)))
        return z3.And(True, *gs)

    # ---- the loop over the lines
    def outer(st):
        bl, lv, ind = st['blank_lines'], st['leadings'], st['indent']
        out = []
        info = current()
        if info is not None:
            # end of an iteration: how the open levels changed
            old = st0['old']
            same = lambda q: M.numterm(M.list_getitem(I, lv, SInt(q))) == old(ctx, q)
            n = M.numterm(M.length(I, lv))
            q = ctx.fresh(IntS, 'q')
            if ctx.branch(blank(info.k)):
                out.append(('a blank line leaves the levels alone', n == old.n))
                if ctx.branch(z3.And(q >= 0, q < n)):
                    out.append(('a blank line leaves the levels alone', same(q)))
            else:
                out.append(('the level of the line is open', z3.And(n == M.numterm(ind), correct(n, info))))
                if ctx.branch(z3.And(q >= 0, q < n - 1)):
                    out.append(('the enclosing levels stay open', same(q)))
                if ctx.branch(n >= 1):
                    out.append(('the innermost level is that of the line', M.numterm(M.list_getitem(I, lv, SInt(z3.simplify(n - 1)))) == info.column(ctx)))
        else:
            out.append(('levels before the line', M.numterm(M.length(I, lv)) == st0['old'].n))
        out += [('the level is the number of open levels', M.numterm(ind) == M.numterm(M.length(I, lv))),
                ('every line is yielded or waits', M.numterm(M.length(I, st.out)) + M.numterm(M.length(I, bl)) == st.k),
                ('the lines waiting are the blank ones before', waiting(bl, st.k))]
        return out

    def make_levels(ctx, st):
        st0['old'] = Levels(ctx, src)
        return st0['old'].list(ctx, st0['old'].n)

    def make_waiting(ctx, st):
        n = ctx.int('waiting', 0)
        l = PList(ctx, [], prefix=Abstract(n.t, None, None, {}, getter=lambda c, j: blank_pair(c, z3.simplify(st.k - n.t + j))))
        l.prefix.elem, l.prefix.cache = frozenset(), {}
        return l

    # ---- popping levels
    def inner(st):
        old = st0['old']
        n = M.numterm(M.length(I, st['leadings']))
        c = current().column(ctx)
        return [('levels are closed from the innermost', z3.And(n >= 0, n <= old.n)),
                ('the level is the number of open levels', M.numterm(st['indent']) == n),
                ('the levels closed are too deep', z3.Or(n == old.n, old(ctx, n) > c))]

    def shrink(ctx, st):
        return st0['old'].list(ctx, ctx.int('still open', 0).t)

    # ---- yielding the blank lines that wait
    def flush(st):
        return [('the waiting lines are yielded in order', M.numterm(M.length(I, st.out)) == st0['out0'] + st.k)]

    def at_yield(ctx, f, v):
        info0 = current()
        ctx.prove('a pair of info and line is yielded', isinstance(v, tuple) and len(v) == 2)
        info, line = v
        ctx.prove('a pair of info and line is yielded', isinstance(info, Info) and M.is_text(line) and M.kind_of(line) == kind)
        j = M.numterm(M.length(I, f.out))
        ctx.prove('every line is yielded once, in order', info.k == j)
        ctx.prove('leading + line + trailing + end is the original line', info.lead + M.term(line) + info.trail + info.end == info.whole)
        t = src.LINE(info.k)
        ctx.prove('exactly the whitespace in front is removed', M.term(line) == LST(t))
        ctx.prove('the level is recorded', 'indent' in info.fields and isinstance(info.fields['indent'], (int, SInt)))
        D = M.numterm(info.fields['indent'])
        if info0 is not None:
            ctx.prove('lines wait only for the next line that is not blank', z3.Not(blank(info0.k)))
            ctx.cover('blank line waiting' if info is not info0 else 'line')
        else:
            ctx.cover('blank line at the end')
        ctx.prove('the level is that of the (next) line that is not blank, or 0 at the end', correct(D, info0))
    ctx.ghost[('yield', Q)] = at_yield

    def inv(st):
        v = st.view
        if v is None:
            return inner(st)
        if getattr(v, 'lines', False):
            return outer(st)
        if 'out0' not in st0 or st0.get('view') is not v:
            st0['view'], st0['out0'] = v, M.numterm(M.length(I, st.out))
        return flush(st)

    def mk_leadings(ctx, st):
        if st.view is None:
            return shrink(ctx, st)
        return make_levels(ctx, st)
    ctx.loops[(Q, '*')] = LoopSpec(inv, make={('local', 'leadings'): mk_leadings, ('local', 'blank_lines'): make_waiting})
    k, r = I.outcome(lambda: I.collect(I.call(T.lines_strip_indent, [src], {})))
    if k == 'raise':
        ctx.cover('does not return to an enclosing level')
        ctx.prove('only IndentationError is raised', r.cls is IndentationError)
        D = ctx.fresh(IntS, 'D')
        ctx.prove('it is raised only when no enclosing level has that column', z3.Not(correct(D, current())))
        return
    ctx.prove('every line has been yielded', M.numterm(M.length(I, r)) == src.n)
