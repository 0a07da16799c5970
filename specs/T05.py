"""multistrip over a contract of re for the pattern of the separators; the pattern itself is under contract (seplib)."""
import re
import z3
from pydv.framework import proof
from pydv.ctx import Unsupported
from pydv.values import *
from pydv import models as M
from pydv.models import Hook
import big.text as T
from .seplib import *

NOTE = 'multistrip is under contract for any text and any collection of separators, the pattern built from the separators for any number of separators'
ASSUMPTIONS = ['re: ^P matches the longest leading run of separators that regular-expression backtracking finds: it matches iff the text starts with a separator and what follows the match starts with none',
               're: the leftmost match of P\\Z starts where the longest trailing concatenation of separators starts']
STARTS = z3.Function('starts with a separator', StringS, BoolS)
ENDS = z3.Function('ends with a separator', StringS, BoolS)
RUN = z3.Function('is a concatenation of separators', StringS, BoolS)
RE = z3.String('pattern text')


class Match(Hook):
    methods = ('start', 'end', 'span', 'group')

    def __init__(self, ctx, b, e):
        self.serial = ctx.next_serial()
        self.b, self.e = b, e

    def truth(self, ctx):
        return True

    def m_start(self, ctx, g=0):
        if g != 0:
            raise Unsupported('a group')
        return SInt(self.b)

    def m_end(self, ctx, g=0):
        if g != 0:
            raise Unsupported('a group')
        return SInt(self.e)

    def m_span(self, ctx, g=0):
        return (self.m_start(ctx, g), self.m_end(ctx, g))


def leading(ctx, s):
    t = M.term(s)
    n = z3.Length(t)
    if not ctx.branch(STARTS(t)):
        return None
    e = ctx.fresh(IntS, 'end of the run')
    ctx.assume(z3.And(e > 0, e <= n))
    ctx.assume(RUN(z3.SubString(t, 0, e)))
    ctx.assume(z3.Not(STARTS(z3.SubString(t, e, n - e))))
    ctx.assume(z3.Implies(ENDS(z3.SubString(t, e, n - e)), ENDS(t)))
    ctx.ghost['left end'] = e
    return Match(ctx, z3.IntVal(0), e)


def trailing(ctx, s):
    t = M.term(s)
    n = z3.Length(t)
    if not ctx.branch(ENDS(t)):
        return None
    b = ctx.fresh(IntS, 'start of the run')
    ctx.assume(z3.And(b >= 0, b < n))
    ctx.assume(RUN(z3.SubString(t, b, n - b)))
    ctx.assume(z3.Not(ENDS(z3.SubString(t, 0, b))))
    ctx.assume(z3.Implies(STARTS(z3.SubString(t, 0, b)), STARTS(t)))
    ctx.ghost['right end'] = (t, b)
    return Match(ctx, b, n)


class Pattern(Hook):
    pytype = re.Pattern
    methods = ('match', 'search')

    def __init__(self, ctx, p):
        self.serial = ctx.next_serial()
        self.p = p

    def m_match(self, ctx, s):
        return decide(ctx, 'match', self.p, s, 0)

    def m_search(self, ctx, s):
        return decide(ctx, 'search', self.p, s, 0)


def decide(ctx, how, p, s, flags):
    ctx.prove('the pattern is used without flags', flags == 0)
    t = M.term(p)
    head, tail = (z3.StringVal(x) for x in ('^', '\\Z'))
    top = z3.StringVal('\\A')
    ctx.prove('the pattern and the text are of the same type', M.kind_of(p) == M.kind_of(s))
    if ctx.holds(z3.Or(t == head + RE, t == top + RE)) or how == 'match' and ctx.holds(t == RE):
        return leading(ctx, s)
    if how == 'search' and ctx.holds(t == RE + tail):
        return trailing(ctx, s)
    raise Unsupported('a pattern that is not a run of separators at one end of the text')


@proof('multistrip', [MOD + 'multistrip'], budget=90)
def strip(ctx, I):
    kind = 'bytes' if ctx.choose(2) else 'str'
    s = ctx.str('s', kind)
    ctx.assume(z3.And(z3.Not(STARTS(E)), z3.Not(ENDS(E))))
    how, arg, n, at = collection(ctx, kind)
    asked = []

    def contract(ctx, separators, separators_is_bytes, separate=False, keep=False):
        same(ctx, separators, n, at)
        ctx.prove('the pattern is of the type of the text', separators_is_bytes is (kind == 'bytes'))
        ctx.prove('the pattern matches runs of separators', separate is False and keep is False)
        asked.append(1)
        return SStr(RE, kind)
    ctx.overrides[TO_RE] = ctx.overrides[TO_RE2] = contract
    ctx.overrides[re.match] = lambda ctx, p, s, flags=0: decide(ctx, 'match', p, s, flags)
    ctx.overrides[re.search] = lambda ctx, p, s, flags=0: decide(ctx, 'search', p, s, flags)
    ctx.overrides[re.compile] = lambda ctx, p, flags=0: Pattern(ctx, p) if flags == 0 else ctx.prove('the pattern is used without flags', False)
    kw = {}
    lr = []
    for name in ('left', 'right'):
        c = ctx.choose(3)
        if c < 2:
            kw[name] = c == 1
        lr.append(c != 0)
    k, r = I.outcome(lambda: I.call(T.multistrip, [s, arg], kw))
    if ctx.branch(n == 0):
        if how != 'any':
            ctx.unprobed.clear()        # nothing to look at
        ctx.prove('no separators raises ValueError', k == 'raise' and r.cls is ValueError)
        return
    if k == 'raise':
        refused(ctx, how, n, r)
        return
    ctx.prove('the result is text of the same type', M.is_text(r) and M.kind_of(r) == kind)
    t = M.term(r)
    if not lr[0] and not lr[1]:
        examine(ctx)
        ctx.prove('no side requested: the text is returned', t == s.t)
        return
    full = s.t
    L_ = z3.Length
    a = ctx.ghost.get('left end', z3.IntVal(0))
    m = L_(t)
    ctx.prove('the result is a part of the text', t == z3.SubString(full, a, m))
    ctx.prove('what is removed in front is a concatenation of separators', z3.Or(a == 0, RUN(z3.SubString(full, 0, a))))
    c = ctx.ghost.get('right end')
    if c is None:
        ctx.prove('nothing else is removed', a + m == L_(full))
    else:
        u, b = c
        ctx.prove('what is removed behind is a concatenation of separators', z3.And(a + m + L_(u) - b == L_(full), RUN(z3.SubString(u, b, L_(u) - b)), z3.SuffixOf(u, full)))
    if lr[0]:
        ctx.prove('no separator is left at the left end', z3.Not(STARTS(t)))
    else:
        ctx.prove('the left end is left alone', a == 0)
    if lr[1]:
        ctx.prove('no separator is left at the right end', z3.Not(ENDS(t)))
    else:
        ctx.prove('the right end is left alone', z3.SuffixOf(t, full))
    ctx.cover('stripped')


PROOFS = pattern_proofs(False)
