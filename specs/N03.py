"""gently_title: the text is an arbitrary sequence of characters; what a character turns into is stated per character."""
import z3
from pydv.framework import proof
from pydv.ctx import Unsupported
from pydv.values import *
from pydv import models as M
from pydv.models import Hook
from pydv.interp import LoopSpec
from pydv.builtins_model import CASE, PRED
import big.text as T

NOTE = 'gently_title under contract for texts of any length, str and bytes, with the default and with given apostrophes and quotes; the invariant relating the control state of the loop to the word before the character is found by iteration and proved inductive'
ASSUMPTIONS = ['upper(), isspace() of one character are those of str and bytes', 'apostrophes and quotes have no case', 'upper() of a character is not "DO"']

UPPER, ISSPACE = CASE['upper'], PRED['isspace']
CH = z3.Function('character', IntS, StringS)
ST = z3.Function('word before', IntS, IntS)            # 0 empty, 1 only quotes, 2 exactly D or O, 3 that and an apostrophe, 4 other
OUT = z3.Function('text up to', IntS, StringS)
S = z3.StringVal


class Given(Hook):
    """an iterable of apostrophes or quotes"""

    def __init__(self, ctx, name, kind, bad=None):
        self.serial = ctx.next_serial()
        self.kind, self.bad = kind, bad
        self.n = ctx.int(name + '.n', 1).t
        self.at = z3.Function(name, IntS, StringS)
        self.has = z3.Function('in ' + name, StringS, BoolS)
        self.where = z3.Function('where in ' + name, StringS, IntS)
        self.pytype = list

    def get(self, ctx, k):
        if self.bad is not None:
            w, v = self.bad
            if ctx.branch(k == w):
                return v
        t = self.at(k)
        ctx.assume(t != S(''))
        ctx.assume(self.has(t))
        return SStr(t, self.kind)

    def iterate(self, ctx):
        return IterView(self.n, self.get)

    def length(self, ctx):
        return SInt(self.n)

    def truth(self, ctx):
        return ctx.branch(self.n > 0)

    def pred(self, ctx):
        def p(c):
            w = self.where(c)
            ctx.assume(z3.Implies(self.has(c), z3.And(w >= 0, w < self.n, self.at(w) == c)))
            ctx.ghost['witnesses'].append((self, w))
            return self.has(c)
        return p


class Chars(Hook):
    methods = ('upper', 'lower', 'title', 'replace', 'split')

    def __init__(self, ctx, kind, at):
        self.serial = ctx.next_serial()
        self.kind, self.at = kind, at
        self.pytype = bytes if kind == 'bytes' else str
        self.n = ctx.int('n', 0).t

    def length(self, ctx):
        return SInt(self.n)

    def truth(self, ctx):
        return ctx.branch(self.n > 0)

    def iterate(self, ctx):
        if self.kind == 'bytes':
            raise Unsupported('iteration over bytes gives ints')
        return IterView(self.n, self.at)

    def getitem(self, ctx, i):
        if isinstance(i, slice):
            if i.step is None and i.start is not None and i.stop is not None and ctx.holds(M.numterm(i.stop) == M.numterm(i.start) + 1):
                return self.at(ctx, z3.simplify(M.numterm(i.start)))
        elif self.kind == 'str':
            return self.at(ctx, z3.simplify(M.numterm(i)))
        raise Unsupported('slice of the text')


def world(ctx, I, kind, ap, dq):
    by = kind == 'bytes'
    lits = lambda c, ls: z3.Or(*[c == S(x if isinstance(x, str) else x.decode('latin-1')) for x in ls])
    is_ap = ap or (lambda c: lits(c, [b"'"] if by else T.apostrophes))
    is_dq = dq or (lambda c: lits(c, [b'"'] if by else T.double_quotes))
    ctx.folds['joined'] = M.JOINED
    ctx.assume(ST(0) == 0)
    ctx.assume(OUT(0) == S(''))

    def at(ctx, k):
        c = CH(k)
        a, q = is_ap(c), z3.Or(is_ap(c), is_dq(c))
        sp = z3.Or(ISSPACE(c), c == S('('))
        u = UPPER(c)
        st = ST(k)
        ctx.assume(z3.Length(c) == 1)
        ctx.assume(z3.Implies(q, u == c))
        ctx.assume(z3.Not(z3.And(q, sp)))                   # whitespace and "(" are not quotes
        ctx.assume(z3.And(u != S(''), u != S('DO')))
        ctx.assume(z3.Implies(ISSPACE(c), u == c))
        ctx.assume(UPPER(u) == u)
        ctx.assume(z3.And(st >= 0, st <= 4))
        ctx.assume(z3.Implies(st == 3, z3.Not(q)))          # more quotes after O': not specified
        out, nxt = c, 4
        for j in range(5):
            if ctx.branch(st == j):
                break
        if ctx.branch(sp):
            nxt = 0
        elif j in (0, 1, 3):
            out = u
            nxt = 1 if j != 3 and ctx.branch(q) else 2 if j == 0 and ctx.branch(z3.Or(u == S('D'), u == S('O'))) else 4
        elif j == 2 and ctx.branch(a):
            nxt = 3
        ctx.assume(ST(k + 1) == nxt)
        ctx.assume(OUT(k + 1) == z3.Concat(OUT(k), out))
        return SStr(c, kind)

    s = Chars(ctx, kind, at)

    def rel(st):
        return [(j, ST(st.k) == j) for j in range(5)]

    def cands(st):
        out = []
        for n, v in sorted(st.frame.locals.items()):
            if isinstance(v, PList) and (v.prefix is None or 'joined' in v.prefix.folds):
                try:
                    out.append((n + ' is the text so far', M.fold_of(I, v, 'joined') == OUT(st.k)))
                except Unsupported:
                    pass
            elif isinstance(v, SStr) or isinstance(v, str):
                out.append((n + ' is the text so far', M.term(v) == OUT(st.k)))
        if st.frame.out is not None and not st.frame.out.items:
            out.append(('what was generated is the text so far', M.fold_of(I, st.frame.out, 'joined') == OUT(st.k)))
        return out
    ctx.loops[('*', '*')] = LoopSpec(rel=rel, cands=cands, when=lambda view: view is not None and ctx.holds(M.term(view.n) == s.n))
    return s




def examine(ctx, I):
    """no element of a valid iterable makes a loop or comprehension over it raise"""
    for b in list(ctx.unprobed):
        i = ctx.fresh(IntS, 'i')
        ctx.assume(z3.And(i >= 0, i < M.term(b.n)))
        k, r = I.outcome(lambda: b.probe(ctx, i))
        ctx.prove('a valid element is accepted', k == 'return')


def make(kind, given_ap, given_dq):
    name = f'{kind}' + (', given apostrophes' if given_ap else '') + (', given quotes' if given_dq else '')

    @proof(name, ['text.gently_title'], budget=100)
    def gently_title(ctx, I):
        ctx.ghost['witnesses'] = ws = []
        ctx.ghost['instances'] = lambda ctx, comp: [w for g, w in ws if z3.simplify(M.term(comp.n)).eq(z3.simplify(g.n))]
        ap = Given(ctx, 'apostrophes', kind) if given_ap else None
        dq = Given(ctx, 'double quotes', kind) if given_dq else None
        s = world(ctx, I, kind, ap and ap.pred(ctx), dq and dq.pred(ctx))
        kw = {}
        if ap is not None:
            kw['apostrophes'] = ap
        if dq is not None:
            kw['double_quotes'] = dq
        k, r = I.outcome(lambda: I.call(T.gently_title, [s], kw))
        ctx.prove('every text can be titled', k == 'return')
        if k != 'return':
            return
        examine(ctx, I)
        ctx.prove('the result is of the type of the text', M.is_text(r) and M.kind_of(r) == kind)
        ctx.prove('every character is kept or capitalised as stated', M.term(r) == OUT(s.n))
        ctx.cover(kind)
    PROOFS.append(gently_title)


PROOFS = []
for kind in ('str', 'bytes'):
    for j in range(4):
        make(kind, j & 1, j & 2)


@proof('invalid', ['text.gently_title'])
def invalid(ctx, I):
    kind = 'bytes' if ctx.choose(2) else 'str'
    other = 'str' if kind == 'bytes' else 'bytes'
    bad = ctx.fresh(IntS, 'bad')
    wrong = [ctx.str('other', other), '' if kind == 'str' else b'', ctx.int('number'), None][ctx.choose(4)]
    empty = ctx.choose(2)
    g = Given(ctx, 'given', kind, None if empty else (bad, wrong))
    if empty:
        g.n = z3.IntVal(0)
    else:
        ctx.assume(z3.And(bad >= 0, bad < g.n))
    ctx.ghost['instances'] = lambda ctx, comp: [bad]
    good = Given(ctx, 'good', kind)
    s = ctx.str('text', kind)
    which = ctx.choose(2)
    names = ('apostrophes', 'double_quotes')
    kw = {names[which]: g}
    if ctx.choose(2):
        kw[names[1 - which]] = good
    ctx.loops[('*', '*')] = LoopSpec(when=lambda view: view is not None and not ctx.holds(z3.Or(M.term(view.n) == g.n, M.term(view.n) == good.n)))
    k, r = I.outcome(lambda: I.call(T.gently_title, [s], kw))
    if k != 'raise':
        # a loop over the iterable may have been described instead of run: then the element makes it raise
        hit = False
        for b in list(ctx.unprobed) + ctx.ghost.get('looked at', []):
            if ctx.holds(M.term(b.n) == g.n):
                k, r = I.outcome(lambda: b.probe(ctx, bad))
                if k == 'raise':
                    hit = True
                    break
    ctx.unprobed.clear()
    ctx.prove('an invalid iterable raises TypeError or ValueError', k == 'raise' and r.cls in (TypeError, ValueError))
