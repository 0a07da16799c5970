"""split_quoted_strings over the contract of multisplit: the scanner is specified as a recursion over the pieces of the text."""
import z3
from pydv.framework import proof
from pydv.ctx import Unsupported
from pydv.values import *
from pydv import models as M
from pydv.models import Hook
from pydv.interp import LoopSpec
import big.text as T

NOTE = 'the scanner is under contract for texts of any length and marks of any text; the number of marks is up to three (bounded), any number in the comparison with the reference'
BOUNDED = ['the number of quote marks: up to three of arbitrary text in the proofs, more in the comparison with the reference scanner (see evidence)']
ASSUMPTIONS = ['multisplit(keep=AS_PAIRS, separate=True) cuts the text at the separators, the longest one first (T01, T02)', 'the order of the separators given to multisplit does not matter (T01)',
               'a text contains a line break iff it has more than one line or its last character followed by another one does']
PROOFS = []
S = z3.StringVal
SeqS = z3.SeqSort(StringS)
LIT = z3.Function('piece', IntS, StringS)
SEP = z3.Function('separator after it', IntS, StringS)
PREF = z3.Function('text before the piece', IntS, StringS)
Q = z3.Function('open quote', IntS, StringS)
B = z3.Function('segment so far', IntS, StringS)
OUT = z3.Function('segments before', IntS, SeqS)
JO = z3.Function('segments before, joined', IntS, StringS)
FIRST = z3.Function('still in the quote the text began in', IntS, BoolS)
NLINES = z3.Function('lines', StringS, IntS)


def broken(t, kind):
    return z3.Or(NLINES(t) > 1, NLINES(z3.Concat(z3.SubString(t, z3.Length(t) - 1, 1), S('x'))) > 1)


LISTED = M.Fold('listed', SeqS, lambda v: z3.Concat(*[z3.Unit(M.term(x)) for x in v]), lambda a, b: z3.Concat(a, b), z3.Empty(SeqS), 'listed')


class Pairs(Hook):
    def __init__(self, ctx, n, at):
        self.serial = ctx.next_serial()
        self.n, self.at = n, at

    def iterate(self, ctx):
        return IterView(self.n, self.at)


def same(a, b):
    """Equality of two lists; part by part when they have as many parts (which implies it)."""
    def parts(t):
        t = z3.simplify(t)
        return [y for x in t.children() for y in parts(x)] if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT else [t]
    x, y = parts(a), parts(b)
    if len(x) != len(y):
        return a == b
    unit = lambda t: z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_UNIT
    return z3.And(*[p.arg(0) == q.arg(0) if unit(p) and unit(q) else p == q for p, q in zip(x, y)])


def joined(I, v, t):
    if isinstance(v, PList) and (v.prefix is None or 'joined' in v.prefix.folds):
        try:
            return M.fold_of(I, v, 'joined') == t
        except Unsupported:
            pass
    return None


def make(kind, nq, nm, escaped, opened):
    name = f'{kind}, {nq} marks, {nm} multi-line' + (', with an escape' if escaped else '') + (', beginning in a quote' if opened else '')

    @proof(name, ['text.split_quoted_strings'], budget=200, max_paths=6000)
    def split(ctx, I):
        ctx.folds['joined'] = M.JOINED
        ctx.folds['listed'] = LISTED
        empty = S('')
        lift = (lambda x: x) if kind == 'str' else (lambda x: x.encode())
        marks = [ctx.str(f'mark{i}', kind) for i in range(nq + nm)]
        ms = [m.t for m in marks]
        for i, m in enumerate(ms):
            ctx.assume(m != empty)
            for o in ms[:i]:
                ctx.assume(m != o)
        esc = ctx.str('escape', kind) if escaped else lift('')
        e = M.term(esc)
        tokens = list(ms)
        if escaped:
            ctx.assume(e != empty)
            tokens += [z3.Concat(e, m) for m in ms] + [z3.Concat(e, e)]
        text = ctx.str('text', kind)
        state = marks[ctx.choose(len(marks))] if opened else [lift(''), None][ctx.choose(2)]
        start = M.term(state) if opened else empty
        n = ctx.int('pieces', 1).t
        now = ctx.ghost
        ctx.assume(z3.And(Q(0) == start, B(0) == empty, OUT(0) == z3.Empty(SeqS), JO(0) == empty, PREF(0) == empty, FIRST(0) == (start != empty), PREF(n) == text.t))
        is_mark = lambda t: z3.Or(*[t == m for m in ms])
        single = lambda t: z3.Or(*[t == m for m in ms[:nq]]) if nq else z3.BoolVal(False)

        def seg(a, b, c):
            return z3.Concat(z3.Unit(a), z3.Unit(b), z3.Unit(c))

        def at(ctx, k):
            lit, sep = LIT(k), SEP(k)
            now['position'], now['out'] = k, OUT(k)
            ctx.assume(z3.Implies(k < n - 1, z3.Or(*[sep == t for t in tokens])))
            ctx.assume(z3.Implies(k >= n - 1, sep == empty))
            ctx.assume(PREF(k + 1) == z3.Concat(PREF(k), lit, sep))
            ctx.assume(z3.Implies(FIRST(k), Q(k) != empty))
            ctx.assume(z3.Or(Q(k) == empty, is_mark(Q(k))))
            seen = z3.Concat(B(k), lit)
            if not ctx.branch(Q(k) != empty):
                ctx.assume(z3.Not(FIRST(k + 1)))
                if ctx.branch(is_mark(sep)):            # a quote begins
                    some = ctx.branch(seen != empty)
                    ctx.assume(z3.And(Q(k + 1) == sep, B(k + 1) == empty))
                    now['out'] = z3.Concat(OUT(k), seg(empty, seen, empty)) if some else OUT(k)
                    ctx.assume(OUT(k + 1) == now['out'])
                    ctx.assume(JO(k + 1) == z3.Concat(JO(k), seen))
                    return (SStr(lit, kind), SStr(sep, kind))
            elif ctx.branch(sep == Q(k)):               # it ends at the same mark
                now['closing'] = (k, seen)
                first = ctx.branch(FIRST(k))
                ctx.assume(z3.And(Q(k + 1) == empty, B(k + 1) == empty, z3.Not(FIRST(k + 1))))
                now['out'] = z3.Concat(OUT(k), seg(empty if first else Q(k), seen, sep))
                ctx.assume(OUT(k + 1) == now['out'])
                ctx.assume(JO(k + 1) == z3.Concat(JO(k), empty if first else Q(k), seen, sep))
                return (SStr(lit, kind), SStr(sep, kind))
            else:
                ctx.assume(FIRST(k + 1) == FIRST(k))
            ctx.assume(z3.And(Q(k + 1) == Q(k), B(k + 1) == z3.Concat(seen, sep), OUT(k + 1) == OUT(k), JO(k + 1) == JO(k)))
            return (SStr(lit, kind), SStr(sep, kind))

        def multisplit(ctx, s, separators=None, *, keep=False, maxsplit=-1, reverse=False, separate=False, strip=False):
            ctx.prove('the whole text is split', M.is_text(s) and M.kind_of(s) == kind)
            ctx.prove('the whole text is split', M.term(s) == text.t)
            ctx.prove('into pairs, at every separator, from the left', keep == T.AS_PAIRS and separate is True and maxsplit in (-1, None) and not reverse and not strip)
            it = M.iterate(I, separators)
            ctx.prove('the separators are texts', isinstance(it, list) and all(M.is_text(x) and M.kind_of(x) == kind for x in it))
            for t in tokens:
                ctx.prove('every mark and every escaped mark and escape is a separator', z3.Or(*[M.term(x) == t for x in it]))
            for x in it:
                ctx.prove('nothing else is a separator', z3.Or(*[M.term(x) == t for t in tokens]))
            return Pairs(ctx, n, at)
        ctx.overrides[T.multisplit] = multisplit
        ctx.ghost['sort'] = lambda ctx, *a, **k: None

        def splitlines(ctx, s, keepends):
            m = NLINES(M.term(s))
            ctx.assume(m >= 0)

            def getter(ctx, k):
                raise Unsupported('a line')
            l = PList(ctx)
            l.prefix = M.Abstract(m, None, None, {}, getter=getter)
            return l
        ctx.ghost['splitlines'] = splitlines

        def rel(st):
            k = st.k
            return [('outside', z3.And(Q(k) == empty, z3.Not(FIRST(k)))), ('inside', z3.And(Q(k) != empty, z3.Not(FIRST(k)))), ('inside the first', z3.And(Q(k) != empty, FIRST(k))), ('none', z3.And(Q(k) == empty, FIRST(k)))]

        def cands(st):
            k = st.k
            out = [('nothing is lost', z3.Concat(JO(k), z3.If(FIRST(k), empty, Q(k)), B(k)) == PREF(k)), ('a quote is a mark', z3.Or(Q(k) == empty, is_mark(Q(k)))), ('none is the first', z3.Implies(FIRST(k), Q(k) != empty))]
            for x, v in sorted(st.frame.locals.items()):
                if M.is_text(v):
                    out += [(x + ' is the open quote', M.term(v) == Q(k)), (x + ' is there in the first quote only', (M.term(v) != empty) == FIRST(k)), (x + ' is the segment so far', M.term(v) == B(k)), (x + ' is what the text began in', M.term(v) == start)]
                t = joined(I, v, B(k))
                if t is not None:
                    out.append((x + ' is the segment so far', t))
                    out.append((x + ' is empty at the start only', z3.Implies(M.numterm(M.length(I, v)) == 0, B(k) == empty)))
                    out.append((x + ' is empty where the segment is, before the end', z3.Implies(z3.And(B(k) == empty, k < n), M.numterm(M.length(I, v)) == 0)))
                    out.append((x + ' is not empty at the end in a quote', z3.Implies(z3.And(k == n, Q(k) != empty), M.numterm(M.length(I, v)) > 0)))
            f = st.frame
            if f.out is not None and (f.out.prefix is None or 'listed' in f.out.prefix.folds):
                out.append(('the segments so far', same(M.fold_of(I, f.out, 'listed'), now['out'] if 'position' in now and z3.simplify(now['position'] + 1).eq(z3.simplify(k)) else OUT(k))))
            return out
        ctx.loops[('*', '*')] = LoopSpec(rel=rel, cands=cands, when=lambda view: view is not None and ctx.holds(M.term(view.n) == n))
        kw = dict(escape=esc, multiline_quotes=tuple(marks[nq:]), state=state)
        k, r = I.outcome(lambda: I.collect(I.call(T.split_quoted_strings, [text, tuple(marks[:nq])], kw)))
        if k == 'raise':
            ctx.prove('only SyntaxError is raised', r.cls is SyntaxError)
            K, seen = now.get('closing') or (n, B(n))
            ctx.prove('SyntaxError means a quote of one line with a line break in it', z3.And(single(Q(K)), broken(seen, kind), seen != empty))
            return
        rest = ctx.branch(B(n) != empty)
        inside = ctx.branch(Q(n) != empty)
        first = ctx.branch(FIRST(n))
        ctx.assume(z3.Implies(FIRST(n), Q(n) != empty))
        last = empty if first or not inside else Q(n)
        seen = B(n) if rest else empty
        if inside and rest:
            ctx.prove('an unfinished quote of one line has no line break', z3.Implies(single(Q(n)), z3.Not(broken(B(n), kind))))
        if rest or inside:
            ctx.prove('the segments are those of the text', same(M.fold_of(I, r, 'listed'), z3.Concat(OUT(n), seg(last, seen, empty))))
            ctx.prove('nothing is lost', z3.Concat(JO(n), last, seen) == text.t)
        else:
            ctx.prove('the segments are those of the text', M.fold_of(I, r, 'listed') == OUT(n))
            ctx.prove('nothing is lost', JO(n) == text.t)
        ctx.cover(name)
    PROOFS.append(split)


for kind in ('str', 'bytes'):
    for nq, nm in ((1, 0), (0, 1), (1, 1)):
        for escaped in (False, True):
            for opened in (False, True):
                make(kind, nq, nm, escaped, opened)
