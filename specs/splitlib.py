"""multisplit over a contract of re.split for the pattern of the separators; every output is examined where it is yielded."""
import re
import z3
from pydv.framework import proof
from pydv.ctx import Unsupported
from pydv.values import *
from pydv import models as M
from pydv.models import Hook
from pydv.interp import LoopSpec
import big.text as T
from .seplib import *

ASSUMED = ['re.split at a pattern of separators sorted longest first (one at a time, or runs) takes at each point the longest separator; with a group the separators are in the result; at most maxsplit splits are made, 0 meaning no limit',
           'reversing a text twice gives the text; the reversal of a concatenation is the concatenation of the reversals in reverse order']
PART = z3.Function('part', IntS, StringS)        # re.split with a group: pieces at even, separators at odd positions
REV = z3.Function('reversed', StringS, StringS)


class Count(Hook):
    def __init__(self, ctx):
        self.serial = ctx.next_serial()
        self.t = z3.IntVal(0)

    def havoc(self, ctx):
        self.t = ctx.fresh(IntS, 'yielded')


class Backwards(Hook):
    """a collection of separators, each of them reversed"""
    pytype = tuple

    def __init__(self, ctx, of):
        self.serial = ctx.next_serial()
        self.of = of


def split(ctx, I, keeps, reverses, strips, limits, forms=('any', 'two', 'none')):
    kind = 'bytes' if ctx.choose(2) else 'str'
    by = kind == 'bytes'
    empty = b'' if by else ''
    s = ctx.str('s', kind)
    form = forms[ctx.choose(len(forms))]
    n = at = None
    if form == 'none':
        arg = None
    else:
        _, arg, n, at = collection(ctx, kind, (form,))
    default = T.bytes_whitespace if by else T.whitespace
    kw = {}
    keep = keeps[ctx.choose(len(keeps))]
    if keep is not None:
        kw['keep'] = keep
    reverse = reverses[ctx.choose(len(reverses))]
    if reverse is not None:
        kw['reverse'] = reverse
    strip = strips[ctx.choose(len(strips))]
    if strip is not None:
        kw['strip'] = strip
    limit = limits[ctx.choose(len(limits))]
    ms = None
    if limit == 'none':
        kw['maxsplit'] = None
    elif limit == 'all':
        kw['maxsplit'] = -1
    elif limit == 'zero':
        kw['maxsplit'] = 0
    elif limit == 'some':
        ms = ctx.int('maxsplit', 1)
        kw['maxsplit'] = ms
    sp = ctx.choose(3)
    if sp < 2:
        kw['separate'] = sp == 1
    separate = sp == 1
    made = m = ctx.int('splits', 0).t
    last = None
    if strip == T.PROGRESSIVE and ms is not None:
        # the last piece with text in it; the separators behind it go when the limit was not reached before them
        last = ctx.int('last piece with text', 0).t
        ctx.assume(z3.And(last <= made, z3.Or(last == 0, PART(2 * last) != E)))
        m = z3.If(ms.t > last, last, made)
    # ----- contracts
    stripped = []

    def multistrip(ctx, t, separators, left=True, right=True):
        ctx.prove('the text is stripped', t is s and not stripped)
        given(separators)
        stripped.append((left, right))
        return SStr(z3.String('stripped'), kind)
    ctx.overrides[T.multistrip] = multistrip

    def given(v):
        if n is None:
            ctx.prove('the default separators are the whitespace of the type', v in (default, T.bytes_whitespace_without_crlf if by else T.whitespace_without_crlf))
        else:
            same(ctx, v, n, at, nonempty=False)

    def rev(ctx, o, name=''):
        if M.is_text(o):
            return SStr(REV(M.term(o)), M.kind_of(o))
        if isinstance(o, PList) and not getattr(o, 'immutable', False):
            length = M.numterm(M.length(I, o))
            src = M.iterate(I, o)
            return abstract(ctx, length, lambda c, k: SStr(REV(M.term(src.get(c, k))), kind))
        return Backwards(ctx, o)
    ctx.overrides[T._multisplit_reversed] = rev
    pats = []

    def to_re(ctx, separators, separators_is_bytes, separate=False, keep=False):
        ctx.prove('the pattern is of the type of the text', separators_is_bytes is by)
        back = False
        if isinstance(separators, Backwards):
            given(separators.of)
            back = True
        elif n is None and isinstance(separators, tuple) and separators not in (default, T.bytes_whitespace_without_crlf if by else T.whitespace_without_crlf):
            back = True
            ctx.prove('the separators are the reversed default separators', sorted(separators) == sorted(x[::-1] for x in default))
        elif n is None and reverse:
            back = all(len(x) == 1 for x in separators)
        else:
            given(separators)
        p = SStr(z3.String('pattern text'), kind)
        pats.append((p, bool(separate), bool(keep), back))
        return p
    ctx.overrides[TO_RE] = ctx.overrides[TO_RE2] = to_re
    text = z3.String('stripped') if strip else s.t
    splits = []

    def re_split(ctx, p, t, maxsplit=0, flags=0):
        ctx.prove('the pattern is the one built for the separators', len(pats) == 1 and p is pats[0][0] and flags == 0 and not splits)
        ctx.prove('separate is honoured', pats[0][1] == separate)
        ctx.prove('the text is split from the requested end', pats[0][3] == bool(reverse))
        ctx.prove('the whole text is split', M.term(t) == (REV(text) if reverse else text))
        if ms is None:
            ctx.prove('all splits are made', M.numterm(maxsplit) == 0)
        else:
            ctx.prove('at most maxsplit splits are made', z3.Or(M.numterm(maxsplit) == ms.t, z3.And(M.numterm(maxsplit) == 0, text == E)))
            ctx.assume(made <= ms.t)
        ctx.assume(z3.Implies(text == E, z3.And(made == 0, PART(0) == E, REV(E) == E)))
        group = pats[0][2]
        splits.append(group)

        def part(c, k):
            k = z3.simplify(k)
            if last is not None:
                c.assume(z3.Implies(z3.And(k % 2 == 0, k > 2 * last, k <= 2 * made), PART(k) == E))
            return SStr(PART(k), kind)
        if group:
            return abstract(ctx, 2 * made + 1, part)
        return abstract(ctx, made + 1, lambda c, k: part(c, 2 * k))
    ctx.overrides[re.split] = re_split

    # ----- the expected outputs
    def out(j):
        return z3.simplify(REV(PART(2 * m - j)) if reverse else PART(j))
    pairs = keep is not None and keep is not False and keep != T.ALTERNATING
    whole = not keep
    total = 2 * m + 2 if pairs else 2 * m + 1 if keep else m + 1

    def seq(j):
        if whole:
            return out(2 * j)
        if pairs:
            return z3.If(j == 2 * m + 1, E, out(j))
        return out(j)

    def nz(t):
        return z3.simplify(t)
    done = ctx.ghost['done'] = Count(ctx)
    focus = ctx.fresh(IntS, 'focus')
    g = ctx.ghost['position'] = ctx.fresh(IntS, 'position')

    def lists(st):
        return [(nm, v) for nm, v in sorted(st.frame.locals.items()) if isinstance(v, PList) and v.prefix is not None]

    def cands(st):
        res = []
        if form == 'any' and st.view is not None:
            res.append(('the separators before are text', z3.Implies(z3.And(g >= 0, g < st.k), RIGHT(ITEM(g)))))
        for nm, v in lists(st):
            if isinstance(v.prefix.getter(ctx, focus) if getter_ok(v) else None, SObj):
                continue
            L = M.numterm(M.length(I, v))
            tell = st.k if st.view is not None else total - L
            ctxn = done.t
            if last is not None and st.view is not None and not keep:
                inr = z3.And(focus >= 0, focus < L)
                if ctx.feasible(inr) and getter_ok(v):
                    with_ = thinned(st.k, focus)
                    hit = text_at(v.prefix.getter(ctx, focus))
                    res.append((nm + ' has lost the last separators', z3.And(L == 2 * m + 1 - st.k, z3.Implies(inr, hit == with_))))
            if st.view is None:
                inr = z3.And(focus >= 0, focus < L, L <= total)
                if ctx.feasible(inr) and getter_ok(v):
                    x = at_(v, focus)
                    res.append((nm + ' holds what is to come, the last first', z3.And(z3.Implies(inr, text_at(x) == seq(total - 1 - focus)), L <= total)))
            res += progress(st, nm, tell)
        if last is not None and st.view is not None:
            res.append(('the pieces looked at are empty', last <= made - st.k))
        if st.view is not None and not lists(st):
            res += progress(st, 'the loop', st.k)
        return res

    def thinned(k, i):
        """item i of the parts after the last k separators were taken out"""
        return z3.If(i < 2 * (m - k) + 1, PART(i), PART(2 * (i - (m - k))))

    def at_(v, i):
        return v.prefix.getter(ctx, i) if not v.items else None

    def getter_ok(v):
        return v.prefix.getter is not None and not v.items

    def progress(st, nm, gone):
        res = []
        if pairs:
            res.append((nm + ': one output for two items', 2 * done.t == gone))
            for vn, v in sorted(st.frame.locals.items()):
                if v is None or isinstance(v, SStr) and st.frame.old(vn) if False else v is None or isinstance(v, SStr):
                    res.append((f'{nm}: {vn} is the item without an output yet', 2 * done.t == gone if v is None else z3.And(2 * done.t + 1 == gone, v.t == seq(gone - 1))))
        else:
            res.append((nm + ': one output for each item', done.t == gone))
        return res

    def make(st, path):
        if path[-1] == '[]' and isinstance(M.read_path(I, st.frame, path), PList):
            L = None

            def mk(ctx, st):
                if last is not None and st.view is not None:
                    gone = ctx.int('gone', 0).t
                    return abstract(ctx, 2 * m + 1 - gone, lambda c, k: SStr(thinned(gone, k), kind))
                L = ctx.int('left', 0).t
                return abstract(ctx, L, lambda c, k: SStr(seq(nz(total - 1 - k)), kind))
            return mk
        return None
    ctx.loops[('*', '*')] = LoopSpec(None, cands, make=make)

    def at_yield(ctx, f, v):
        if limit == 'zero' or not splits:
            zero.append(v)
            return
        j = done.t
        ctx.touched(done)
        done.t = z3.simplify(j + 1)
        if keep == T.AS_PAIRS:
            ctx.prove('pairs are yielded', isinstance(v, tuple) and len(v) == 2 and all(M.is_text(x) and M.kind_of(x) == kind for x in v))
            a, b = v
            ctx.prove('a pair is a piece and the separator after it, if any', z3.And(M.term(a) == out(2 * j), M.term(b) == z3.If(j == m, E, out(2 * j + 1))))
        else:
            ctx.prove('text is yielded', M.is_text(v) and M.kind_of(v) == kind)
            t = M.term(v)
            if pairs:
                ctx.prove('a piece is followed by its separator', t == z3.If(j == m, out(2 * j), z3.Concat(out(2 * j), out(2 * j + 1))))
            elif keep:
                ctx.prove('pieces and separators alternate', t == out(j))
            else:
                ctx.prove('the pieces are yielded in order', t == out(2 * j))
        ctx.cover('output')
    zero = []
    for q in (MOD + 'multisplit',):
        ctx.ghost[('yield', q)] = at_yield
    k, r = I.outcome(lambda: I.collect(I.call(T.multisplit, [s] if arg is None and ctx.choose(2) else [s, arg], kw)))
    if n is not None and ctx.branch(n == 0):
        ctx.prove('no separators raises ValueError', k == 'raise' and r.cls is ValueError)
        return
    if k == 'raise':
        kk = ctx.ghost.get('last item')
        ctx.prove('TypeError is raised only for an element that is not text of the right type', r.cls is TypeError and form == 'any' and kk is not None)
        if kk is not None:
            ctx.prove('TypeError is raised only for an element that is not text of the right type', z3.And(kk < n, z3.Not(RIGHT(ITEM(kk)))))
        ctx.cover('refused')
        return
    if strip:
        want = dict(left=strip in (True, T.LEFT, T.PROGRESSIVE), right=strip in (True, T.RIGHT, T.PROGRESSIVE))
        if strip == T.PROGRESSIVE and limit in ('some', 'zero'):
            want = dict(left=not reverse, right=bool(reverse))
        ctx.prove('the requested ends are stripped', len(stripped) == 1)
        ctx.prove('the requested ends are stripped', M.truth(I, stripped[0][0]) == want['left'] and M.truth(I, stripped[0][1]) == want['right'])
    else:
        ctx.prove('nothing is stripped', not stripped)
    if not splits:
        ctx.prove('one piece', len(zero) == 1)
        v = zero[0]
        ctx.prove('no split is made only with maxsplit=0 or of empty text', z3.Or(z3.BoolVal(limit == 'zero'), text == E))
        if keep == T.AS_PAIRS:
            ctx.prove('a pair is yielded', isinstance(v, tuple) and len(v) == 2)
            ctx.prove('the only separator is empty', M.term(v[1]) == E)
            v = v[0]
        ctx.prove('the text is the only piece', M.is_text(v) and M.kind_of(v) == kind)
        ctx.prove('the text is the only piece', M.term(v) == text)
        ctx.cover('one piece')
        return
    ctx.prove('every piece is yielded', done.t == (2 * m + 1 if keep == T.ALTERNATING else m + 1))
