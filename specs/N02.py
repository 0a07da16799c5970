"""normalize_whitespace over the contract of multisplit (T01): the pieces between maximal runs, joined by the replacement."""
import z3
from pydv.framework import proof
from pydv.ctx import Unsupported
from pydv.values import *
from pydv import models as M
from pydv.builtins_model import PRED
import big.text as T
from .seplib import *

NOTE = 'normalize_whitespace is under contract for any text, any collection of separators and any replacement; splitting is used through the contract of multisplit (T01)'
ASSUMPTIONS = ['multisplit without keep and without separate yields the pieces between the maximal runs of separators (T01)',
               'str.split() without arguments yields the non-empty pieces between runs of whitespace; a leading / trailing empty piece is left out exactly when the text starts / ends with whitespace',
               'the whitespace constants contain exactly the characters for which isspace is true (compared exhaustively in the bounded check)']
PIECE = z3.Function('piece', IntS, StringS)


def wsp(t):
    return PRED['isspace'](t)


@proof('normalize_whitespace', [MOD + 'normalize_whitespace'], budget=90)
def normalize(ctx, I):
    kind = 'bytes' if ctx.choose(2) else 'str'
    by = kind == 'bytes'
    s = ctx.str('s', kind)
    forms = ('any', 'chars', 'two', 'none', 'whitespace', 'whitespace_without_crlf')
    f = ctx.choose(6)
    n = at = None
    if f < 3:
        how, arg, n, at = collection(ctx, kind, (forms[f],))
    else:
        how = forms[f]
        arg = None if how == 'none' else getattr(T, ('bytes_' if by else '') + how)
    default = (T.bytes_whitespace_without_crlf if by else T.whitespace_without_crlf, T.bytes_whitespace if by else T.whitespace)
    rep = None if ctx.choose(2) else ctx.str('replacement', kind)
    want_rep = rep if rep is not None else (b' ' if by else ' ')
    runs = ctx.int('runs', 0).t                  # pieces 0..runs between runs of separators
    ctx.assume(z3.Implies(s.t == E, runs == 0))
    splits = []

    def ms(ctx, s_, separators=None, *, keep=False, maxsplit=-1, reverse=False, separate=False, strip=False):
        ctx.prove('the text is split', s_ is s)
        if n is not None:
            same(ctx, separators, n, at)
            if ctx.branch(n == 0):
                I.throw(ValueError, 'separators')
        else:
            ctx.prove('the default separators are the whitespace of the type', separators is None or separators in default)
        ctx.prove('the text is split at maximal runs of separators', keep is False and separate is False and strip is False and maxsplit in (-1, None) and type(maxsplit) is not bool)
        splits.append(reverse)
        return I.call(iter, [abstract(ctx, runs + 1, lambda c, k: SStr(PIECE(k), kind))], {})
    ctx.overrides[T.multisplit] = ms
    first, last = wsp(z3.SubString(s.t, 0, 1)), wsp(z3.SubString(s.t, z3.Length(s.t) - 1, 1))
    ALL = wsp(s.t)
    L_ = z3.Length

    def strip(ctx, t, chars, l, m, r):
        ctx.prove('whitespace is stripped', chars is None and t is s)
        # nothing is left exactly when the text is one run (or empty)
        ctx.assume((m == E) == z3.Or(s.t == E, ALL))
        ctx.assume(z3.Implies(ALL, z3.And(s.t != E, runs == 1, PIECE(0) == E, PIECE(1) == E)))
    ctx.ghost['strip'] = strip

    def split(ctx, t, *a, **k):
        ctx.prove('the whitespace split is used for whitespace separators of a str', t is s and not a and not k and n is None and not by)
        w = z3.simplify(runs + 1 - z3.If(first, 1, 0) - z3.If(last, 1, 0))
        w = z3.If(z3.Or(s.t == E, ALL), 0, w)
        off = z3.If(first, 1, 0)
        ctx.assume(z3.Implies(z3.And(s.t != E, z3.Not(ALL)), z3.And(w >= 1, z3.Implies(first, PIECE(0) == E), z3.Implies(last, PIECE(runs) == E))))
        splits.append(False)
        return abstract(ctx, w, lambda c, k: SStr(PIECE(k + off), kind))
    ctx.ghost['split'] = split
    JOINED = z3.String('pieces joined by the replacement')
    joins = []

    def join(ctx, sep, it):
        ctx.prove('the pieces are joined by the replacement', M.term(sep) == M.term(want_rep))
        ctx.prove('all pieces are joined', len(splits) == 1)
        i = ctx.fresh(IntS, 'i')
        ctx.assume(z3.And(i >= 0, i <= runs))
        ctx.prove('all pieces are joined, in order', M.numterm(M.length(I, it)) == runs + 1)
        ctx.prove('all pieces are joined, in order', M.term(M.getitem(I, it, SInt(i))) == PIECE(i))
        ctx.prove('the pieces are in order', M.truth(I, splits[0]) is False)
        joins.append(1)
        return SStr(JOINED, kind)
    ctx.ghost['join'] = join
    # what joining gives for no run and for one run that is the whole text
    ctx.assume(z3.Implies(runs == 0, z3.And(PIECE(0) == s.t, JOINED == s.t)))
    ctx.assume(z3.Implies(z3.And(runs == 1, PIECE(0) == E, PIECE(1) == E), JOINED == M.term(want_rep)))
    args = [s, arg] if how != 'none' or ctx.choose(2) else [s]
    kw = {} if rep is None and ctx.choose(2) else {'replacement': rep}
    k, r = I.outcome(lambda: I.call(T.normalize_whitespace, args, kw))
    if n is not None and ctx.branch(n == 0):
        if how != 'any':
            ctx.unprobed.clear()
        if k == 'raise':
            ctx.prove('no separators raises ValueError', r.cls is ValueError)
        else:
            ctx.prove('no separators raises ValueError', z3.And(how == 'chars', s.t == E))
        return
    if k == 'raise':
        refused(ctx, how, n, r)
        return
    if not joins:
        examine(ctx)
    ctx.prove('the result is text of the same type', M.is_text(r) and M.kind_of(r) == kind)
    ctx.prove('every run of separators is replaced and nothing else changes', M.term(r) == JOINED)
    ctx.cover('normalised')


@proof('normalize_whitespace: bad replacement', [MOD + 'normalize_whitespace'])
def bad(ctx, I):
    kind = 'bytes' if ctx.choose(2) else 'str'
    s = ctx.str('s', kind)
    rep = (5, '-' if kind == 'bytes' else b'-', '' if kind == 'bytes' else b'', False, ())[ctx.choose(5)]
    k, r = I.outcome(lambda: I.call(T.normalize_whitespace, [s], {'replacement': rep}))
    ctx.prove('a replacement of another type raises TypeError', k == 'raise' and r.cls is TypeError)
