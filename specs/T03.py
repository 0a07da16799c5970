"""multipartition: the split it is built from is an arbitrary alternation of pieces and separators (T01, T02); the result is examined at an arbitrary index."""
import z3
from pydv.framework import proof
from pydv.values import *
from pydv import models as M
import big.text as T

MOD = 'text.'
NOTE = 'multipartition and multirpartition are under contract for any text, separators, count and options, over the contract of multisplit'
ASSUMPTIONS = ['multisplit(keep=ALTERNATING, maxsplit=count) yields at most count separators between pieces that re-join to the text, from the requested end (T01, T02)']
ITEM = z3.Function('item', IntS, StringS)


@proof('multipartition', [MOD + 'multipartition', MOD + 'multirpartition'], budget=90)
def partition(ctx, I):
    kind = 'bytes' if ctx.choose(2) else 'str'
    s = ctx.str('s', kind)
    seps = ctx.obj('separators') if ctx.choose(2) else None
    found = ctx.int('found', 0).t
    right = ctx.choose(2) == 1
    kw = {}
    cnt = ctx.choose(2)
    c = ctx.int('count') if cnt else 1
    if cnt:
        kw['count'] = c
    rev = ctx.choose(3)
    if rev < 2:
        kw['reverse'] = rev == 1
    sep = ctx.choose(3)
    if sep < 2:
        kw['separate'] = sep == 1
    backwards = (rev == 1) != right
    split = []
    ctx.ghost['obj_truth'] = lambda ctx, o: True

    def ms(ctx, s_, separators=None, *, keep=False, maxsplit=-1, reverse=False, separate=False, strip=False):
        ctx.prove('the text given is split by the separators given', s_ is s and separators is seps)
        ctx.prove('pieces and separators alternate and nothing is stripped', keep == T.ALTERNATING and strip is False)
        ctx.prove('reverse is honoured', M.truth(I, reverse) == backwards)
        ctx.prove('separate is honoured', M.truth(I, separate) == (sep != 0))
        ctx.prove('at most count separators are taken', M.numterm(maxsplit) == M.numterm(c))
        ctx.assume(found <= M.numterm(c))
        l = PList(ctx, [], prefix=Abstract(2 * found + 1, None, None, {}, getter=lambda c_, k: SStr(ITEM(k), kind)))
        l.prefix.elem, l.prefix.cache = frozenset(), {}
        split.append(l)
        return ctx.interp.call(iter, [l], {})
    ctx.overrides[T.multisplit] = ms
    k, r = I.outcome(lambda: I.call(T.multirpartition if right else T.multipartition, [s, seps], kw))
    n = M.numterm(c)
    if ctx.branch(n < 0):
        ctx.prove('a negative count raises ValueError', k == 'raise' and r.cls is ValueError)
        return
    ctx.prove('partition does not raise', k == 'return')
    if k != 'return':
        return
    ctx.prove('the text is split once', len(split) == 1)
    ctx.prove('the result is a tuple', isinstance(r, (tuple, M.Seqs, M.TupleRep)) or isinstance(r, PList) and getattr(r, 'immutable', False))
    ctx.prove('there are 2 * count + 1 items', M.numterm(M.length(I, r)) == 2 * n + 1)
    p = ctx.fresh(IntS, 'p')
    ctx.assume(z3.And(p >= 0, p <= 2 * n))
    v = M.getitem(I, r, SInt(p))
    ctx.prove('every item is text of the same type', M.is_text(v) and M.kind_of(v) == kind)
    first = 2 * n - 2 * found if backwards else z3.IntVal(0)
    if ctx.branch(z3.And(p >= first, p < first + 2 * found + 1)):
        ctx.cover('item of the split')
        ctx.prove('the pieces and separators of the split are kept in order', M.term(v) == ITEM(p - first))
    else:
        ctx.cover('padding')
        ctx.prove('missing items are empty text', M.term(v) == z3.StringVal(''))
