"""Separator collections, and the pattern text built from them."""
import re
import z3
from pydv.framework import proof
from pydv.ctx import Unsupported
from pydv.values import *
from pydv import models as M
from pydv.models import Hook
import big.text as T

MOD = 'text.'
E = z3.StringVal('')
SEP = z3.Function('separator', IntS, StringS)              # the text of separator k
ITEM = z3.Function('item', IntS, Obj)                      # any element of the collection given
RIGHT = z3.Function('is text of the type', Obj, BoolS)
TEXT = z3.Function('text of', Obj, StringS)
TO_RE = getattr(T, '__separators_to_re')
TO_RE2 = T._separators_to_re


class Elem:
    """elements of a collection are arbitrary objects; some are text of the right type"""

    def __init__(self, ctx, kind):
        self.kind = kind
        ctx.ghost['obj_isinstance'] = self.isinstance
        ctx.ghost['obj_truth'] = self.truth
        self.collection = None

    def isinstance(self, ctx, v, t):
        if t in (str, bytes):
            if v is self.collection:
                return False
            return RIGHT(v.t) if (t is bytes) == (self.kind == 'bytes') else z3.And(z3.Not(RIGHT(v.t)), z3.Function('is text of the other type', Obj, BoolS)(v.t))
        return None

    def truth(self, ctx, v):
        return not ctx.branch(TEXT(v.t) == E)


def abstract(ctx, n, get):
    l = PList(ctx, [], prefix=Abstract(n, None, None, {}, getter=get))
    l.prefix.elem, l.prefix.cache = frozenset(), {}
    return l


def collection(ctx, kind, forms=('any', 'chars', 'two')):
    """(argument, number of separators, k -> text of separator k, condition under which the arguments are bad: 'type'/'value' -> condition at k)"""
    by = kind == 'bytes'
    how = forms[ctx.choose(len(forms))]
    if how == 'any':
        n = ctx.int('separators', 0).t
        el = Elem(ctx, kind)

        def get(c, k):
            ctx.ghost['last item'] = k
            return SObj(ITEM(k))
        return how, abstract(ctx, n, get), n, lambda k: TEXT(ITEM(k))
    if how == 'chars':
        s = ctx.str('separators', kind)
        return how, s, z3.Length(s.t), lambda k: z3.SubString(s.t, k, 1)
    seps = tuple(x.encode() if by else x for x in ('ab', 'b'))
    lit = [z3.StringVal('ab'), z3.StringVal('b')]
    return how, seps, z3.IntVal(2), lambda k: z3.If(k == 0, lit[0], lit[1])


def text_at(v):
    return TEXT(v.t) if isinstance(v, SObj) else M.term(v)


def same(ctx, v, n, at, what='the separators given are the separators used', nonempty=True):
    """the collection v is the given one, at an arbitrary position"""
    i = ctx.ghost.get('position')
    if i is None:
        i = ctx.fresh(IntS, 'position')
    ctx.assume(z3.And(i >= 0, i < n))
    ok = isinstance(v, (PList, M.TupleRep, Hook, tuple, frozenset, set, M.Seqs, IterView))
    ctx.prove(what, ok)
    if not ok:
        raise Unsupported("a collection of another kind")
    ctx.prove(what, M.numterm(M.length(ctx.interp, v)) == n)
    x = M.getitem(ctx.interp, v, SInt(i)) if not isinstance(v, tuple) else None
    if isinstance(v, tuple):
        for q, y in enumerate(v):
            ctx.prove(what, M.term(y) == z3.simplify(at(z3.IntVal(q))))
    else:
        ctx.prove(what, text_at(x) == at(i))
        if isinstance(x, SObj):
            ctx.prove('only text of the right type is accepted', RIGHT(x.t))
            if nonempty:
                ctx.prove('only separators that are not empty are accepted', TEXT(x.t) != E)


def refused(ctx, how, n, exc):
    """bad separators, and only those, are refused: wrong type -> TypeError, empty -> ValueError"""
    k = ctx.ghost.get('last item')
    if exc.cls is TypeError:
        ctx.prove('TypeError is raised only for an element that is not text of the right type', how == 'any' and k is not None)
        if k is not None:
            ctx.prove('TypeError is raised only for an element that is not text of the right type', z3.And(k < n, z3.Not(RIGHT(ITEM(k)))))
    elif exc.cls is ValueError:
        if ctx.branch(n == 0):
            return
        ctx.prove('ValueError is raised only for no separators or an empty one', how == 'any' and k is not None)
        if k is not None:
            ctx.prove('ValueError is raised only for no separators or an empty one', z3.And(k < n, TEXT(ITEM(k)) == E))
    else:
        ctx.prove('bad separators raise TypeError or ValueError', False)
    ctx.cover('refused')


def examine(ctx):
    """comprehensions whose value is not used after all: look at an arbitrary element (it must not raise)"""
    for c in list(ctx.unprobed):
        k = ctx.fresh(IntS, 'any')
        ctx.assume(z3.And(k >= 0, k < M.term(c.n)))
        c.probe(ctx, k)


# ------------------------------------------------------- the pattern text ---
QUOTE = z3.Function('pattern for', StringS, StringS)       # matches exactly the text
ESC = z3.Function('re.escape', StringS, StringS)
PERM = z3.Function('order', IntS, IntS)


@proof('_re_quote', [MOD + '_re_quote'])
def quote(ctx, I):
    kind = 'bytes' if ctx.choose(2) else 'str'
    s = ctx.str('s', kind)
    ctx.assume(s.t != E)
    ctx.overrides[re.escape] = lambda ctx, p: SStr(ESC(M.term(p)), M.kind_of(p))
    r = I.call(T._re_quote, [s], {})
    ctx.prove('the pattern is of the type of the text', M.is_text(r) and M.kind_of(r) == kind)
    space = I.call(I.getattr(s, 'isspace'), [], {})
    group = z3.Concat(z3.StringVal('(?:'), s.t, z3.StringVal(')'))
    ctx.prove('the pattern matches exactly the text', z3.Or(M.term(r) == ESC(s.t), z3.And(M.term(space), z3.Or(M.term(r) == s.t, M.term(r) == group))))
    ctx.cover('quoted')


def to_re(ctx, I, order):
    kind = 'bytes' if ctx.choose(2) else 'str'
    by = kind == 'bytes'
    n = ctx.int('separators', 1).t
    seps = abstract(ctx, n, lambda c, k: SStr(SEP(k), kind))
    JOINED = z3.String('alternatives')
    state = {}

    def sort(ctx, l, key, reverse):
        i = ctx.fresh(IntS, 'i')
        ctx.assume(z3.And(i >= 0, i < n))
        ctx.prove('all separators are sorted', M.numterm(M.length(I, l)) == n)
        x = M.getitem(I, l, SInt(i))
        ctx.prove('all separators are sorted', M.term(x) == SEP(i))
        ctx.prove('separators are sorted by their length', key is not None)
        kv = M.numterm(I.call(key, [x], {}))
        down = M.truth(I, reverse)
        if order:
            ctx.prove('the longest separator comes first', kv == (z3.Length(SEP(i)) if down else -z3.Length(SEP(i))))
        state['sorted'] = True
        l.prefix = Abstract(n, None, None, {}, getter=lambda c, k: SStr(SEP(PERM(k)), kind))
        l.prefix.elem, l.prefix.cache = frozenset(), {}
        l.items = []
        return None
    ctx.ghost['sort'] = sort

    def join(ctx, sep, it):
        ctx.prove('the alternatives are separated by |', sep == (b'|' if by else '|'))
        v = M.iterate(I, it) if not isinstance(it, Hook) else it.iterate(ctx)
        i = ctx.fresh(IntS, 'i')
        ctx.assume(z3.And(i >= 0, i < n))
        ctx.prove('every separator is an alternative', M.term(v.n) == n)
        if order:
            ctx.prove('the longest separator comes first', state.get('sorted', False))
        x = v.get(ctx, i)
        ctx.prove('the alternatives are the quoted separators', M.term(x) == QUOTE(SEP(PERM(i) if state.get('sorted') else i)))
        return SStr(JOINED, kind)
    ctx.ghost['join'] = join
    ctx.overrides[T._re_quote] = lambda ctx, s: SStr(QUOTE(M.term(s)), M.kind_of(s))
    kw = {}
    sp, kp = ctx.choose(3), ctx.choose(3)
    if sp < 2:
        kw['separate'] = sp == 1
    if kp < 2:
        kw['keep'] = kp == 1
    r = I.call(TO_RE2 if ctx.choose(2) else TO_RE.__wrapped__, [seps, by], kw)
    sep, keep = kw.get('separate', False), kw.get('keep', False)
    want = JOINED
    if not sep:
        want = z3.Concat(z3.StringVal('(?:'), want, z3.StringVal(')+'))
    if keep:
        want = z3.Concat(z3.StringVal('('), want, z3.StringVal(')'))
    ctx.prove('the pattern is of the type of the separators', M.is_text(r) and M.kind_of(r) == kind)
    ctx.prove('the pattern matches one separator (separate) or a run of them, as a group if kept', M.term(r) == want)
    ctx.cover('built')


def pattern_proofs(order):
    p = proof('__separators_to_re', [MOD + '__separators_to_re', MOD + '_separators_to_re'])(lambda ctx, I: to_re(ctx, I, order))
    return [quote, p]
