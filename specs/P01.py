"""PushbackIterator: abstract view = reversed(stack) ++ rest of the wrapped iterator."""
import z3
from pydv.framework import proof
from pydv.values import *
from pydv.models import Fold, Hook, fold_of, fresh_list, cat
from pydv.interp import PyExc
from big.itertools import PushbackIterator as PI

SeqO = z3.SeqSort(Obj)
EMPTY = z3.Empty(SeqO)


def _op(a, b):
    if a.eq(EMPTY):
        return b
    if b.eq(EMPTY):
        return a
    return z3.Concat(b, a)


RVIEW = Fold('rview', SeqO, lambda v: z3.Unit(v.t), _op, EMPTY,
             fact=lambda n, t: z3.Length(t) == n)


class UserError(Exception):
    pass


class Wrapped(Hook):
    """any iterator: yields the objects of `rest` in order, then StopIteration; may raise anything"""
    methods = ('__next__', '__iter__')

    def __init__(self, ctx, raises=True):
        self.serial = ctx.next_serial()
        self.rest = ctx.fresh(SeqO, 'rest')
        self.raises = raises
        self.raised = False

    def next(self, ctx, *d):
        n = 3 if self.raises else 2
        k = ctx.choose(n, [z3.Length(self.rest) > 0, z3.Length(self.rest) == 0, z3.BoolVal(True)][:n])
        if k == 2:
            self.raised = True
            raise PyExc(ExcV(UserError))
        if k == 1:
            raise PyExc(ExcV(StopIteration))
        v = SObj(ctx.fresh(Obj, 'item'))
        r = ctx.fresh(SeqO, 'rest')
        ctx.assume(self.rest == z3.Concat(z3.Unit(v.t), r))
        self.rest = r
        return v

    def m___next__(self, ctx):
        return self.next(ctx)

    def m___iter__(self, ctx):
        return self

    def truth(self, ctx):
        # the wrapped iterator's own truth value is arbitrary
        return ctx.branch(ctx.fresh(BoolS, 'itruth'))


def pre(ctx, I):
    ctx.folds['rview'] = RVIEW
    stack = fresh_list(I, frozenset([('obj', None)]), seq=False)
    w = Wrapped(ctx) if ctx.choose(2) == 0 else None
    self = PObj(ctx, PI, dict(i=w, stack=stack))
    return self, w, view(I, self)


def view(I, self):
    st = self.attrs['stack']
    i = self.attrs['i']
    rest = i.rest if isinstance(i, Wrapped) else EMPTY
    f = fold_of(I, st, 'rview')
    return rest if f.eq(EMPTY) else f if rest.eq(EMPTY) else z3.Concat(f, rest)


def head_tail(ctx, name, v, result, v2):
    ctx.prove(name + ': returns the first item and removes exactly it',
              v == z3.Concat(z3.Unit(result.t), v2))


@proof('push', ['itertools.PushbackIterator.push'])
def push(ctx, I):
    self, w, v = pre(ctx, I)
    o = ctx.obj('o')
    I.call(PI.push, [self, o])
    ctx.prove('push: the pushed item is the new first item, nothing else changes',
              view(I, self) == z3.Concat(z3.Unit(o.t), v))


@proof('__next__', ['itertools.PushbackIterator.__next__'])
def next_(ctx, I):
    self, w, v = pre(ctx, I)
    kind, r = I.outcome(lambda: I.call(PI.__next__, [self]))
    v2 = view(I, self)
    if kind == 'return':
        head_tail(ctx, '__next__', v, r, v2)
        ctx.cover('__next__ returns')
    elif r.cls is StopIteration:
        ctx.prove('__next__: StopIteration only when no item is left', z3.And(v == EMPTY, v2 == EMPTY))
        ctx.cover('__next__ stops')
    else:
        ctx.prove('__next__: only the wrapped iterator\'s exception escapes', r.cls is UserError)
        ctx.prove('__next__: an exception of the wrapped iterator loses no item', v2 == v)


@proof('next', ['itertools.PushbackIterator.next'])
def next_default(ctx, I):
    self, w, v = pre(ctx, I)
    d = ctx.obj('default')
    kind, r = I.outcome(lambda: I.call(PI.next, [self, d]))
    v2 = view(I, self)
    if kind == 'return':
        if ctx.branch(z3.Length(v) > 0):
            head_tail(ctx, 'next', v, r, v2)
        else:
            ctx.prove('next: returns the default when exhausted', z3.And(r.t == d.t, v2 == EMPTY))
    else:
        ctx.prove('next: only the wrapped iterator\'s exception escapes', r.cls is UserError)
        ctx.prove('next: an exception of the wrapped iterator loses no item', v2 == v)


@proof('__bool__', ['itertools.PushbackIterator.__bool__', 'itertools.PushbackIterator.push'])
def bool_(ctx, I):
    self, w, v = pre(ctx, I)
    kind, r = I.outcome(lambda: I.call(PI.__bool__, [self]))
    v2 = view(I, self)
    if kind == 'return':
        b = I.truth(r)
        ctx.prove('__bool__: true exactly when an item is left', (z3.Length(v) > 0) == z3.BoolVal(b))
        ctx.prove('__bool__: consumes nothing', v2 == v)
    else:
        ctx.prove('__bool__: only the wrapped iterator\'s exception escapes', r.cls is UserError)
        ctx.prove('__bool__: an exception of the wrapped iterator loses no item', v2 == v)


@proof('__init__', ['itertools.PushbackIterator.__init__'])
def init(ctx, I):
    ctx.folds['rview'] = RVIEW
    case = ctx.choose(3)
    if case == 0:
        it, v = None, EMPTY
    elif case == 1:
        it = Wrapped(ctx)
        v = it.rest
    else:
        inner = Wrapped(ctx)

        class Iterable(Hook):
            methods = ('__iter__',)

            def m___iter__(self, ctx):
                return inner
        it = Iterable()
        v = inner.rest
        ctx.ghost['iter'] = lambda ctx, o: inner if o is it else None
    self = I.call(PI, [it] if case or ctx.choose(2) else [])
    ctx.prove('__init__: starts with exactly the items of the iterable', view(I, self) == v)
    r = I.call(PI.__iter__, [self])
    ctx.prove('__iter__: is the iterator itself', r is self)
