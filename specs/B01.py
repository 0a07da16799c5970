"""Number conversions: int() and float() of an arbitrary object are arbitrary (a value or an exception)."""
import z3
from pydv.framework import proof
from pydv.values import *
from pydv.models import Hook
from pydv.interp import PyExc
import big.builtin as B

NOTE = 'every listed function is under contract; int() and float() are arbitrary functions of the object (any value or any exception), finite floats are reals'
ASSUMPTIONS = ['finite floats are treated as real numbers in the test int(o) == o (int and float compare exactly in CPython)',
               'int(x) and float(x) return exact int and float objects (guaranteed by CPython up to a deprecated subclass case)']
MOD = 'builtin.'


class UserError(Exception):
    pass


class Special(Hook):
    """an infinity or nan"""
    pytype = float

    def __init__(self, ctx, exc):
        self.exc = exc
        self.serial = ctx.next_serial()

    def eq(self, ctx, other):
        return self is other and self.exc is OverflowError


FAIL = (TypeError, ValueError, OverflowError)


def freal(ctx):
    w = ctx.fresh(IntS, 'whole')
    f = ctx.fresh(RealS, 'fraction')
    ctx.assume(z3.And(f >= 0, f < 1))
    r = SReal(z3.ToReal(w) + f)
    ctx.ghost.setdefault('fraction', []).append((r, f))
    return r


def setup(ctx, I):
    log = []

    def real_int(ctx, o):
        k = ctx.fresh(IntS, 'trunc')
        r = o.t
        ctx.assume(z3.If(r >= 0, z3.And(z3.ToReal(k) <= r, r < z3.ToReal(k) + 1), z3.And(z3.ToReal(k) - 1 < r, r <= z3.ToReal(k))))
        return SInt(k)

    def gint(ctx, o, *a):
        if isinstance(o, SReal):
            return real_int(ctx, o)
        if isinstance(o, Special):
            log.append(('int', o, o.exc))
            raise PyExc(ExcV(o.exc))
        k = ctx.choose(5)
        if k < 4:
            e = (FAIL + (UserError,))[k]
            log.append(('int', o, e))
            raise PyExc(ExcV(e))
        v = ctx.int('converted')
        log.append(('int', o, v))
        return v

    def gfloat(ctx, o):
        if isinstance(o, SInt):
            if ctx.choose(2):
                log.append(('float', o, OverflowError))
                raise PyExc(ExcV(OverflowError))
            return ctx.real('f')
        if isinstance(o, Special):
            return o
        k = ctx.choose(7)
        if k < 4:
            e = (FAIL + (UserError,))[k]
            log.append(('float', o, e))
            raise PyExc(ExcV(e))
        v = freal(ctx) if k == 4 else Special(ctx, OverflowError if k == 5 else ValueError)
        log.append(('float', o, v))
        return v

    def isinst(ctx, v, t):
        return None
    ctx.ghost['int'] = gint
    ctx.ghost['float'] = gfloat
    # == on user objects is arbitrary and may raise: the getters must not depend on it
    def obj_eq(ctx, a, b):
        if b is None:
            return False
        if ctx.choose(2):
            raise PyExc(ExcV(UserError))
        return ctx.fresh(BoolS, 'eq')
    ctx.ghost['obj_eq'] = obj_eq
    return log


def isexc(x):
    return isinstance(x, type)


@proof('try_int / try_float', [MOD + 'try_int', MOD + 'try_float'])
def tries(ctx, I):
    log = setup(ctx, I)
    o = ctx.obj('o')
    which = ctx.choose(2)
    kind, r = I.outcome(lambda: I.call(B.try_float if which else B.try_int, [o]))
    ctx.prove('try: converts exactly once, with the right conversion', len(log) == 1 and log[0][0] == ('float' if which else 'int') and log[0][1] is o)
    res = log[0][2]
    if kind == 'raise':
        ctx.prove('try: only an exception that is not a conversion failure escapes', r.cls is UserError and res is UserError)
        return
    ctx.prove('try: True exactly when the conversion succeeded', z3.BoolVal(not isexc(res)) == term_bool(I, r))
    ctx.prove('try: other exceptions are not swallowed', res is not UserError)


def term_bool(I, r):
    return r.t if isinstance(r, SBool) else z3.BoolVal(r) if isinstance(r, bool) else z3.BoolVal(False)


def default_of(ctx, o):
    k = ctx.choose(6)
    if k == 0:
        return [], o
    d = (None, 0, '', o)[k - 1] if k < 5 else ctx.obj('default')
    return [d], d


def same(a, b):
    if isinstance(a, SObj) and isinstance(b, SObj):
        return a.t == b.t
    return z3.BoolVal(a is b)


@proof('get_int / get_float', [MOD + 'get_int', MOD + 'get_float'])
def gets(ctx, I):
    log = setup(ctx, I)
    o = ctx.obj('o')
    args, d = default_of(ctx, o)
    which = ctx.choose(2)
    kw = ctx.choose(2)
    f = B.get_float if which else B.get_int
    kind, r = I.outcome(lambda: I.call(f, [o], {'default': args[0]} if args else {}) if kw else I.call(f, [o] + args))
    ctx.prove('get: converts exactly once, with the right conversion', len(log) == 1 and log[0][0] == ('float' if which else 'int') and log[0][1] is o)
    res = log[0][2]
    if kind == 'raise':
        ctx.prove('get: only an exception that is not a conversion failure escapes', r.cls is UserError and res is UserError)
        return
    ctx.prove('get: other exceptions are not swallowed', res is not UserError)
    if isexc(res):
        ctx.prove('get: returns the default (the object itself when none is given) when the conversion fails', same(r, d))
    else:
        ctx.prove('get: returns exactly the converted value', r is res)


@proof('get_int_or_float: int', [MOD + 'get_int_or_float'])
def gif_int(ctx, I):
    log = setup(ctx, I)
    o = ctx.int('o') if ctx.choose(2) else ctx.bool('o')
    args, d = default_of(ctx, o)
    kind, r = I.outcome(lambda: I.call(B.get_int_or_float, [o] + args))
    ctx.prove('combined: an int is returned unchanged', kind == 'return' and r is o)


def float_post(ctx, f, r):
    """the documented result for a float f"""
    if isinstance(f, Special):
        ctx.prove('combined: infinities and nan are left alone', r is f)
    elif isinstance(r, SInt):
        ctx.prove('combined: an int result equals the float', z3.ToReal(r.t) == f.t)
        ctx.cover('integral float')
    else:
        ctx.prove('combined: otherwise the float itself', r is f)
        ctx.prove('combined: an integral float becomes an int', [x for v, x in ctx.ghost['fraction'] if v is f][0] != 0)
        ctx.cover('float with a fraction')


@proof('get_int_or_float: float', [MOD + 'get_int_or_float'])
def gif_float(ctx, I):
    log = setup(ctx, I)
    k = ctx.choose(3)
    o = freal(ctx) if k == 0 else Special(ctx, OverflowError if k == 1 else ValueError)
    args, d = default_of(ctx, o)
    kind, r = I.outcome(lambda: I.call(B.get_int_or_float, [o] + args))
    ctx.prove('combined: a float never raises', kind == 'return')
    float_post(ctx, o, r)


@proof('get_int_or_float: other objects', [MOD + 'get_int_or_float'])
def gif_obj(ctx, I):
    log = setup(ctx, I)
    o = ctx.obj('o')
    args, d = default_of(ctx, o)
    kw = ctx.choose(2)
    f = B.get_int_or_float
    kind, r = I.outcome(lambda: I.call(f, [o], {'default': args[0]} if args else {}) if kw else I.call(f, [o] + args))
    mine = [x for x in log if x[1] is o]
    ctx.prove('combined: tries int first, then float, once each', [x[0] for x in mine] == ['int', 'float'][:len(mine)] and len(mine) >= 1)
    i = mine[0][2]
    if kind == 'raise':
        ctx.prove('combined: only an exception that is not a conversion failure escapes', r.cls is UserError and mine[-1][2] is UserError)
        return
    ctx.prove('combined: other exceptions are not swallowed', all(x[2] is not UserError for x in mine))
    if not isexc(i):
        ctx.prove('combined: the int value is returned when int() succeeds', len(mine) == 1 and r is i)
        return
    ctx.prove('combined: float() is tried when int() fails', len(mine) == 2)
    fl = mine[1][2]
    if isexc(fl):
        ctx.prove('combined: the default (or the object) is returned when both fail', same(r, d))
    else:
        float_post(ctx, fl, r)
