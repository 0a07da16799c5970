"""accessor and dispatch: forwarding to the current state, for every name and argument list."""
import functools
import inspect
import z3
from pydv.framework import proof
from pydv.values import *
from pydv.models import Hook, term, Opaque, StarArgs, PropV, concat
from pydv.interp import PyExc
from pydv.ctx import Unsupported
from big.state import accessor, dispatch, StateManager

ASSUMPTIONS = ['getattr and setattr by name are Python\'s: reading the manager attribute of an instance may run arbitrary code, so the result may differ from read to read',
               'property, functools.update_wrapper and inspect.signature behave as documented',
               'reading or setting the manager\'s "state" performs the transition semantics of check M01']
GET = z3.Function('attribute', Obj, StringS, IntS, Obj)


class UserError(Exception):
    pass


class ClsV(Hook):
    def __init__(self, ctx):
        self.serial = ctx.next_serial()
        self.set = []

    def getattr(self, ctx, name):
        return None

    def setattr(self, ctx, name, v):
        self.set.append((z3.StringVal(name), v))


class FnV(Hook):
    def __init__(self, ctx, name):
        self.serial = ctx.next_serial()
        self.name = name

    def getattr(self, ctx, name):
        return SStr(self.name) if name == '__name__' else ctx.obj(name)


def setup(ctx, I):
    """objects are opaque; every attribute access is logged and may give a different object each time, or raise"""
    ctx.log = []

    def read(ctx, o, name, *d):
        if isinstance(o, SObj):
            if ctx.choose(2):
                ctx.log.append(('raise', o, term(name), None))
                raise PyExc(ExcV(UserError))
            r = SObj(GET(o.t, term(name), z3.IntVal(len(ctx.log))))
            ctx.log.append(('get', o, term(name), r))
            return r
        raise Unsupported('attribute of something else')

    def write(ctx, o, name, v):
        if isinstance(o, ClsV):
            o.set.append((term(name), v))
            return
        ctx.log.append(('set', o, term(name), v))
        if ctx.choose(2):
            ctx.log.append(('raise', o, term(name), None))
            raise PyExc(ExcV(UserError))

    class Mgr:
        pass
    ctx.ghost['getattr_dyn'] = read
    ctx.ghost['setattr_dyn'] = write
    ctx.ghost['obj_attr'] = lambda ctx, o, name: read(ctx, o, name)
    ctx.ghost['obj_setattr'] = write


def names(ctx, I, kw_names):
    out = {}
    for k in kw_names:
        if ctx.choose(2):
            out[k] = ctx.str(k)
    return out


def reads(ctx):
    return [e for e in ctx.log]


@proof('accessor', ['state.accessor', 'state.accessor.accessor', 'state.accessor.accessor.getter', 'state.accessor.accessor.setter'])
def acc(ctx, I):
    setup(ctx, I)
    kw = names(ctx, I, ['attribute', 'state_manager'])
    deco = I.call(accessor, [], kw)
    # a second decorator with other names must not disturb the first
    other = I.call(accessor, [], {'attribute': ctx.str('attr2'), 'state_manager': ctx.str('manager2')})
    c, c2 = ClsV(ctx), ClsV(ctx)
    r = I.call(deco, [c])
    n = len(c.set)
    I.call(other, [c2])
    ctx.prove('accessor: returns the class', r is c)
    ctx.prove('accessor: installs exactly one attribute, on the decorated class', len(c.set) == 1 and n == 1)
    name, p = c.set[0]
    ctx.prove('accessor: under the chosen name, "state" by default', name == term(kw.get('attribute', 'state')))
    ctx.prove('accessor: the attribute is a property', isinstance(p, PropV))
    mgr = term(kw.get('state_manager', 'state_manager'))
    o = ctx.obj('instance')
    for again in range(2):
        ctx.log = []
        if ctx.choose(2):
            kind, v = I.outcome(lambda: I.call(p.fget, [o]))
            L = ctx.log
            ctx.prove('read: starts at the instance\'s manager attribute', z3.And(z3.BoolVal(L[0][1] is o), L[0][2] == mgr))
            if kind == 'return':
                ctx.cover('read')
                ctx.prove('read: the current state of that manager, read now', z3.And(z3.BoolVal(len(L) == 2 and L[1][0] == 'get'), L[1][1].t == L[0][3].t, L[1][2] == z3.StringVal('state')))
                ctx.prove('read: returns it', v.t == L[1][3].t)
            else:
                ctx.prove('read: an exception passes through', L[-1][0] == 'raise' and v.cls is UserError)
        else:
            x = ctx.obj('value')
            kind, v = I.outcome(lambda: I.call(p.fset, [o, x]))
            L = ctx.log
            ctx.prove('write: starts at the instance\'s manager attribute', z3.And(z3.BoolVal(L[0][1] is o), L[0][2] == mgr))
            if kind == 'return':
                ctx.cover('write')
                ctx.prove('write: one transition on that manager', z3.And(z3.BoolVal(len(L) == 2 and L[1][0] == 'set' and L[1][3] is x), L[1][1].t == L[0][3].t, L[1][2] == z3.StringVal('state')))
            else:
                ctx.prove('write: an exception passes through', L[-1][0] == 'raise' and v.cls is UserError)


@proof('dispatch', ['state.dispatch', 'state.dispatch.dispatch', 'state.dispatch.dispatch.wrapper'])
def dis(ctx, I):
    setup(ctx, I)
    made = []
    ctx.overrides[functools.update_wrapper] = lambda ctx, w, f: (made.append((w, f)), w)[1]
    ctx.overrides[inspect.signature] = lambda ctx, f: ctx.obj('signature')
    kw = names(ctx, I, ['prefix', 'suffix'])
    mgrname = 'state_manager'
    args = []
    if ctx.choose(2):
        mgrname = ctx.str('manager')
        args = [mgrname]
    deco = I.call(dispatch, args, kw)
    fn, fn2 = FnV(ctx, ctx.fresh(StringS, 'fname')), FnV(ctx, ctx.fresh(StringS, 'fname2'))
    w = I.call(deco, [fn])
    I.call(deco, [fn2])
    I.call(I.call(dispatch, [ctx.str('m2')], {'prefix': ctx.str('p2'), 'suffix': ctx.str('s2')}), [fn2])
    ctx.prove('dispatch: the wrapper takes over the function\'s metadata', any(a is w and b is fn for a, b in made))
    o = ctx.obj('instance')
    A, K = Opaque('args'), Opaque('kwargs')
    calls = []

    def call_obj(ctx, m, args, kw):
        calls.append((m, args, kw))
        if ctx.choose(2):
            ctx.log.append(('raise', m, None, None))
            raise PyExc(ExcV(UserError))
        res = ctx.obj('result')
        ctx.log.append(('call', m, None, res))
        return res
    ctx.ghost['call_obj'] = call_obj
    for again in range(2):
        ctx.log = []
        del calls[:]
        kind, r = I.outcome(lambda: I.call(w, [o, StarArgs(A)], {'**': K}))
        L = ctx.log
        g = [e for e in L if e[0] == 'get']
        if kind == 'raise':
            ctx.prove('call: an exception passes through', r.cls is UserError and L[-1][0] == 'raise')
            ctx.prove('call: the method is called at most once', len(calls) <= 1)
            continue
        ctx.cover('dispatched')
        ctx.prove('call: manager, its state, the method: each looked up once, now', len(g) == 3 and len(calls) == 1)
        want = z3.Concat(term(kw.get('prefix', '')), fn.name, term(kw.get('suffix', '')))
        ctx.prove('call: the manager named', z3.And(z3.BoolVal(g[0][1] is o), g[0][2] == term(mgrname)))
        ctx.prove('call: its current state', z3.And(g[1][1].t == g[0][3].t, g[1][2] == z3.StringVal('state')))
        ctx.prove('call: the method named prefix + name + suffix', z3.And(g[2][1].t == g[1][3].t, g[2][2] == want))
        m, a, k = calls[0]
        ctx.prove('call: exactly the given arguments', len(a) == 1 and isinstance(a[0], StarArgs) and a[0].o is A and set(k) == {'**'} and k['**'] is K)
        ctx.prove('call: of that method', m.t == g[2][3].t)
        ctx.prove('call: returns its result', r is L[-1][3])
