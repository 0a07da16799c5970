"""StateManager: transition order, atomicity and non-nesting, observed at every handler call."""
import z3
from pydv.framework import proof
from pydv.values import *
from pydv.models import Hook, term, fresh_list, seq_term
from pydv.interp import PyExc, LoopSpec
from pydv.ctx import Unsupported
from specs.common import prefix
from big.state import StateManager, TransitionError

ASSUMPTIONS = [
    'user handlers and observers reach the manager only through its public interface: between two statements they may change the observer list, '
    'and may try to start a transition, which (proved as the obligations of "nested") changes nothing while one is pending',
    'None has no attribute named like a handler',
]
SeqO = z3.SeqSort(Obj)
HAS = z3.Function('has_handler', Obj, StringS, BoolS)
EV = z3.Function('handler_call', Obj, StringS, Obj)
S, N = '_StateManager__state', '_StateManager__next'


class UserError(Exception):
    pass


class StateV(Hook):
    def __init__(self, ctx, nm):
        self.serial = ctx.next_serial()
        self.t = ctx.fresh(Obj, nm)

    def getattr(self, ctx, name):
        if name.startswith('__'):
            return None
        r = ctx.ghost['getattr_dyn'](ctx, self, name, None)
        return r

    def truth(self, ctx):
        return ctx.branch(z3.Function('truthy', Obj, BoolS)(self.t))


def cur(sm):
    return sm.attrs.get(S)


def nxt(sm):
    return sm.attrs.get(N)


def user_code(ctx, sm):
    """arbitrary caller code: may change the observer list, may raise"""
    l = sm.attrs.get('observers')
    if isinstance(l, PList):
        ctx.touched(l)
        new = fresh_list(ctx.interp, frozenset([('obj', None)]), seq=True)
        l.prefix, l.items = new.prefix, []
    if ctx.choose(2):
        raise PyExc(ExcV(UserError))


def setup(ctx, I, sm_of, old, new, names):
    """names: dict handler kind -> name term or None"""
    trace = PList(ctx)
    trace.prefix = fresh_list(I, frozenset([('obj', None)]), seq=True).prefix
    ctx.ghost['trace'] = trace
    ctx.t0 = trace.prefix.seq
    ctx.phase = []

    def dyn(ctx, o, name, *d):
        if o is None:
            return d[0]
        if not isinstance(o, StateV):
            raise Unsupported('getattr of something that is no state')
        nm = term(name)
        if not ctx.branch(HAS(o.t, nm)):
            if d:
                return d[0]
            raise PyExc(ExcV(AttributeError))
        return Native(lambda ctx: handler(ctx, o, nm), 'handler')

    def handler(ctx, o, nm):
        sm = sm_of()
        if o is old() and nxt(sm) is not None:
            ctx.prove('exit handler: the old state is still current and the new one pending',
                      cur(sm) is old() and nxt(sm) is new)
            ctx.prove('exit handler: looked up by the configured name', z3.BoolVal(names['exit'] is not None) if names['exit'] is None else nm == names['exit'])
            ctx.prove('exit handler: runs before anything else', z3.BoolVal(ctx.phase == []))
            ctx.phase.append('exit')
        else:
            ctx.prove('enter handler: of the new state', o is new)
            ctx.prove('enter handler: the new state is current and none is pending', cur(sm) is new and nxt(sm) is None)
            ctx.prove('enter handler: looked up by the configured name', z3.BoolVal(names['enter'] is not None) if names['enter'] is None else nm == names['enter'])
            ctx.prove('enter handler: runs once', 'enter' not in ctx.phase)
            ctx.phase.append('enter')
        M_append(ctx, trace, EV(o.t, nm))
        user_code(ctx, sm)
        if ctx.phase[-1] == 'exit':
            ctx.obs = seq0(ctx.interp, sm.attrs['observers'])
        return None
    ctx.ghost['getattr_dyn'] = dyn
    ctx.ghost['obj_attr'] = lambda ctx, o, name: ctx.str('name') if name == '__name__' else None

    def obs_call(ctx, o, args, kw):
        sm = sm_of()
        ctx.prove('observer: called with the manager', len(args) == 1 and not kw and args[0] is sm)
        ctx.prove('observer: the old state is still current and the new one pending', cur(sm) is old() and nxt(sm) is new)
        ctx.prove('observer: runs before the enter handler', 'enter' not in ctx.phase)
        M_append(ctx, trace, o.t)
        user_code(ctx, sm)
        return ctx.obj('ignored')
    ctx.ghost['call_obj'] = obs_call
    ctx.ghost['isinstance_dyn'] = lambda ctx, v, t: z3.Function('instance', Obj, Obj, BoolS)(v.t, t.t) if isinstance(v, StateV) else ctx.fresh(BoolS, 'inst')
    return trace


def M_append(ctx, l, t):
    from pydv.models import list_append
    list_append(ctx.interp, l, SObj(t))


def seq0(I, l):
    t = seq_term(I, l)
    return z3.Empty(SeqO) if t is None else t


def loop(ctx, I, sm):
    def inv(st):
        tr = seq0(I, ctx.ghost['trace'])
        return [('each observer so far ran once, in order',
                 tr == z3.Concat(ctx.before, prefix(ctx, ctx.obs, st.k if st.k is not None else st.n)))]
    ctx.loops[('state.StateManager.state', '*')] = LoopSpec(inv=inv, seq=True)


def pre(ctx, I, with_pending=False):
    ctx.folds.clear()
    old = StateV(ctx, 'old')
    new = StateV(ctx, 'new')
    names = {}
    for k in ('enter', 'exit'):
        names[k] = None if ctx.choose(2) else ctx.fresh(StringS, k)
        if names[k] is not None:
            ctx.assume(z3.Length(names[k]) > 0)
    obs = fresh_list(I, frozenset([('obj', None)]), seq=True)
    cls = None if ctx.choose(2) else ctx.obj('cls')
    attrs = {S: old, N: None, 'observers': obs, 'state_class': cls,
             'on_enter': None if names['enter'] is None else SStr(names['enter']),
             'on_exit': None if names['exit'] is None else SStr(names['exit'])}
    sm = PObj(ctx, StateManager, attrs)
    return sm, old, new, names, obs, cls


SETTER = 'state.StateManager.state'


@proof('transition', [SETTER], budget=120)
def transition(ctx, I):
    sm, old, new, names, obs, cls = pre(ctx, I)
    trace = setup(ctx, I, lambda: sm, lambda: old, new, names)
    ctx.obs = seq0(I, obs)
    exits = z3.BoolVal(False) if names['exit'] is None else HAS(old.t, names['exit'])
    enters = z3.BoolVal(False) if names['enter'] is None else HAS(new.t, names['enter'])
    before = z3.If(exits, z3.Concat(ctx.t0, z3.Unit(EV(old.t, names['exit'] if names['exit'] is not None else z3.StringVal('')))), ctx.t0)
    ctx.before = ctx.fresh(SeqO, 'before')
    ctx.assume(ctx.before == before)
    loop(ctx, I, sm)
    # an observer list changed by the exit handler counts as "registered at that moment"
    kind, r = I.outcome(lambda: I.setattr(sm, 'state', new))
    inst = z3.BoolVal(True) if cls is None else z3.Function('instance', Obj, Obj, BoolS)(new.t, cls.t)
    tr = seq0(I, ctx.ghost['trace'])
    if kind == 'return':
        ctx.cover('transition completes')
        want = z3.Concat(ctx.before, ctx.obs)
        if names['enter'] is not None:
            want = z3.If(enters, z3.Concat(want, z3.Unit(EV(new.t, names['enter']))), want)
        ctx.prove('transition: exactly the exit handler, the observers in order and the enter handler ran', tr == want)
        ctx.prove('transition: only to an instance of the configured class', inst)
        ctx.prove('transition: the new state is current and none is pending', cur(sm) is new and nxt(sm) is None)
    elif r.cls is UserError:
        entered = 'enter' in ctx.phase
        if entered:
            ctx.prove('failed enter handler: the new state stays current, none pending', cur(sm) is new and nxt(sm) is None)
        else:
            ctx.cover('a handler fails')
            ctx.prove('failed handler: the state is unchanged and none is pending', cur(sm) is old and nxt(sm) is None)
    else:
        ctx.prove('transition: refused only with TypeError for a non-instance', z3.And(z3.BoolVal(r.cls is TypeError), z3.Not(inst)))
        ctx.prove('refused transition: nothing changes', z3.And(z3.BoolVal(cur(sm) is old and nxt(sm) is None), tr == ctx.t0))


@proof('to the current state', [SETTER])
def same_state(ctx, I):
    sm, old, new, names, obs, cls = pre(ctx, I)
    setup(ctx, I, lambda: sm, lambda: old, new, names)
    kind, r = I.outcome(lambda: I.setattr(sm, 'state', old))
    ctx.prove('same state: refused', kind == 'raise' and (r.cls is TransitionError or (cls is not None and r.cls is TypeError)))
    ctx.prove('same state: nothing changes', z3.And(z3.BoolVal(cur(sm) is old and nxt(sm) is None), seq0(I, ctx.ghost['trace']) == ctx.t0,
                                                   seq0(I, sm.attrs['observers']) == seq0(I, obs)))


@proof('to None', [SETTER])
def to_none(ctx, I):
    sm, old, new, names, obs, cls = pre(ctx, I)
    setup(ctx, I, lambda: sm, lambda: old, new, names)
    kind, r = I.outcome(lambda: I.setattr(sm, 'state', None))
    ctx.prove('None: refused', kind == 'raise' and r.cls in (ValueError, TypeError))
    ctx.prove('None: nothing changes', z3.And(z3.BoolVal(cur(sm) is old and nxt(sm) is None), seq0(I, ctx.ghost['trace']) == ctx.t0))


@proof('nested', [SETTER, 'state.StateManager.next'])
def nested(ctx, I):
    sm, old, new, names, obs, cls = pre(ctx, I)
    pending = StateV(ctx, 'pending')
    sm.attrs[N] = pending
    setup(ctx, I, lambda: sm, lambda: old, new, names)
    ctx.prove('next: is the pending state', I.getattr(sm, 'next') is pending)
    ctx.prove('state: is the current state', I.getattr(sm, 'state') is old)
    target = [new, pending, old][ctx.choose(3)]
    kind, r = I.outcome(lambda: I.setattr(sm, 'state', target))
    ctx.prove('nested: refused while a transition is pending', kind == 'raise' and (r.cls is TransitionError or (cls is not None and r.cls is TypeError)))
    ctx.prove('nested: nothing changes', z3.And(z3.BoolVal(cur(sm) is old and nxt(sm) is pending), seq0(I, ctx.ghost['trace']) == ctx.t0,
                                               seq0(I, sm.attrs['observers']) == seq0(I, obs)))


@proof('construction', ['state.StateManager.__init__', SETTER], budget=100)
def construction(ctx, I):
    new = StateV(ctx, 'new')
    names = {'enter': z3.StringVal('on_enter'), 'exit': z3.StringVal('on_exit')}
    kw = {}
    for k in ('enter', 'exit'):
        c = ctx.choose(3)
        if c == 1:
            kw['on_' + k] = [None, ''][ctx.choose(2)]
            names[k] = None
        elif c == 2:
            nm = ['handle_it', 'on_enter'][ctx.choose(2)]
            kw['on_' + k] = nm
            names[k] = z3.StringVal(nm)
    box = []
    trace = setup(ctx, I, lambda: box[0], lambda: None, new, names)
    ctx.obs = z3.Empty(SeqO)
    ctx.before = ctx.t0
    loop(ctx, I, None)
    sm = PObj(ctx, StateManager, {})
    box.append(sm)
    kind, r = I.outcome(lambda: I.call(StateManager.__init__, [sm, new], kw))
    if kind == 'return':
        want = ctx.t0
        if names['enter'] is not None:
            want = z3.If(HAS(new.t, names['enter']), z3.Concat(ctx.t0, z3.Unit(EV(new.t, names['enter']))), ctx.t0)
        ctx.prove('construction: the initial state is entered once and nothing else runs', seq0(I, ctx.ghost['trace']) == want)
        ctx.prove('construction: the initial state is current, none pending', cur(sm) is new and nxt(sm) is None)
        l = sm.attrs['observers']
    else:
        ctx.prove('construction: only the enter handler may fail', r.cls is UserError and 'enter' in ctx.phase)


@proof('construction, invalid', ['state.StateManager.__init__'])
def invalid(ctx, I):
    new = StateV(ctx, 'new')
    bad = [dict(on_enter=3), dict(on_enter='not an identifier'), dict(on_exit=('x',)), dict(on_exit='1x'),
           dict(state_class='str'), dict(state_class=3), None][ctx.choose(7)]
    box = []
    setup(ctx, I, lambda: box[0], lambda: None, new, {'enter': None, 'exit': None})
    sm = PObj(ctx, StateManager, {})
    box.append(sm)
    kind, r = I.outcome(lambda: I.call(StateManager.__init__, [sm, None if bad is None else new], bad or {}))
    ctx.prove('construction: invalid arguments are refused before any state is entered',
              kind == 'raise' and r.cls in (TypeError, ValueError) and cur(sm) is None)
