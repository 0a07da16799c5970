"""Scheduler: lock discipline at every access, sleep, hand-over and exit, with every callee allowed to raise."""
from pydv.framework import proof
from specs.schedlib import *
from big.scheduler import Scheduler, Event, Regulator, ThreadSafeRegulator, InertContextManager
import threading

ASSUMPTIONS = ['big.heap.Heap obeys its contract (checks H01 and H02); comparing events may raise what the user\'s times raise',
               'the shared state is the queue and the event counter of one scheduler, reached through the scheduler\'s own attributes']


def finish(ctx, env, kind, n=1):
    env.done(kind)
    ctx.prove('the operation takes the lock', env.acquired >= n)


@proof('schedule', ['scheduler.Scheduler.schedule'])
def schedule(ctx, I):
    env = Env(ctx, I)
    kw = {}
    if ctx.choose(2):
        kw['absolute'] = bool(ctx.choose(2))
    if ctx.choose(2):
        kw['priority'] = ctx.real('priority')
    kind, r = I.outcome(lambda: I.call(I.getattr(env.sch, 'schedule'), [ctx.obj('o'), ctx.real('time')], kw))
    ctx.cover('schedule ' + kind)
    finish(ctx, env, kind)
    if kind == 'return':
        ctx.prove('schedule: adds and wakes under one lock', env.acquired == 1)


@proof('cancel', ['scheduler.Scheduler.cancel', 'scheduler.Event.cancel'])
def cancel(ctx, I):
    env = Env(ctx, I)
    e = ctx.obj('event')
    if ctx.choose(2):
        ev = PObj(ctx, Event, dict(scheduler=env.sch, event=ctx.obj(), time=ctx.real(), priority=ctx.real(), sequence=ctx.int()))
        ctx.ghost['obj_eq'] = lambda ctx, o, c: False

        def rem(ctx, o):
            env.heap.acc()
            env.heap.boom(ctx)
            if ctx.choose(2):
                raise PyExc(ExcV(ValueError))
        env.heap.m_remove = rem
        kind, r = I.outcome(lambda: I.call(I.getattr(ev, 'cancel'), []))
    else:
        kind, r = I.outcome(lambda: I.call(I.getattr(env.sch, 'cancel'), [e]))
    ctx.cover('cancel ' + kind)
    finish(ctx, env, kind)


def reading(ctx, I, blocking):
    env = Env(ctx, I)
    s = env.sch
    it = I.call(I.getattr(s, '__iter__'), []) if blocking else I.call(I.getattr(I.call(I.getattr(s, 'non_blocking'), []), '__iter__'), [])
    ctx.prove('making an iterator takes no lock', not env.held and env.acquired == 0)
    ctx.loops[('scheduler.Scheduler._next', '*')] = LoopSpec(inv=lambda st: [('the lock is free', z3.BoolVal(not env.held))], make={})

    def slept(t):
        ctx.prove('only a blocking read sleeps', blocking)
    env.on_sleep = slept
    kind, r = I.outcome(lambda: I.call(I.getattr(it, '__next__'), []))
    ctx.cover('read ' + kind)
    finish(ctx, env, kind)


FN = ['scheduler.Scheduler._next']


@proof('blocking read', FN + ['scheduler.Scheduler.__next__', 'scheduler.Scheduler.__iter__'])
def read_b(ctx, I):
    reading(ctx, I, True)


@proof('non-blocking read', FN + ['scheduler.Scheduler.non_blocking', 'scheduler.Scheduler.NonBlockingSchedulerIterator.__next__'])
def read_nb(ctx, I):
    reading(ctx, I, False)


@proof('views', ['scheduler.Scheduler.__bool__', 'scheduler.Scheduler.queue'])
def views(ctx, I):
    env = Env(ctx, I)
    kind, r = I.outcome((lambda: I.truth(env.sch)) if ctx.choose(2) else (lambda: I.getattr(env.sch, 'queue')))
    finish(ctx, env, kind)


@proof('regulators', ['scheduler.ThreadSafeRegulator.__init__', 'scheduler.InertContextManager.__enter__', 'scheduler.InertContextManager.__exit__'])
def regulators(ctx, I):
    made = []

    def mk(what):
        def f(ctx, *a, **k):
            o = ctx.obj(what)
            made.append((what, o))
            return o
        return f
    ctx.overrides[threading.Lock] = mk('lock')
    ctx.overrides[threading.Event] = mk('event')
    r = I.call(ThreadSafeRegulator, [])
    ctx.prove('ThreadSafeRegulator: a real lock of its own', [w for w, o in made].count('lock') == 1 and any(r.attrs.get('lock') is o for w, o in made if w == 'lock'))
    i = PObj(ctx, InertContextManager, {})
    I.call(I.getattr(i, '__enter__'), [])
    ctx.prove('inert lock: swallows no exception', not I.truth(I.call(I.getattr(i, '__exit__'), [ctx.obj(), ctx.obj(), ctx.obj()])))
    ctx.prove('regulators have a lock by default', isinstance(vars(Regulator)['lock'], InertContextManager))
