"""Scheduler: which event is yielded when, as seen at the lock."""
import z3
from pydv.framework import proof
from specs.schedlib import *
from big.scheduler import Scheduler, Event, SingleThreadedRegulator, ThreadSafeRegulator, default_regulator
import time as _time

ASSUMPTIONS = ['big.heap.Heap obeys its contract (checks H01 and H02)', 'events have pairwise different sequence numbers (each comes from a fresh counter value)']


def same(a, b):
    return z3.ForAll([x], z3.Select(a, x) == z3.Select(b, x), patterns=[z3.Select(a, x)])


@proof('event order', ['scheduler.Event.__lt__'])
def order(ctx, I):
    def ev(n):
        return PObj(ctx, Event, dict(scheduler=None, event=ctx.obj(), time=ctx.real('t' + n), priority=ctx.real('p' + n), sequence=ctx.int('s' + n)))
    a, b = ev('a'), ev('b')
    r = I.call(Event.__lt__, [a, b])
    r = z3.BoolVal(I.truth(r))
    A, B = a.attrs, b.attrs
    t1, t2, p1, p2, s1, s2 = (A['time'].t, B['time'].t, A['priority'].t, B['priority'].t, A['sequence'].t, B['sequence'].t)
    want = z3.Or(t1 < t2, z3.And(t1 == t2, z3.Or(p1 < p2, z3.And(p1 == p2, s1 < s2))))
    ctx.prove('event order: by time, then priority, then scheduling order', r == want)


@proof('event', ['scheduler.Event.__init__', 'scheduler.Event.cancel'])
def event(ctx, I):
    s, o = PObj(ctx, Scheduler, {}), ctx.obj('o')
    t, p, n = ctx.real('t'), ctx.real('p'), ctx.int('n')
    e = I.call(Event, [s, o, t, p, n])
    A = e.attrs
    ctx.prove('event: holds what it was given', A['scheduler'] is s and A['event'] is o and A['time'] is t and A['priority'] is p and A['sequence'] is n)
    got = []
    ctx.contracts['scheduler.Scheduler.cancel'] = lambda ctx, self, ev: got.append((self, ev))
    I.call(I.getattr(e, 'cancel'), [])
    ctx.prove('event.cancel: cancels itself at its scheduler', len(got) == 1 and got[0][0] is s and got[0][1] is e)


@proof('schedule', ['scheduler.Scheduler.schedule', 'scheduler.Event.__init__'])
def schedule(ctx, I):
    env = Env(ctx, I, raises=False)
    o, t = ctx.obj('o'), ctx.real('time')
    kw = {}
    absolute = ctx.choose(3)
    if absolute:
        kw['absolute'] = absolute == 2
    if ctx.choose(2):
        kw['priority'] = ctx.real('priority')
    e = I.call(I.getattr(env.sch, 'schedule'), [o, t], kw)
    ctx.prove('schedule: adds exactly one event in one locked step', len(env.added) == 1 and env.acquired == 1)
    ev, et = env.added[0]
    c, k = env.at_lock
    ctx.prove('schedule: returns the event it added', e is ev)
    ctx.prove('schedule: everything else stays', same(env.heap.cnt, add(c, et)))
    if absolute == 2:
        ctx.prove('schedule: absolute times are kept', TIME(et) == t.t)
    else:
        ctx.prove('schedule: relative times count from the clock at scheduling', z3.BoolVal(False) if env.now is None else TIME(et) == t.t + env.now)
    ctx.prove('schedule: the priority given or the default 100', PRIO(et) == (kw['priority'].t if 'priority' in kw else 100))
    ctx.prove('schedule: the payload given', PAY(et) == o.t)
    ctx.prove('schedule: later than every waiting event in scheduling order',
              z3.ForAll([x], z3.Implies(z3.Select(c, x) > 0, SEQ(x) < SEQ(et)), patterns=[z3.Select(c, x)]))
    ctx.prove('schedule: later than every event ever scheduled', SEQ(et) > k)
    ctx.prove('schedule: belongs to this scheduler', ev.attrs['scheduler'] is env.sch)
    ctx.prove('schedule: a sleeping reader is woken', env.woken >= 1)


@proof('cancel', ['scheduler.Scheduler.cancel'])
def cancel(ctx, I):
    env = Env(ctx, I, raises=False)
    e = ctx.obj('event')
    kind, r = I.outcome(lambda: I.call(I.getattr(env.sch, 'cancel'), [e]))
    c, k = env.at_lock
    if kind == 'return':
        ctx.cover('cancel succeeds')
        ctx.prove('cancel: the event was waiting', z3.Select(c, e.t) > 0)
        ctx.prove('cancel: removes exactly that event', same(env.heap.cnt, add(c, e.t, -1)))
        ctx.prove('cancel: a sleeping reader is woken', env.woken >= 1)
    else:
        ctx.prove('cancel: fails only when the event is not waiting', z3.And(z3.BoolVal(r.cls is ValueError), z3.Select(c, e.t) == 0))
        ctx.prove('failed cancel: nothing changes', same(env.heap.cnt, c))


def reading(ctx, I, blocking):
    env = Env(ctx, I, raises=False)
    s = env.sch
    if blocking:
        it = I.call(I.getattr(s, '__iter__'), [])
    else:
        it = I.call(I.getattr(s, 'non_blocking'), [])
        it = I.call(I.getattr(it, '__iter__'), [])

    def on_sleep(t):
        env.sleeps += 1
        ctx.prove('read: only a blocking read sleeps', blocking)
        c, k = env.at_lock
        ctx.prove('read: no event is lost before sleeping', same(env.at_release, c))
        if env.now is None:
            ctx.prove('read: the clock was read', False)
        e = ctx.fresh(Obj, 'first')
        ctx.assume(z3.Implies(TOT(c) > 0, first(c, e)))
        ctx.assume(z3.Implies(TOT(c) == 0, z3.Not(z3.Select(c, e) > 0)))
        ctx.prove('read: sleeps only while something is waiting', TOT(c) > 0)
        ctx.prove('read: sleeps exactly until the first event', numterm(t) == TIME(e) - env.now)
        ctx.prove('read: sleeps only when nothing is due', TIME(e) > env.now)
    env.on_sleep = on_sleep
    ctx.loops[('scheduler.Scheduler._next', '*')] = LoopSpec(
        inv=lambda st: [('the lock is free', z3.BoolVal(not env.held))], make={})
    kind, r = I.outcome(lambda: I.call(I.getattr(it, '__next__'), []))
    c, k = env.at_lock
    env.done(kind)
    if kind == 'return':
        ctx.cover('an event is yielded')
        e = ctx.fresh(Obj, 'due')
        ctx.assume(z3.Implies(TOT(c) > 0, first(c, e)))
        ctx.assume(z3.Implies(TOT(c) == 0, z3.Select(c, e) == 0))
        ctx.prove('read: yields only a waiting event', TOT(c) > 0)
        ctx.prove('read: yields the first event by time, priority and order', r.t == PAY(e))
        ctx.prove('read: never before its time', False if env.now is None else TIME(e) <= env.now)
        ctx.prove('read: removes exactly the yielded event', same(env.heap.cnt, add(c, e, -1)))
    else:
        ctx.cover('reading stops')
        ctx.prove('read: stops with StopIteration', r.cls is StopIteration)
        ctx.prove('read: stopping loses no event', same(env.heap.cnt, c))
        if blocking:
            ctx.prove('read: stops only when no event is waiting', TOT(c) == 0)
        elif ctx.branch(TOT(c) > 0):
            e = ctx.fresh(Obj, 'notdue')
            ctx.assume(first(c, e))
            ctx.prove('read: a non-blocking read stops only when nothing is due', False if env.now is None else TIME(e) > env.now)


SEQS = 'events are compared by (time, priority, sequence), so the first one is unique'


@proof('blocking read', ['scheduler.Scheduler._next', 'scheduler.Scheduler.__next__', 'scheduler.Scheduler.__iter__'], budget=100, trust=[SEQS])
def read_b(ctx, I):
    unique(ctx)
    reading(ctx, I, True)


@proof('non-blocking read', ['scheduler.Scheduler._next', 'scheduler.Scheduler.non_blocking', 'scheduler.Scheduler.NonBlockingSchedulerIterator.__next__',
                             'scheduler.Scheduler.NonBlockingSchedulerIterator.__init__', 'scheduler.Scheduler.NonBlockingSchedulerIterator.__iter__'], budget=100, trust=[SEQS])
def read_nb(ctx, I):
    unique(ctx)
    reading(ctx, I, False)


def unique(ctx):
    a, b = z3.Const('a!u', Obj), z3.Const('b!u', Obj)
    ctx.assume(z3.ForAll([a, b], z3.Implies(SEQ(a) == SEQ(b), a == b), patterns=[z3.MultiPattern(SEQ(a), SEQ(b))]))


@proof('views', ['scheduler.Scheduler.__bool__', 'scheduler.Scheduler.queue'])
def views(ctx, I):
    env = Env(ctx, I, raises=False)
    if ctx.choose(2):
        r = I.truth(env.sch)
        ctx.prove('truth: something is waiting', z3.BoolVal(r) == (TOT(env.at_lock[0]) > 0))
    else:
        r = I.getattr(env.sch, 'queue')
        ctx.prove('queue: exactly the waiting events in order', isinstance(r, SeqL) and not r.rev and r.t.eq(SORTED(env.at_lock[0])))
    ctx.prove('views: nothing changes', same(env.heap.cnt, env.at_lock[0]))


@proof('construction', ['scheduler.Scheduler.__init__', 'heap.Heap.__init__'])
def construction(ctx, I):
    r = ctx.obj('regulator')
    c = ctx.choose(2)
    s = I.call(Scheduler, [r] if c else [])
    ctx.prove('construction: uses the given regulator or the default one', s.attrs['regulator'] is (r if c else default_regulator))
    h = s.attrs['heap']
    q = h.attrs['_queue']
    ctx.prove('construction: nothing is waiting', isinstance(q, PList) and q.prefix is None and not q.items)


@proof('regulators', ['scheduler.SingleThreadedRegulator.now', 'scheduler.SingleThreadedRegulator.sleep', 'scheduler.SingleThreadedRegulator.wake',
                      'scheduler.ThreadSafeRegulator.now', 'scheduler.ThreadSafeRegulator.sleep'])
def regulators(ctx, I):
    now = ctx.real('monotonic')
    slept = []
    ctx.overrides[_time.monotonic] = lambda ctx: now
    ctx.overrides[_time.sleep] = lambda ctx, t: slept.append(t)

    class EventV(Hook):
        methods = ('set', 'clear', 'wait')

        def m_set(self, ctx):
            log.append('set')

        def m_clear(self, ctx):
            log.append('clear')

        def m_wait(self, ctx, timeout=None):
            slept.append(timeout)
            return True
    log = []
    d = ctx.real('interval')
    if ctx.choose(2):
        r = PObj(ctx, SingleThreadedRegulator, {})
    else:
        r = PObj(ctx, ThreadSafeRegulator, {'event': EventV(), 'lock': None})
    ctx.prove('regulator.now: the monotonic clock', I.call(I.getattr(r, 'now'), []) is now)
    I.call(I.getattr(r, 'sleep'), [d])
    ctx.prove('regulator.sleep: waits once for the given interval', len(slept) == 1 and slept[0] is d)
    I.call(I.getattr(r, 'wake'), [])
    ctx.prove('regulator.wake: signals a sleeper, if there can be one', r.cls is SingleThreadedRegulator or 'set' in log)
