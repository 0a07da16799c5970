"""Thread-safe regulator: every wake after a reader decided to sleep ends that sleep."""
from pydv.framework import proof
from specs.schedlib import *
from big.scheduler import Scheduler, Event, ThreadSafeRegulator
import threading

ASSUMPTIONS = [
    'threading.Event: wait returns at once when the event is set, and set ends every wait in progress; threading.Lock excludes',
    'other threads act on the regulator only through wake, and only while they hold the lock (check S02)',
    'between a reader releasing the lock and its wait, any number of complete wake calls happen; wake calls do not overlap (they hold the lock)',
]
TS = 'scheduler.ThreadSafeRegulator.'


class EventV(Hook):
    methods = ('set', 'clear', 'wait', 'is_set')
    n = 0

    def __init__(self, ctx, w, flag=False):
        self.serial = ctx.next_serial()
        self.flag = flag
        self.w = w

    def m_set(self, ctx):
        ctx.touched(self)
        self.flag = True
        self.w.signalled.add(self)

    def m_clear(self, ctx):
        ctx.touched(self)
        self.flag = False

    def m_is_set(self, ctx):
        return self.flag

    def m_wait(self, ctx, timeout=None):
        self.w.waits.append((self, self.flag, timeout))
        self.w.in_wait(self)
        return True


class World:
    def __init__(self, ctx, I):
        self.waits = []
        self.signalled = set()
        self.made = []
        self.in_wait = lambda e: None
        ctx.overrides[threading.Event] = self.make
        ctx.overrides[threading.Lock] = lambda ctx: ctx.obj('lock')

    def make(self, ctx):
        e = EventV(ctx, self)
        self.made.append(e)
        return e


def regulator(ctx, I):
    """a regulator after its construction and any number of wakes: by the invariant proved below, some unset current event"""
    w = World(ctx, I)
    r = I.call(ThreadSafeRegulator, [])
    return w, r


def state(r):
    """events reachable from the regulator, by attribute"""
    return {k: v for k, v in r.attrs.items() if isinstance(v, EventV)}


@proof('invariant', [TS + '__init__', TS + 'wake'])
def invariant(ctx, I):
    w, r = regulator(ctx, I)
    a = state(r)
    for k, e in a.items():
        ctx.prove('a new regulator has no pending wake-up', not e.flag)
    I.call(I.getattr(r, 'wake'), [])
    b = state(r)
    ctx.prove('wake keeps the regulator in a state like that after construction', set(a) == set(b) and not any(e.flag for e in b.values()))


@proof('sleep', [TS + 'sleep', TS + 'wake'], trust=['the invariant holds of every regulator state (proof "invariant"), so one wake stands for any number'])
def sleep(ctx, I):
    w, r = regulator(ctx, I)
    for _ in range(ctx.choose(3)):
        I.call(I.getattr(r, 'wake'), [])
    d = ctx.real('interval')
    f = I.getattr(r, 'sleep')
    when = ctx.choose(4)
    if when == 0:
        ctx.cover('no wake')
        I.call(f, [d])
        ctx.prove('sleep: waits once, for the interval, on an event that is not set', len(w.waits) == 1 and w.waits[0][1] is False and w.waits[0][2] is d)
    elif when == 1:
        for _ in range(1 + ctx.choose(3)):
            I.call(I.getattr(r, 'wake'), [])
        I.call(f, [d])
        ctx.prove('sleep: a wake since sleep was looked up ends it at once', all(x[1] for x in w.waits))
    elif when == 2:
        # the wake arrives during the wait
        def in_wait(e):
            w.signalled.clear()
            I.call(I.getattr(r, 'wake'), [])
            ctx.prove('sleep: a wake during the wait ends it', e in w.signalled)
        w.in_wait = in_wait
        I.call(f, [d])
    else:
        # another reader looks up, sleeps and is woken in between
        g = I.getattr(r, 'sleep')
        I.call(I.getattr(r, 'wake'), [])
        I.call(g, [ctx.real('other')])
        h = I.getattr(r, 'sleep')
        n = len(w.waits)
        I.call(f, [d])
        ctx.prove('sleep: another reader does not swallow a wake', all(x[1] for x in w.waits[n:]))
        n = len(w.waits)
        I.call(h, [d])
        ctx.prove('sleep: an old wake does not end a new sleep', len(w.waits) == n + 1 and w.waits[n][1] is False)


class Reg(RegV):
    """contract of the regulator towards the scheduler: looking up sleep under the lock fixes what ends it"""
    def getattr(self, ctx, name):
        if name == 'sleep':
            env = self.env
            env.access('looking up sleep')
            token = (env.held, env.acquired)

            def call(ctx, t):
                ctx.prove('the sleep was looked up in the critical section that looked at the queue', token == (True, env.acquired))
                ctx.prove('nobody sleeps with the lock', not env.held)
            return Native(call, 'sleep')
        return RegV.getattr(self, ctx, name)


@proof('reader', ['scheduler.Scheduler._next'])
def reader(ctx, I):
    env = Env(ctx, I, raises=False)
    env.reg = Reg(env)
    env.sch.attrs['regulator'] = env.reg
    ctx.loops[('scheduler.Scheduler._next', '*')] = LoopSpec(inv=lambda st: [('the lock is free', z3.BoolVal(not env.held))], make={})
    kind, r = I.outcome(lambda: I.call(I.getattr(env.sch, '__next__'), []))
    env.done(kind)


@proof('writers', ['scheduler.Scheduler.schedule', 'scheduler.Scheduler.cancel'])
def writers(ctx, I):
    env = Env(ctx, I, raises=False)
    if ctx.choose(2):
        kind, r = I.outcome(lambda: I.call(I.getattr(env.sch, 'schedule'), [ctx.obj('o'), ctx.real('t')]))
    else:
        kind, r = I.outcome(lambda: I.call(I.getattr(env.sch, 'cancel'), [ctx.obj('e')]))
    ctx.cover(kind)
    changed = not env.heap.cnt.eq(env.at_lock[0])
    ctx.prove('a change of the queue wakes the readers in the same critical section', not changed or (env.woken >= 1 and env.acquired == 1))
