"""Environment of the scheduler: user regulator, lock with rely/guarantee, contract of Heap over events."""
import z3
from pydv.values import *
from pydv.models import Hook, term, numterm, wrapnum, wrapbool
from pydv.interp import PyExc, LoopSpec
from pydv.ctx import Unsupported
from specs.heaplib import CntS, SORTED, TOT, add, wf, x, SeqL
from big.scheduler import Scheduler, Event

TIME = z3.Function('event_time', Obj, RealS)
PRIO = z3.Function('event_priority', Obj, RealS)
SEQ = z3.Function('event_sequence', Obj, IntS)
PAY = z3.Function('event_payload', Obj, Obj)


class UserError(Exception):
    pass


def lt(a, b):
    """the specified order: time, then priority, then sequence"""
    return z3.Or(TIME(a) < TIME(b), z3.And(TIME(a) == TIME(b), z3.Or(PRIO(a) < PRIO(b), z3.And(PRIO(a) == PRIO(b), SEQ(a) < SEQ(b)))))


def first(c, e):
    return z3.And(z3.Select(c, e) > 0, z3.ForAll([x], z3.Implies(z3.Select(c, x) > 0, z3.Not(lt(x, e))), patterns=[z3.Select(c, x)]))


class HeapV(Hook):
    """contract of big.heap.Heap (proved as H01, H02) over events"""
    methods = ('append', 'popleft', 'remove')

    def __init__(self, env):
        self.serial = env.ctx.next_serial()
        self.env = env
        self.cnt = env.ctx.fresh(CntS, 'waiting')
        wf(env.ctx, self.cnt)

    def acc(self):
        self.env.access('the queue')

    def havoc(self, ctx):
        self.cnt = ctx.fresh(CntS, 'waiting')
        wf(ctx, self.cnt)

    def truth(self, ctx):
        self.acc()
        return ctx.branch(TOT(self.cnt) > 0)

    def length(self, ctx):
        self.acc()
        return wrapnum(TOT(self.cnt))

    def change(self, ctx, e, d):
        ctx.touched(self)
        old = self.cnt
        self.cnt = add(old, e, d)
        ctx.assume(TOT(self.cnt) == TOT(old) + d)
        wf(ctx, self.cnt)

    def boom(self, ctx):
        """comparing two events may raise what the user's times raise; the queue then still holds the same values"""
        if self.env.raises and ctx.choose(2):
            raise PyExc(ExcV(UserError))

    def m_append(self, ctx, o):
        self.acc()
        if not isinstance(o, PObj):
            raise Unsupported('append of something that is no event')
        self.boom(ctx)
        e = ctx.fresh(Obj, 'event')
        a = o.attrs
        t, p = numterm(a['time']), numterm(a['priority'])
        ctx.assume(TIME(e) == t)
        ctx.assume(PRIO(e) == p)
        ctx.assume(SEQ(e) == numterm(a['sequence']))
        ctx.assume(PAY(e) == term(a['event']))
        ctx.assume(z3.Select(self.cnt, e) == 0)
        self.change(ctx, e, 1)
        self.env.added.append((o, e))

    def m_remove(self, ctx, o):
        self.acc()
        e = term(o)
        if not ctx.branch(z3.Select(self.cnt, e) > 0):
            raise PyExc(ExcV(ValueError))
        self.boom(ctx)
        self.change(ctx, e, -1)

    def m_popleft(self, ctx):
        self.acc()
        if not ctx.branch(TOT(self.cnt) > 0):
            raise PyExc(ExcV(IndexError))
        self.boom(ctx)
        e = self.peek(ctx)
        self.change(ctx, e.t, -1)
        return e

    def peek(self, ctx):
        e = ctx.fresh(Obj, 'first')
        ctx.assume(first(self.cnt, e))
        return SObj(e)

    def getitem(self, ctx, i):
        self.acc()
        if i != 0 or isinstance(i, SInt):
            raise Unsupported('index of the queue other than 0')
        if not ctx.branch(TOT(self.cnt) > 0):
            raise PyExc(ExcV(IndexError))
        return self.peek(ctx)

    def getattr(self, ctx, name):
        if name == 'queue':
            self.acc()
            self.boom(ctx)
            return SeqL(ctx, SORTED(self.cnt))
        return Hook.getattr(self, ctx, name)


class LockV(Hook):
    methods = ('__enter__', '__exit__', 'acquire', 'release')

    def __init__(self, env):
        self.serial = env.ctx.next_serial()
        self.env = env

    def m___enter__(self, ctx):
        self.env.acquire()
        return True

    def m___exit__(self, ctx, *a):
        self.env.release()
        return None

    def m_acquire(self, ctx, *a, **k):
        self.env.acquire()
        return True

    def m_release(self, ctx):
        self.env.release()


class RegV(Hook):
    methods = ('now', 'wake', 'sleep')

    def __init__(self, env):
        self.serial = env.ctx.next_serial()
        self.env = env
        self.lock = LockV(env)

    def getattr(self, ctx, name):
        if name == 'lock':
            return self.lock
        return Hook.getattr(self, ctx, name)

    def boom(self, ctx):
        if self.env.raises and ctx.choose(2):
            raise PyExc(ExcV(UserError))

    def m_now(self, ctx):
        self.env.access('the clock')
        self.boom(ctx)
        t = ctx.real('now')
        self.env.now = t.t
        self.env.nows += 1
        return t

    def m_wake(self, ctx):
        self.env.access('the wake-up signal')
        self.boom(ctx)
        self.env.woken += 1

    def m_sleep(self, ctx, t):
        env = self.env
        ctx.prove('sleep: the lock is not held', not env.held)
        env.on_sleep(t)
        self.boom(ctx)


class Env:
    def __init__(self, ctx, I, raises=True):
        self.ctx, self.I, self.raises = ctx, I, raises
        self.held = False
        self.acquired = 0
        self.added = []
        self.now = None
        self.nows = self.woken = self.sleeps = 0
        self.heap = HeapV(self)
        self.reg = RegV(self)
        self.sch = PObj(ctx, Scheduler, {'regulator': self.reg, 'heap': self.heap, 'event_id_counter': ctx.int('counter', lo=0)})
        self.at_lock = None
        self.sleep_ok = None
        ctx.trust('other threads and callbacks change the queue and counter only while they hold the lock')
        ctx.trust('times and priorities are exact numbers (machine arithmetic treated as mathematical)')

        def attr(ctx, o, name, mode):
            if o is self.sch and name == 'event_id_counter' and mode:
                self.access('the event counter')
        ctx.ghost['attr'] = attr

        def oattr(ctx, o, name):
            if name == 'time':
                return SReal(TIME(o.t))
            if name == 'priority':
                return SReal(PRIO(o.t))
            if name == 'sequence':
                return SInt(SEQ(o.t))
            if name == 'event':
                return SObj(PAY(o.t))
            return None
        ctx.ghost['obj_attr'] = oattr

    def seq_inv(self):
        c = self.heap.cnt
        k = self.sch.attrs['event_id_counter']
        return z3.ForAll([x], z3.Implies(z3.Select(c, x) > 0, SEQ(x) <= numterm(k)), patterns=[z3.Select(c, x)])

    def access(self, what):
        self.ctx.prove(f'{what} is used only while holding the lock', self.held)

    def acquire(self):
        ctx = self.ctx
        ctx.prove('the lock is never acquired twice', not self.held)
        self.held = True
        self.acquired += 1
        # whatever others did while the lock was free
        ctx.touched(self.heap)
        ctx.touched(self.sch, 'event_id_counter')
        self.heap.cnt = ctx.fresh(CntS, 'waiting')
        wf(ctx, self.heap.cnt)
        self.sch.attrs['event_id_counter'] = ctx.int('counter', lo=0)
        ctx.assume(self.seq_inv())
        self.at_lock = (self.heap.cnt, self.sch.attrs['event_id_counter'].t)
        self.now = None

    def release(self):
        ctx = self.ctx
        ctx.prove('only a held lock is released', self.held)
        ctx.prove('sequence numbers never exceed the counter', self.seq_inv())
        self.held = False
        self.at_release = self.heap.cnt

    def on_sleep(self, t):
        pass

    def done(self, kind):
        self.ctx.prove(f'the lock is not held after the operation ({kind})', not self.held)
