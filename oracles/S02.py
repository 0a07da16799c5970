import itertools
from big.all import Scheduler
import big.scheduler as S

RULE = ('scheduler operations with an instrumented lock, clock, times and queue, a fault injected at every possible call; non-trivial: a fault is injected or a read sleeps')
SECONDS = 12
OPS = ['sched', 'abs', 'cancel', 'cancel2', 'cancel_unknown', 'bool', 'queue', 'poll', 'next', 'nextcancel', 'nextsched', 'ev']


def enumerate_cases(tier):
    for pre in (0, 1, 3):
        for op in OPS:
            yield (pre, [op], 'none', 0)
            for what in ('now', 'wake', 'sleep', 'cmp'):
                for n in range(4):
                    yield (pre, [op, 'poll'], what, n)
    for a, b in itertools.product(OPS, repeat=2):
        for what in ('none', 'now', 'cmp'):
            yield (2, [a, b, 'next'], what, 1)


def random_case(rng):
    return (rng.randrange(6), [rng.choice(OPS) for _ in range(rng.randrange(1, 6))], rng.choice(['none', 'now', 'wake', 'sleep', 'cmp', 'cmp']), rng.randrange(8))


def nontrivial(c):
    return c[2] != 'none' or any(o.startswith('next') for o in c[1])


class Boom(Exception):
    pass


class BadLock(Exception):
    pass


def check(case):
    pre, ops, what, at = case
    bad = []
    st = {'held': False, 'armed': False, 'count': 0, 't': 0, 'cmp': False}

    def hit(k):
        if st['armed'] and k == what:
            st['count'] += 1
            if st['count'] == at + 1:
                raise Boom(k)

    def held(k):
        if st['armed'] and not st['held']:
            bad.append(f'{k} used without the lock')

    class Lock:
        def acquire(self, *a, **k):
            if st['held']:
                bad.append('the lock was acquired while held')
                raise BadLock
            st['held'] = True
            return True

        def release(self):
            if not st['held']:
                bad.append('a free lock was released')
                raise BadLock
            st['held'] = False

        def __enter__(self):
            return self.acquire()

        def __exit__(self, *a):
            self.release()

        def locked(self):
            return st['held']

    class T:
        """a time"""

        def __init__(self, v):
            self.v = v

        def c(self, o, f):
            held('comparison of times')
            hit('cmp')
            return f(self.v, o.v if isinstance(o, T) else o)

        def __lt__(self, o):
            return self.c(o, lambda a, b: a < b)

        def __gt__(self, o):
            return self.c(o, lambda a, b: a > b)

        def __le__(self, o):
            return self.c(o, lambda a, b: a <= b)

        def __ge__(self, o):
            return self.c(o, lambda a, b: a >= b)

        def __eq__(self, o):
            return self.c(o, lambda a, b: a == b)
        __hash__ = None

        def __add__(self, o):
            return T(self.v + (o.v if isinstance(o, T) else o))
        __radd__ = __add__

        def __sub__(self, o):
            return T(self.v - (o.v if isinstance(o, T) else o))

        def __rsub__(self, o):
            return T((o.v if isinstance(o, T) else o) - self.v)

        def __neg__(self):
            return T(-self.v)

        def __bool__(self):
            return self.v != 0

    script = []

    class Reg:
        lock = Lock()

        def now(self):
            held('the clock')
            hit('now')
            return T(st['t'])

        def wake(self):
            held('wake')
            hit('wake')

        def sleep(self, t):
            if st['held']:
                bad.append('sleeping while holding the lock')
            st['t'] += t.v
            st['slept'] = st.get('slept', 0) + 1
            if st['slept'] > 50:
                bad.append('sleeps for ever')
                raise BadLock
            hit('sleep')
            for f in script:
                f()
            del script[:]

    class Sch(Scheduler):
        pass
    reg = Reg()
    sch = Sch(reg)
    if isinstance(sch.__dict__.get('event_id_counter'), int):
        Sch.event_id_counter = property(lambda self: (held('the event counter'), self.__dict__['event_id_counter'])[1],
                                        lambda self, v: (held('the event counter'), self.__dict__.__setitem__('event_id_counter', v))[0])
    if 'heap' in sch.__dict__:
        Sch.heap = property(lambda self: (held('the queue'), self.__dict__['heap'])[1],
                            lambda self, v: (held('the queue'), self.__dict__.__setitem__('heap', v))[0])
    events = [sch.schedule('e%d' % i, T([3, 1, 2, 1][i % 4])) for i in range(pre)]
    other = Scheduler().schedule('x', 100)
    if st['held']:
        return 'schedule leaves the lock held'
    st['armed'] = True

    def run(op):
        if op == 'sched':
            events.append(sch.schedule('n', T(1)))
        elif op == 'abs':
            events.append(sch.schedule('n', T(st['t'] + 1), absolute=True, priority=5))
        elif op == 'cancel' and events:
            sch.cancel(events[0])
        elif op == 'ev' and events:
            events[-1].cancel()
        elif op == 'cancel2' and events:
            sch.cancel(events[0])
            sch.cancel(events[0])
        elif op == 'cancel_unknown':
            sch.cancel(other)
        elif op == 'bool':
            bool(sch)
        elif op == 'queue':
            sch.queue
        elif op == 'poll':
            it = sch.non_blocking()
            it = iter(it)
            next(it)
        elif op.startswith('next'):
            if op == 'nextcancel' and events:
                script.append(lambda: quiet(lambda: sch.cancel(events[0])))
            if op == 'nextsched':
                script.append(lambda: sch.schedule('late', T(0)))
            next(iter(sch))

    def quiet(f):
        try:
            f()
        except ValueError:
            pass
    for op in ops:
        out = 'returned'
        try:
            run(op)
        except BadLock:
            return bad[0]
        except (Boom, StopIteration, ValueError, IndexError) as e:
            out = f'raised {type(e).__name__}'
        if bad:
            return f'{op}: {bad[0]}'
        if st['held']:
            return f'{op} {out} and left the lock held'
        del script[:]
    return None
