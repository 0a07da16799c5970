import itertools
import threading
from big.all import Scheduler, ThreadSafeRegulator

RULE = ('a reader thread about to block, and a change made by another thread exactly between releasing the lock and sleeping, or during the sleep; '
        'the reader must look again long before the old time-out; every case is non-trivial')
SECONDS = 12
LONG = 40       # the reader's old time-out
PATIENCE = 12   # far above scheduling noise, far below LONG
BOUNDED = ['interleavings are the listed injection points only']
OPS = ['sooner', 'cancel', 'two', 'later', 'wakes']


def enumerate_cases(tier):
    for readers in (1, 2):
        for where in ('unlock', 'call', 'sleep'):
            for op in OPS:
                for before in (0, 1, 2):
                    yield (readers, where, op, before)


def random_case(rng):
    return (rng.choice([1, 1, 2]), rng.choice(['unlock', 'call', 'sleep']), rng.choice(OPS), rng.randrange(4))


def in_thread(f):
    t = threading.Thread(target=f, daemon=True)
    t.start()
    t.join(5)


def shrink(case):
    return []


class Wrap:
    """the real regulator, with something happening at the chosen point of the reader"""

    def __init__(self, real, where):
        self.real, self.where = real, where
        self.todo = None
        self.readers = set()
        self.looks = 0
        w = self

        class L:
            def __enter__(self):
                real.lock.acquire()

            def __exit__(self, *a):
                real.lock.release()
                w.at('unlock')

            def acquire(self, *a):
                return real.lock.acquire(*a)

            def release(self):
                real.lock.release()
                w.at('unlock')
        self.lock = L()
        self.decided = False

    def at(self, where):
        if where == self.where and threading.current_thread() in self.readers and self.decided and self.todo:
            f, self.todo = self.todo, None
            f()

    def now(self):
        self.looks += 1
        if threading.current_thread() in self.readers:
            self.decided = True
        return self.real.now()

    def wake(self):
        self.real.wake()

    @property
    def sleep(self):
        f = self.real.sleep

        def call(t):
            self.at('call')
            if self.where == 'sleep' and self.todo:
                g, self.todo = self.todo, None
                threading.Timer(0.02, g).start()
            f(t)
        return call


def check(case):
    nreaders, where, op, before = case
    real = ThreadSafeRegulator()
    w = Wrap(real, where)
    s = Scheduler(w)
    old = s.schedule('old', LONG)
    for i in range(before):
        s.schedule('x', LONG + 5).cancel()
    got = []
    again = threading.Event()

    def change():
        if op == 'sooner':
            s.schedule('new', 0)
        elif op == 'cancel':
            old.cancel()
        elif op == 'two':
            s.schedule('new', 0)
            s.schedule('new2', 0)
        elif op == 'later':
            s.schedule('later', 2 * LONG)
            s.schedule('new', 0)
        elif op == 'wakes':
            s.schedule('x', LONG + 1).cancel()
            s.schedule('new', 0)
            s.schedule('y', LONG + 2).cancel()

    def reader():
        for e in s:
            got.append(e)
            return
        got.append('stopped')
    ts = []
    w.todo = lambda: in_thread(change)
    for i in range(nreaders):
        t = threading.Thread(target=reader, daemon=True)
        w.readers.add(t)
        ts.append(t)
    for t in ts:
        t.start()
    need = {'sooner': 1, 'cancel': nreaders, 'two': min(2, nreaders), 'later': 1, 'wakes': 1}[op]
    import time
    t0 = time.monotonic()
    while len(got) < need and time.monotonic() - t0 < PATIENCE:
        for t in ts:
            t.join(0.002)
    ok = len(got) >= need
    # let everybody go
    try:
        for e in list(s.queue):
            e.cancel()
        for i in range(nreaders):
            s.schedule('end', 0)
    except Exception:
        pass
    if not ok:
        return f'{len(got)} of {need} readers looked again after a change made by another thread at "{where}" ({op}): the wake-up was lost'
    for t in ts:
        t.join(5)
    return None
