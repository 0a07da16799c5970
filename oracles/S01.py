import itertools
from fractions import Fraction
from big.all import Scheduler

RULE = ('histories of schedule, cancel, clock movement, blocking and non-blocking reads (with changes made while the reader sleeps) against a list model; '
        'non-trivial: at least two events and one read')
SECONDS = 12
PAY = ['a', None, 0, 'a', '', False, 'b']


def enumerate_cases(tier):
    ts = [0, 1, 2]
    for n in (1, 2, 3):
        for times in itertools.product(ts, repeat=n):
            for prios in itertools.product([None, 100, 50, 150][:3 if n == 3 else 4], repeat=n):
                ev = [('s', t, p, False) for t, p in zip(times, prios)]
                yield ev + [('q',)] + [('n', [])] * (n + 1)
                if n == 2:
                    for u in range(4):
                        yield [('u', u)] + ev + [('n', []), ('p',), ('a', 1), ('p',), ('n', [])]
                yield ev + [('p',)] * 2 + [('a', 1)] + [('p',)] * 2 + [('a', 5)] + [('p',)] * (n + 1)
                if n == 2:
                    for c in (0, 1):
                        yield ev + [('c', c), ('q',), ('c', c), ('b',), ('n', []), ('n', []), ('c', 1 - c)]
                        yield ev + [('n', [[('c', c)], [('a', 1)]]), ('n', []), ('n', [])]
    for d in ([('s', 1, None, False)], [('s', 0, None, False)], [('s', -1, 1, True)], [('c', 0)], [('a', 1)], [('a', 9)], [('a', 1), ('s', 1, 1, False)],
              [('c', 0), ('c', 1)], [('s', 1, None, False), ('c', 0)], [('a', -1)]):
        yield [('s', 3, None, False), ('s', 5, None, False), ('n', [d]), ('n', []), ('n', []), ('n', [])]
        yield [('s', 3, None, False), ('s', 3, None, False), ('n', [[('a', 1)], d, [('a', 1)]]), ('p',), ('a', 3), ('p',), ('p',), ('q',)]
    yield [('b',), ('p',), ('n', []), ('s', 0, 7, True), ('b',), ('p',), ('n', []), ('b',)]
    # events scheduled in two bursts with ties: scheduling order must be remembered
    for k in (4, 7, 12):
        yield [('s', i % 3, 100 - (i % 2), False) for i in range(k)] + [('p',)] * 2 + [('s', 1, 99, True) for i in range(k)] + [('q',)] + [('n', [])] * (2 * k)


def op(rng, depth=0):
    r = rng.random()
    if r < .42:
        return ('s', rng.choice([0, 0, 1, 1, 2, 3, 5, -1, .5]), rng.choice([None, None, 100, 1, 200, -5]), rng.random() < .3)
    if r < .55:
        return ('c', rng.randrange(8))
    if r < .65:
        return ('a', rng.choice([0, 1, 1, 2, 3, .5, -1]))
    if r < .7:
        return ('q',)
    if r < .74:
        return ('b',)
    if depth:
        return ('a', 1)
    if r < .86:
        return ('p',)
    return ('n', [[op(rng, 1) for _ in range(rng.randrange(3))] for _ in range(rng.randrange(4))])


def random_case(rng):
    u = [('u', rng.randrange(4))] if rng.random() < .25 else []
    return u + [op(rng) for _ in range(rng.randrange(2, 30))]


def nontrivial(c):
    return sum(o[0] == 's' for o in c) > 1 and any(o[0] in 'np' for o in c)


class Bad(Exception):
    pass


class Reg:
    class L:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None
    lock = L()

    def __init__(self):
        self.t = 10
        self.on_sleep = None

    def now(self):
        return self.t

    def wake(self):
        pass

    def sleep(self, t):
        self.on_sleep(t)


UNITS = [Fraction(1, 10 ** 17), Fraction(1, 1000), 10 ** 20, Fraction(1, 10 ** 9)]


def check(case):
    reg = Reg()
    U = 1
    if case and case[0][0] == 'u':
        U = UNITS[case[0][1] % len(UNITS)]
        case = case[1:]
    reg.t = 10 * U

    def X(v):
        return v if U == 1 else Fraction(v) * U
    sch = Scheduler(reg)
    wait = []      # (time, prio, seq, payload, event)
    made = []
    seq = [0]

    def first():
        return min(wait, key=lambda e: e[:3])

    def same(e, m):
        return e is m[4]

    def do(o):
        k = o[0]
        if k == 's':
            pay = PAY[len(made) % len(PAY)]
            kw = {}
            if o[2] is not None:
                kw['priority'] = o[2]
            if o[3]:
                kw['absolute'] = True
                t = X(o[1] + 10)
            else:
                t = X(o[1]) + reg.t
            e = sch.schedule(pay, t if o[3] else X(o[1]), **kw)
            seq[0] += 1
            made.append((t, 100 if o[2] is None else o[2], seq[0], pay, e))
            wait.append(made[-1])
        elif k == 'c':
            if not made:
                return
            m = made[o[1] % len(made)]
            inq = m in wait
            try:
                if o[1] % 2:
                    sch.cancel(m[4])
                else:
                    m[4].cancel()
            except Exception as e:
                if inq:
                    raise Bad(f'cancelling a waiting event raised {e!r}')
            else:
                if not inq:
                    raise Bad('cancelling an event that is not waiting raised nothing')
                wait.remove(m)
        elif k == 'a':
            reg.t += X(o[1])
        elif k == 'q':
            q = list(sch.queue)
            w = sorted(wait, key=lambda e: e[:3])
            if len(q) != len(w) or any(a is not b[4] for a, b in zip(q, w)):
                raise Bad(f'queue lists {[(e.time, e.priority) for e in q]}, waiting are {[m[:3] for m in w]}')
        elif k == 'b':
            if bool(sch) != bool(wait):
                raise Bad(f'bool is {bool(sch)} with {len(wait)} waiting')
        elif k == 'p':
            def nosleep(t):
                raise Bad('a non-blocking read slept')
            reg.on_sleep = nosleep
            due = [m for m in wait if m[0] <= reg.t]
            read(sch.non_blocking(), first() if due else None, 'non-blocking read')
        elif k == 'n':
            script = list(o[1])
            state = {'n': 0}

            def slept(t):
                state['n'] += 1
                if state['n'] > 60:
                    raise Bad('a blocking read does not stop sleeping')
                if not wait:
                    raise Bad('a blocking read sleeps with nothing waiting')
                f = first()
                if f[0] <= reg.t:
                    raise Bad('a blocking read sleeps although an event is due')
                if t != f[0] - reg.t:
                    raise Bad(f'a blocking read sleeps {t}, the first event is due in {f[0] - reg.t}')
                if script:
                    for x in script.pop(0):
                        do(x)
                else:
                    reg.t += t
            reg.on_sleep = slept
            read(sch, None, 'blocking read', True)

    def read(it, want, what, blocking=False):
        it = iter(it)
        try:
            got = next(it)
        except StopIteration:
            if blocking:
                if wait:
                    raise Bad('a blocking read stopped with events waiting')
            elif want is not None:
                raise Bad('a non-blocking read stopped although an event is due')
            return
        if blocking:
            if not wait:
                raise Bad('a read yielded although nothing is waiting')
            want = first()
            if want[0] > reg.t:
                raise Bad(f'{what} yielded an event before its time')
        if want is None:
            raise Bad(f'{what} yielded {got!r} although nothing is due')
        if got is not want[3]:
            raise Bad(f'{what} yielded {got!r}, the first event is {want[:4]}')
        wait.remove(want)
        q = list(sch.queue)
        if len(q) != len(wait) or want[4] in q:
            raise Bad(f'{what} did not remove exactly the yielded event')
    try:
        for o in case:
            do(o)
        do(('q',))
        for i in range(len(wait)):
            do(('n', []))
        do(('q',))
    except Bad as e:
        return str(e)


def valid(case):
    def ok(o):
        if not isinstance(o, tuple) or not o:
            return False
        return {'s': 4, 'c': 2, 'a': 2, 'q': 1, 'b': 1, 'p': 1, 'n': 2, 'u': 2}.get(o[0]) == len(o)
    return isinstance(case, list) and all(o[0] != 'u' for o in case[1:]) and all(ok(o) and (o[0] != 'n' or all(ok(x) and x[0] not in 'npu' for s in o[1] for x in s)) for o in case)
