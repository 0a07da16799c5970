import itertools
from big.all import StateManager, accessor, dispatch, TransitionError

RULE = 'classes with chosen accessor and dispatch names, used through sequences of transitions, reads, writes and calls; non-trivial: at least one transition'
SECONDS = 10
NAMES = ['state', 'state_manager', 'x', 'mode', 'a_b', '_p', '__q']
AFF = ['', 'on_', 'do', '_', 'x']
FNS = ['run', 'on_run', 'f', '_g']
STEPS = ['read', 'write', 'call', 'kcall', 'raise', 'attr', 'bad', 'missing', 'other', 'swap']


def enumerate_cases(tier):
    for a, m in itertools.product(NAMES, repeat=2):
        if a == m:
            continue
        yield (a, m, None, None, '', '', 'run', ['read', 'write', 'read', 'call', 'other', 'kcall', 'swap', 'read', 'call', 'write', 'bad', 'read', 'call'])
    for p, s in itertools.product(AFF, repeat=2):
        for fn in FNS:
            if p + s == '':
                continue
            yield ('state', 'state_manager', None, None, p, s, fn, ['call', 'write', 'kcall', 'raise', 'missing', 'swap', 'call', 'other', 'read'])
    yield (None, None, None, None, 'on_', '', 'run', ['call', 'write', 'kcall', 'raise', 'read', 'attr'])
    yield (None, None, 'second', 'mgr2', 'on_', '', 'run', ['call', 'write', 'other', 'read', 'kcall', 'raise', 'read', 'attr'])


def random_case(rng):
    a, m = rng.sample(NAMES, 2)
    a2, m2 = rng.sample([x for x in ('second', 'mgr2', 'third', 'more')], 2)
    return (a, m, rng.choice([None, a2]), rng.choice([None, m2]), rng.choice(AFF[1:]), rng.choice(AFF), rng.choice(FNS), [rng.choice(STEPS) for _ in range(rng.randrange(2, 12))])


def nontrivial(c):
    return 'write' in c[7] or 'swap' in c[7]


def shrink(c):
    for i in range(len(c[7])):
        yield c[:7] + (c[7][:i] + c[7][i + 1:],)


class Boom(Exception):
    pass


def check(case):
    a, m, a2, m2, prefix, suffix, fn, steps = case
    A, M = a or 'state', m or 'state_manager'
    if (a2 or 'second') == m2 or a2 in (A, M) or m2 in (A, M) or A == M:
        return None
    full = prefix + fn + suffix
    if full == fn:
        full = fn
    calls = []
    probing = [None, None]

    def inside(when):
        # a dispatched call and a read made while a transition is in progress
        if probing[0] is None or when in probing[0]:
            return
        keep = list(calls)
        r = getattr(c, fn)(7)
        probing[0].append(when)
        probing[1].append((when, r[1], getattr(c, A).n))
        calls[:] = keep

    class St:
        def __init__(self, n):
            self.n = n

        def __bool__(self):
            return self.n % 2 == 0

        def __eq__(self, o):
            return True
        __hash__ = None

        def on_enter(self):
            calls.append(('enter', self.n))
            inside('enter')

        def on_exit(self):
            inside('exit')

    def meth(self, *args, **kw):
        calls.append((self.n, args, kw))
        if kw.get('boom'):
            raise Boom
        return ('result', self.n, args)
    setattr(St, full, meth)

    def wrong(self, *args, **kw):
        calls.append('wrong method')
    for w in {fn, prefix + fn, fn + suffix, suffix + fn + prefix, prefix + suffix + fn} - {full}:
        setattr(St, w, wrong)

    def target(self, *args, **kw):
        calls.append('body of the decorated function')
    target.__name__ = fn
    target.__doc__ = 'doc'
    kw = {}
    if prefix:
        kw['prefix'] = prefix
    if suffix:
        kw['suffix'] = suffix
    akw = {}
    if a is not None:
        akw['attribute'] = a
    if m is not None:
        akw['state_manager'] = m

    class C:
        pass
    deco = dispatch(m, **kw) if m is not None else dispatch(**kw)
    setattr(C, fn, deco(target))
    if accessor(**akw)(C) is not C:
        return 'accessor does not return the class'
    if m2:
        accessor(attribute=a2 or 'second', state_manager=m2)(C)

    class D:
        pass

    def target2(self, *args, **kw):
        pass
    target2.__name__ = fn + '2'
    D.g = deco(target2)
    accessor(attribute='zz', state_manager='yy')(D)
    setattr(St, prefix + fn + '2' + suffix, lambda self, *a: ('two', self.n))
    states = [St(i) for i in range(4)]
    c = C()
    sm = StateManager(states[0])
    setattr(c, M, sm)
    if m2:
        setattr(c, m2, StateManager(states[3]))
    d = D()
    d.yy = StateManager(states[2])
    setattr(d, M, d.yy)
    cur = 0
    cur2 = 3
    nxt = 0
    for i, step in enumerate(steps):
        del calls[:]
        where = f'step {i} ({step})'
        if step == 'read':
            if getattr(c, A) is not states[cur] or getattr(c, M).state is not states[cur]:
                return f'{where}: reading "{A}" does not give the current state'
            if m2 and getattr(c, a2 or 'second') is not states[cur2]:
                return f'{where}: the second accessor does not give its own state'
        elif step == 'write':
            nxt = (cur + 1) % 3
            probing[:] = [[], []]
            sm.observers = [lambda m: inside('observer')]
            setattr(c, A, states[nxt])
            sm.observers = []
            want = [('exit', cur, cur), ('observer', cur, cur), ('enter', nxt, nxt)]
            got, probing[:] = probing[1], [None, None]
            if got != want:
                return f'{where}: calls and reads during the transition (moment, state called, state read) were {got}, expected {want}'
            if sm.state is not states[nxt] or calls != [('enter', nxt)]:
                return f'{where}: assigning did not perform one transition'
            cur = nxt
            if m2:
                setattr(c, a2 or 'second', states[(cur2 + 1) % 4])
                cur2 = (cur2 + 1) % 4
                if getattr(c, m2).state is not states[cur2] or sm.state is not states[cur]:
                    return f'{where}: the second accessor moved the wrong manager'
        elif step == 'attr':
            if A in vars(c):
                return f'{where}: the attribute was stored on the instance'
        elif step == 'bad':
            for v, exc in ((states[cur], TransitionError), (None, ValueError)):
                try:
                    setattr(c, A, v)
                except exc:
                    pass
                else:
                    return f'{where}: an illegal assignment was accepted'
        elif step in ('call', 'kcall'):
            args = (i, 'x') if step == 'call' else ()
            k = {} if step == 'call' else {'y': i, 'args': 2, 'kwargs': 3, 'state': 4, 'fn': 5}
            r = getattr(c, fn)(*args, **k)
            if calls != [(cur, args, k)]:
                return f'{where}: {fn} made calls {calls}, expected {full} of state {cur} with {args} {k}'
            if r != ('result', cur, args):
                return f'{where}: result {r!r}'
        elif step == 'raise':
            try:
                getattr(c, fn)(boom=1)
            except Boom:
                pass
            else:
                return f'{where}: the exception did not get through'
        elif step == 'missing':
            delattr(St, full)
            try:
                getattr(c, fn)()
            except AttributeError:
                pass
            else:
                return f'{where}: a missing method was not reported'
            setattr(St, full, meth)
        elif step == 'other':
            if d.g() != ('two', 2):
                return f'{where}: the other dispatched method went to {d.g()}'
            if d.zz is not states[2]:
                return f'{where}: the other accessor is disturbed'
        elif step == 'swap':
            sm = StateManager(states[(cur + 1) % 3])
            cur = (cur + 1) % 3
            setattr(c, M, sm)
    f = vars(C)[fn]
    if f.__name__ != fn or f.__doc__ != 'doc':
        return 'the wrapper lost the metadata of the function'
    return None
