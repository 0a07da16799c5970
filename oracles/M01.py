import itertools
import random
from big.all import StateManager, TransitionError

RULE = ('transition histories with handlers and observers that raise, nest, or change the observer list, against an event-trace model; '
        'non-trivial: at least two transitions')
SECONDS = 12


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


ACTS = ['none', 'raise', 'base', 'nest', 'nestself', 'addobs', 'delobs', 'nestcatch']


def enumerate_cases(tier):
    # (names, falsy, class check, initial enter action, observers' actions, steps); step: (target, exit act, enter act)
    for names in (('on_enter', 'on_exit'), ('enter', 'leave'), (None, None), ('', 'on_exit'), ('on_enter', None), ('x', 'x')):
        for obs in ([], ['none'], ['none', 'none'], ['raise'], ['none', 'raise', 'none'], ['nest'], ['nestcatch', 'none'], ['addobs', 'none'], ['delobs', 'none', 'none']):
            for ex in ACTS:
                for en in ('none', 'raise', 'nest', 'missing'):
                    yield (names, False, False, 'none', obs, [(1, ex, en), (2, 'none', 'none'), (0, 'missing', 'missing')])
        for bad in ('same', 'None', 'wrongclass'):
            for cc in (False, True):
                yield (names, True, cc, 'none', ['none'], [(1, 'none', 'none'), (bad, 'none', 'none'), (2, 'none', 'none')])
        for init in ('none', 'raise', 'nest', 'missing'):
            yield (names, False, False, init, [], [(1, 'none', 'none')])
    for i in range(len(BAD)):
        yield ('badargs', i)


BAD = [dict(on_enter=3), dict(on_enter='a b'), dict(on_enter='1a'), dict(on_enter=b'on_enter'), dict(on_exit=3), dict(on_exit='a-b'),
       dict(on_exit=['x']), dict(state_class='x'), dict(state_class=3)]


def random_case(rng):
    names = rng.choice([('on_enter', 'on_exit'), ('enter', 'leave'), (None, None), ('on_enter', None), (None, 'on_exit'), ('x', 'x')])
    acts = ACTS + ['none'] * 6 + ['missing']
    obs = [rng.choice(ACTS + ['none'] * 5) for _ in range(rng.randrange(4))]
    steps = [(rng.choice([0, 1, 2, 3, 'same', 'None', 'wrongclass']), rng.choice(acts), rng.choice(acts)) for _ in range(rng.randrange(1, 7))]
    return (names, rng.random() < .3, rng.random() < .4, rng.choice(['none', 'none', 'missing']), obs, steps)


def nontrivial(c):
    return c[0] != 'badargs' and len(c[5]) > 1


class Base:
    pass


class Env:
    pass


def check(case):
    if case[0] == 'badargs':
        ran = []

        class S:
            def on_enter(self):
                ran.append(1)
        try:
            StateManager(S(), **BAD[case[1]])
        except (TypeError, ValueError):
            return 'a handler ran' if ran else None
        return f'{BAD[case[1]]} accepted'
    names, falsy, cc, init, obs, steps = case
    enter_name, exit_name = names
    env = Env()
    trace = []
    env.sm = None
    plan = {}

    def act(what, who):
        sm = env.sm
        trace.append((who, index(sm.state), index(sm.next)))
        if what == 'raise':
            raise Boom(who)
        if what == 'base':
            raise Stop(who)
        if what in ('nest', 'nestself', 'nestcatch'):
            target = states[3] if what != 'nestself' else (sm.next or states[0])
            try:
                sm.state = target
                trace.append('nest done')
            except TransitionError:
                trace.append('nest refused')
                if what != 'nestcatch':
                    raise
        if what == 'addobs':
            sm.observers.append(mkobs('none', 'added'))
        if what == 'delobs' and sm.observers:
            sm.observers.pop()

    def mkobs(what, nm):
        def o(m):
            if m is not env.sm:
                trace.append('wrong manager')
            act(what, ('observer', nm))
            return True
        return o

    class St(Base):
        def __init__(self, i):
            self.i = i
            self.h = {}

        def __bool__(self):
            return not falsy

        def __getattr__(self, n):
            h = self.__dict__.get('h', {})
            if n in h:
                return h[n]
            raise AttributeError(n)

        def __eq__(self, o):
            return isinstance(o, St)       # equal but not identical states are different states

        def __hash__(self):
            return 1
    states = [St(i) for i in range(4)]
    other = object()

    def index(s):
        if s is None:
            return None
        for k in states:
            if k is s:
                return k.i
        return 'unknown'

    def handlers(i, ex, en):
        """handlers of state i for one transition"""
        states[i].h = {}
        if exit_name and ex != 'missing':
            states[i].h[exit_name] = lambda: act(ex, ('exit', i))
        if enter_name and en != 'missing':
            e = en
            states[i].h[enter_name] = lambda: act(e, ('enter', i))
    # construction
    handlers(0, 'missing' if enter_name == exit_name else 'none', init)
    kw = {}
    if names != ('on_enter', 'on_exit'):
        kw = dict(on_enter=enter_name, on_exit=exit_name)
    if cc:
        kw['state_class'] = Base
    sm = StateManager.__new__(StateManager)
    env.sm = sm
    try:
        sm.__init__(states[0], **kw)
        exc = None
    except BaseException as e:
        if not isinstance(e, (Boom, Stop, TransitionError)):
            raise
        exc = type(e)
    want = []
    wexc = None
    cur = 0
    if enter_name and init != 'missing':
        want.append((('enter', 0), 0, None))
        if init == 'raise':
            wexc = Boom
        elif init == 'nest':
            # from the enter handler a transition is allowed
            cur = 3
            # state 0's exit handler runs, then state 3 has no handlers
            if exit_name == enter_name:
                return None
            if exit_name:
                want.append((('exit', 0), 0, 3))
            want.append('nest done')
    if trace != want or exc is not wexc:
        return f'construction: events {trace} ({exc}), expected {want} ({wexc})'
    if index(sm.state) != cur or sm.next is not None:
        return f'construction: state {index(sm.state)}, next {index(sm.next)}'
    if wexc:
        return None
    for k, a in enumerate(obs):
        sm.observers.append(mkobs(a, k))
    obl = [(k, a) for k, a in enumerate(obs)]
    for n, (target, ex, en) in enumerate(steps):
        if enter_name == exit_name and enter_name:
            ex = en = 'none' if ex != 'missing' else 'missing'
        del trace[:]
        before = index(sm.state)
        for s in states:
            s.h = {}
        tobj = {'same': sm.state, 'None': None, 'wrongclass': other}.get(target) if isinstance(target, str) else states[target]
        if target == 'wrongclass' and not cc:
            continue
        t = index(tobj) if target != 'wrongclass' else 'wrong'
        if before == t:
            bad = (TransitionError,)
        elif target == 'None':
            bad = (ValueError, TypeError)
        elif target == 'wrongclass':
            bad = (TypeError,)
        else:
            bad = None
        both = enter_name == exit_name and bool(enter_name)
        handlers(before, ex, 'missing')
        if bad is None:
            h = dict(states[before].h)
            handlers(t, 'missing', en)
            states[before].h = h
        try:
            sm.state = tobj
            exc = None
        except BaseException as e:
            if not isinstance(e, (Boom, Stop, TransitionError, ValueError, TypeError)):
                raise
            exc = e
        # model
        want = []
        wexc = None
        final = t
        if bad is not None:
            if not isinstance(exc, bad):
                return f'step {n}: {target} gave {exc!r}'
            wexc = type(exc)
            final = before
        else:
            def run(a, who, cur, pend):
                nonlocal obl
                want.append((who, cur, pend))
                if a == 'raise':
                    return Boom
                if a == 'base':
                    return Stop
                if a in ('nest', 'nestself', 'nestcatch'):
                    if pend is not None:
                        want.append('nest refused')
                        return None if a == 'nestcatch' else TransitionError
                    return 'free'
                if a == 'addobs':
                    obl = obl + [('added', 'none')]
                if a == 'delobs':
                    obl = obl[:-1]
                return None
            if exit_name and ex != 'missing':
                wexc = run(ex, ('exit', before), before, t)
            if wexc is None:
                for nm, a in list(obl):
                    wexc = run(a, ('observer', nm), before, t)
                    if wexc is not None:
                        break
            if wexc is not None:
                final = before
            elif enter_name and en != 'missing':
                wexc = run(en, ('enter', t), t, None)
                if wexc == 'free':
                    return None     # a transition started by the enter handler: checked at construction
        got = None if exc is None else type(exc)
        if trace != want:
            return f'step {n} ({steps[n]}): events {trace}, expected {want}'
        if got is not wexc:
            return f'step {n} ({steps[n]}): raised {exc!r}, expected {wexc}'
        if index(sm.state) != final or sm.next is not None:
            return f'step {n} ({steps[n]}): state {index(sm.state)} next {index(sm.next)}, expected {final}, None'
        if len(sm.observers) != len(obl):
            return f'step {n}: observer list changed'
    return None
