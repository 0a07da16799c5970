import itertools
from big.all import Log

RULE = 'histories of events, enter, exit, reset, iteration and printing over a scripted clock, against a list model; non-trivial: at least two nested subsystems or a reset'
SECONDS = 8
TXT = ['a', '', 'event', 'x' * 40, 'two words', 'ünï', 'log start', ' lead']
STEP = [0, 1, 999, 10 ** 6, 12 * 10 ** 6, 999999999, 10 ** 9, 10 ** 9 + 5, 61 * 10 ** 9, 10 ** 12 + 1, 123456789012, -5, -10 ** 9]
PR = [(), (('indent', 0),), (('indent', 4),), (('seconds_width', 1), ('fractional_width', 3)), (('fractional_width', 0),), (('seconds_width', 6), ('fractional_width', 6)), (('title', None),), (('title', 'T'), ('headings', False)), (('headings', False), ('indent', 1), ('fractional_width', 1))]


def enumerate_cases(tier):
    ops = [('e', 0), ('e', 2), ('in', 0), ('in', 4), ('out',), ('t', 4), ('t', 7), ('it',), ('pr', 0), ('reset',)]
    for n in (1, 2, 3, 4):
        for c in itertools.product(range(len(ops)), repeat=n):
            if n == 4 and (len(set(c)) < 3 or sum(c) % 3):
                continue
            yield [0, [ops[i] for i in c] + [('it',), ('pr', n)]]
    for p in range(len(PR)):
        for t in range(len(STEP)):
            yield [5, [('t', t), ('in', 2), ('t', (t + 3) % len(STEP)), ('in', 3), ('t', 1), ('e', 5), ('out',), ('pr', p), ('out',), ('pr', p)]]
    for t in (1, 4, 10):
        for u in (11, 12):
            yield [50, [('t', t), ('e', 0), ('t', u), ('e', 2), ('t', 0), ('in', 0), ('it',), ('t', u), ('out',), ('t', t), ('it',)]]
    yield [7, [('in', 2)] * 12 + [('e', 1)] + [('out',)] * 12 + [('it',), ('pr', 0), ('out',), ('it',)]]


def random_case(rng):
    ops = []
    for _ in range(rng.randrange(1, 25)):
        r = rng.random()
        ops.append(('t', rng.randrange(len(STEP))) if r < .25 else ('e', rng.randrange(len(TXT))) if r < .45 else ('in', rng.randrange(len(TXT))) if r < .65
                   else ('out',) if r < .82 else ('it',) if r < .88 else ('part',) if r < .92 else ('pr', rng.randrange(len(PR))) if r < .97 else ('reset',))
    return [rng.choice([0, 3, 10 ** 9, 10 ** 15]), ops]


def nontrivial(c):
    return sum(o[0] == 'in' for o in c[1]) > 1 or ('reset',) in c[1]


def valid(c):
    return isinstance(c, list) and len(c) == 2 and isinstance(c[0], int) and all(isinstance(o, tuple) and o and len(o) == {'e': 2, 'in': 2, 't': 2, 'pr': 2}.get(o[0], 1) for o in c[1])


def shrink(c):
    for i in range(len(c[1])):
        yield [c[0], c[1][:i] + c[1][i + 1:]]


def check(case):
    now = [case[0]]
    auto = [0]

    def clock():
        now[0] += auto[0]
        return now[0]
    log = Log(clock)
    start = now[0]
    ev = [(0, 'log start', 0)]
    st = []

    def entries():
        return [(t, (ev[i + 1][0] - t) if i + 1 < len(ev) else 0, e, d) for i, (t, e, d) in enumerate(ev)]

    def ft(t, sw, fw):
        return str(t // 10 ** 9).rjust(sw, '0') + '.' + str(t % 10 ** 9).rjust(9, '0')[:fw]
    for i, o in enumerate(case[1] + [('it',)]):
        where = f'step {i} {o}'
        k = o[0]
        if k == 't':
            now[0] += STEP[o[1] % len(STEP)]
        elif k == 'e':
            x = TXT[o[1] % len(TXT)]
            log(x)
            ev.append((now[0] - start, x, len(st)))
        elif k == 'in':
            x = TXT[o[1] % len(TXT)]
            log.enter(x)
            ev.append((now[0] - start, x + ' start', len(st)))
            st.append(x)
        elif k == 'out':
            if st:
                x = st.pop()
                log.exit()
                ev.append((now[0] - start, x + ' end', len(st)))
            else:
                try:
                    log.exit()
                except IndexError:
                    pass
                else:
                    return f'{where}: leaving with nothing open was accepted'
        elif k == 'reset':
            log.reset()
            start = now[0]
            ev[:] = [(0, 'log start', 0)]
            st[:] = []
        elif k == 'it':
            got = [tuple(x) for x in log]
            if got != entries():
                return f'{where}: iteration gives {got}, expected {entries()}'
        elif k == 'part':
            it = iter(log)
            got = tuple(next(it))
            if got != entries()[0]:
                return f'{where}: first entry {got}'
            want = entries()
            log('during')
            rest = [got] + [tuple(x) for x in it]
            ev.append((now[0] - start, 'during', len(st)))
            if rest not in (want, entries()):
                return f'{where}: an event during the iteration gave {rest}'
        elif k == 'pr':
            if any(t < 0 or l < 0 for t, l, _, _ in entries()):
                continue            # how a negative time is printed is not specified
            kw = dict(PR[o[1] % len(PR)])
            out = []
            log.print(print=out.append, **kw)
            ind, sw, fw = kw.get('indent', 2), kw.get('seconds_width', 2), kw.get('fractional_width', 9)
            want = []
            if kw.get('title', '[event log]'):
                want.append(kw.get('title', '[event log]'))
            nh = len(want) + (2 if kw.get('headings', True) else 0)
            if len(out) != nh + len(ev):
                return f'{where}: the report has {len(out)} lines for {len(ev)} events and {nh} heading lines'
            if out[:len(want)] != want:
                return f'{where}: title {out[:1]}'
            for line, (t, l, e, d) in zip(out[nh:], entries()):
                w = ' ' * ind + ft(t, sw, fw) + '  ' + ft(l, sw, fw) + '  ' + ' ' * (ind * d) + e
                if line != w:
                    return f'{where}: report line {line!r}, expected {w!r}'
    return None
