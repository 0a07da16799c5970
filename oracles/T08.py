import itertools
from big.all import combine_splits

RULE = 'texts with several splits each: cut positions must be the union; non-trivial: two different splits'
SECONDS = 8


def pieces(t, cuts):
    c = [0] + sorted(cuts) + [len(t)]
    return [t[i:j] for i, j in zip(c, c[1:])]


def enumerate_cases(tier):
    t = 'abcde'
    for n in range(0, 6):
        s = t[:n]
        subs = [c for k in range(n) for c in itertools.combinations(range(1, n), k)] or [()]
        yield (s, (), 0)
        for a in subs:
            yield (s, (a,), 0)
            for b in subs:
                yield (s, (a, b), 0)
                if n < 5:
                    for c in subs:
                        yield (s, (a, b, c), 0)
    for n in range(1, 5):
        s = t[:n]
        for extra in (1, 2, 5):
            for a in [c for k in range(n) for c in itertools.combinations(range(1, n), k)]:
                for b in [c for k in range(n) for c in itertools.combinations(range(1, n), k)]:
                    for pos in (0, 1):
                        yield ('!long', s, (a, b), extra, pos)
                yield ('!long', s, (a,), extra, 0)


def random_case(rng):
    n = rng.randrange(0, 25)
    s = ''.join(rng.choice('aab ') for _ in range(n))
    cs = tuple(tuple(sorted(rng.sample(range(1, n), rng.randrange(0, min(n, 6))))) if n > 1 else () for _ in range(rng.randrange(1, 5)))
    if rng.random() < .1 and n:
        return ('!long', s, cs, rng.randrange(1, 4), rng.randrange(len(cs)))
    return (s, cs, rng.randrange(4))


def nontrivial(c):
    return c[0] == '!long' or len(set(c[1])) > 1


def valid(c):
    if c[0] == '!long':
        return len(c) == 5 and len(c[1]) > 0 and c[3] > 0 and 0 <= c[4] < len(c[2]) and all(0 < x < len(c[1]) for a in c[2] for x in a)
    return len(c) == 3 and all(0 < x < len(c[0]) for a in c[1] for x in a)


def check(case):
    if case[0] == '!long':
        _, s, cs, extra, pos = case
        arrays = [pieces(s, c) for c in cs]
        a = arrays[pos]
        if len(a) > 1 or extra != 2:
            a.append('z' * extra)
        else:
            a[-1] += 'z' * extra
        try:
            r = list(combine_splits(s, *arrays))
        except ValueError:
            return None
        return f'{s!r} with the too long split {a!r} gave {r!r} instead of ValueError'
    s, cs, mode = case
    for t in (s, s.encode()):
        arrays = [pieces(t, c) for c in cs]
        if mode & 1:
            arrays = [[t[:0]] + a + [t[:0]] for a in arrays]
        union = set().union(*cs) if cs else set()
        want = [p for p in pieces(t, union) if p]
        for order in ([arrays, arrays[::-1]] if len(arrays) < 3 else [arrays, arrays[::-1], arrays[1:] + arrays[:1]]):
            before = [list(a) for a in order]
            args = [tuple(a) for a in order] if mode & 2 else order
            got = list(combine_splits(t, *args))
            if got != want:
                return f'combining {arrays!r} of {t!r} gave {got!r}, expected {want!r}'
            if [list(a) for a in args] != before:
                return f'combining changed the given splits {before!r} to {args!r}'
        if cs:
            got = list(combine_splits(t, *(iter(a) for a in arrays)))
            if got != want:
                return f'combining iterators over {arrays!r} of {t!r} gave {got!r}, expected {want!r}'
    return None
