import itertools
from big.all import multipartition, multirpartition
from .textlib import *

RULE = 'texts, separator sets, counts and directions against a reference scan and repeated str.partition; non-trivial: a separator occurs and the count is not 1'
SECONDS = 12
SETS = [('a',), ('ab',), ('a', 'ab'), ('ab', 'ba'), ('aba', 'b'), ('aa', 'a'), ('aab', 'ab'), ('aa',), ('abab',)]


def enumerate_cases(tier):
    for n in range(0, 6):
        for t in itertools.product('abx' if n < 4 else 'ab', repeat=n):
            for seps in SETS:
                for count in (0, 1, 2, 3):
                    for rev in (False, True):
                        for sep in (True, False):
                            yield (''.join(t), seps, count, rev, sep)
    for seps in SETS:
        for count in (-1, -5):
            for rev in (False, True):
                yield ('xaby', seps, count, rev, True)
    for t in ('', ' a b ', 'a\r\nb', '\n\r', 'abc'):
        for count in (0, 1, 2, 9):
            for rev in (False, True):
                for sep in (True, False):
                    yield (t, None, count, rev, sep)


def random_case(rng):
    if rng.random() < .1:
        return (''.join(rng.choice(['a', ' ', '\r\n', '\n', '\r', 'b']) for _ in range(rng.randrange(9))), None, rng.randrange(5), rng.random() < .5, rng.random() < .5)
    seps = tuple(random_seps(rng))
    return (random_text(rng, seps), seps, rng.randrange(6), rng.random() < .5, rng.random() < .5)


def nontrivial(c):
    return c[2] != 1 and (c[1] is None or any(p in c[0] for p in c[1]))


def valid(c):
    return c[1] is None or (len(c[1]) > 0 and all(c[1]))


def check(case):
    r = one(*case)
    if r is None and ascii_only(case[0], case[1] or ()):
        r = one(*enc(case[:2]), *case[2:])
    return r


def one(t, seps, count, rev, separate):
    empty = t[:0]
    how = f'multipartition({t!r}, {seps!r}, {count}, reverse={rev}, separate={separate})'
    arg = None if seps is None else list(seps)
    if count < 0:
        for f in (multipartition, multirpartition):
            try:
                r = f(t, arg, count, reverse=rev, separate=separate)
            except ValueError:
                continue
            return f'{how} returned {r!r} instead of raising ValueError'
        return None
    got = multipartition(t, arg, count, reverse=rev, separate=separate)
    if not isinstance(got, tuple) or len(got) != 2 * count + 1:
        return f'{how} returned {got!r}, not a tuple of {2 * count + 1}'
    if empty.join(got) != t:
        return f'{how} returned {got!r}, which joins to {empty.join(got)!r}'
    ref = seps if seps is not None else (STR_WS if isinstance(t, str) else BYTES_WS)
    pieces, delims = scan(t, ref, count, separate, rev)
    want = fmt(pieces, delims, 'ALTERNATING', empty)
    pad = [empty] * (2 * count + 1 - len(want))
    want = tuple(pad + want if rev else want + pad)
    if got != want:
        return f'{how} returned {got!r}, expected {want!r}'
    other = multirpartition(t, arg, count, reverse=not rev, separate=separate)
    if other != got:
        return f'{how} returned {got!r} but multirpartition with the opposite direction {other!r}'
    if separate:
        if multipartition(t, arg, count, reverse=rev) != got:
            return f'{how} differs from the default of separate'
        if count == 1 and not rev and multipartition(t, arg) != got:
            return f'{how} differs from the default of count'
        if count == 1 and rev and multirpartition(t, arg) != got:
            return f'multirpartition({t!r}, {seps!r}) differs from {got!r}'
        if seps is not None and len(seps) == 1:
            rest, out = t, []
            for k in range(count):
                if rev:
                    rest, d, x = rest.rpartition(seps[0]) if rest is not None else (None, empty, empty)
                    if not d:
                        rest, x = (x, None) if rest is not None else (None, None)
                        break
                    out = [d, x] + out
                else:
                    x, d, rest2 = rest.partition(seps[0])
                    if not d:
                        break
                    out += [x, d]
                    rest = rest2
            out = tuple([empty] * (2 * count - len(out)) + [rest] + out) if rev else tuple(out + [rest] + [empty] * (2 * count - len(out)))
            if out != got:
                return f'{how} returned {got!r}, repeated partition {out!r}'
    return None
