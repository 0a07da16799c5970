import itertools
from big.all import normalize_whitespace
import big.all as big
from .textlib import *

RULE = 'texts, separator collections and replacements against splitting at maximal runs of separators; non-trivial: the text contains a run of separators'
SECONDS = 12


def enumerate_cases(tier):
    for n in range(0, 7):
        for t in itertools.product('a \n' if n > 4 else 'ab \n', repeat=n):
            for r in (None, '', 'xy'):
                yield (''.join(t), None, r)
    for w in STR_WS:
        for t in (f'{w}', f'a{w}b', f'{w}a{w}{w}b{w}', f'a{w} b', f' {w}', f'a{w}'):
            yield (t, None, None)
            yield (t, ('a',), '-')
    for n in range(0, 6):
        for t in itertools.product('ab', repeat=n):
            for seps in (('a',), ('ab',), ('ab', 'a'), ('aa', 'b'), ('ba', 'aba')):
                for r in (None, '--', 'a'):
                    yield (''.join(t), seps, r)


def random_case(rng):
    if rng.random() < .3:
        return (''.join(rng.choice(['a', 'b', ' ', '\t', '\r\n', '\n', '\u2003', '\x1f', 'é', '\x0b']) for _ in range(rng.randrange(10))), None, rng.choice([None, None, ' ', '', '--', '\n']))
    seps = tuple(random_seps(rng))
    return (random_text(rng, seps), seps, rng.choice([None, None, ' ', '', '--', seps[0]]))


def nontrivial(c):
    return any(p in c[0] for p in (c[1] or (' ', '\n')))


def valid(c):
    return c[1] is None or (len(c[1]) > 0 and all(c[1]))


def check(case):
    r = one(*case)
    if r is None and ascii_only(case[0], case[1] or (), case[2] or '') and not any(ch in case[0] for ch in '\x1c\x1d\x1e\x1f'):
        r = one(*enc(case))
    return r


def one(t, seps, rep):
    how = f'normalize_whitespace({t!r}, {seps!r}, {rep!r})'
    by = isinstance(t, bytes)
    ref = seps if seps is not None else BYTES_WS if by else STR_WS
    r = rep if rep is not None else b' ' if by else ' '
    pieces, delims = scan(t, ref, -1, False, False)
    want = r.join(pieces)
    calls = []
    if seps is None:
        calls.append(('', lambda: normalize_whitespace(t, replacement=rep)))
        calls.append((' with big.whitespace', lambda: normalize_whitespace(t, big.bytes_whitespace if by else big.whitespace, rep)))
        calls.append((' with big.whitespace_without_crlf', lambda: normalize_whitespace(t, big.bytes_whitespace_without_crlf if by else big.whitespace_without_crlf, rep)))
        if rep is None:
            calls.append((' by default', lambda: normalize_whitespace(t)))
    else:
        for h in ('tuple', 'list', 'gen', 'set', 'rev', 'dup'):
            calls.append((f' from a {h}', lambda h=h: normalize_whitespace(t, container(seps, h), rep)))
        if all(len(p) == 1 for p in seps):
            calls.append((' from a string', lambda: normalize_whitespace(t, t[:0].join(seps), rep)))
    for name, f in calls:
        got = f()
        if got != want or type(got) is not type(t):
            return f'{how}{name} returned {got!r}, expected {want!r}'
    if seps is None and rep is None:
        if normalize_whitespace(want) != want:
            return f'{how} returned {want!r}, which is normalised to {normalize_whitespace(want)!r}'
    return None
