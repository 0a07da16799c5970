import itertools
from big.all import multisplit, multistrip
from .textlib import *

RULE = 'every combination of keep, maxsplit, reverse, separate and strip against a reference scan, and the default separators against str.split; non-trivial: at least two options set'
SECONDS = 14
KEEP = [False, True, 'ALTERNATING', 'AS_PAIRS']
STRIP = [False, True, 'LEFT', 'RIGHT', 'PROGRESSIVE']
MAX = [-1, None, 0, 1, 2, 3, 7]
SETS = [('a',), ('a', 'ab'), ('ab', 'ba'), ('aba', 'b'), ('aa', 'a'), ('aab', 'ab')]
BADS = ['bytes-sep', 'str-sep', 'mixed', 'int', 'empty', 'ints', 'emptystr', 'emptygen', 'nested']


def enumerate_cases(tier):
    opts = list(itertools.product(KEEP, MAX, (False, True), (False, True), STRIP))
    texts = ['', 'a', 'x', 'aa', 'ab', 'ba', 'aba', 'xaby', 'abab', 'axa', 'aaxaa', 'xaax', 'xaaxa', 'axbxabax', 'ababa', 'aaxbyaazaa', 'xabayababz']
    for seps in SETS:
        for t in texts:
            for o in opts:
                yield (t, seps) + o
    for t in ('', ' ', 'a b', ' a b ', '  a  b  c  ', '\r\na\r\n b\n\rc\r', 'a\tb\x0bc\x0cd', '\r\n', ' \r\n a', 'abc'):
        for o in opts:
            yield (t, None) + o
    for b in BADS:
        yield ('!bad', b)
    for n in range(0, 7):
        for t in itertools.product('ab', repeat=n):
            for seps in SETS[1:3]:
                for m in (-1, 1, 2):
                    for rev in (False, True):
                        yield (''.join(t), seps, 'ALTERNATING', m, rev, True, 'PROGRESSIVE' if n % 2 else False)
                        yield (''.join(t), seps, False, m, rev, False, 'PROGRESSIVE')


def random_case(rng):
    o = (rng.choice(KEEP), rng.choice(MAX), rng.random() < .5, rng.random() < .5, rng.choice(STRIP))
    if rng.random() < .2:
        return (''.join(rng.choice(['a', 'bc', ' ', '  ', '\t', '\r\n', '\n', '\r', '\x0b']) for _ in range(rng.randrange(10))), None) + o
    seps = tuple(random_seps(rng))
    return (random_text(rng, seps), seps) + o


def nontrivial(c):
    return len(c) > 2 and sum(x not in (False, -1) for x in c[2:]) >= 2


def valid(c):
    return c[0] == '!bad' or c[1] is None or (len(c[1]) > 0 and all(c[1]))


def bad(b):
    g = (x for x in ())
    cases = {'bytes-sep': ('abc', b'b'), 'str-sep': (b'abc', 'b'), 'mixed': ('abc', ['a', b'b']), 'int': ('abc', 5), 'empty': ('abc', ()), 'ints': ('abc', [1]), 'emptystr': ('abc', ''), 'emptygen': ('abc', g), 'nested': (b'abc', [b'a', ['b']])}
    t, s = cases[b]
    try:
        r = list(multisplit(t, s))
    except (TypeError, ValueError):
        return None
    return f'multisplit({t!r}, {b} separators) returned {r!r} instead of raising'


def check(case):
    if case[0] == '!bad':
        return bad(case[1])
    r = one(*case)
    if r is None and ascii_only(case[0], case[1] or ()):
        r = one(*enc(case[:2]), *case[2:])
    return r


def one(t, seps, keep, maxsplit, reverse, separate, strip):
    empty = t[:0]
    ref = seps if seps is not None else (STR_WS if isinstance(t, str) else BYTES_WS)
    m = -1 if maxsplit is None else maxsplit
    s = t
    how = f'multisplit({t!r}, {seps!r}, keep={keep!r}, maxsplit={maxsplit}, reverse={reverse}, separate={separate}, strip={strip!r})'
    got = list(multisplit(t, None if seps is None else list(seps), keep=keep, maxsplit=maxsplit, reverse=reverse, separate=separate, strip=strip))
    if strip:
        left, right = strip != 'RIGHT', strip != 'LEFT'
        if strip == 'PROGRESSIVE' and m != -1:
            left, right = not reverse, reverse
        s = multistrip(t, list(ref), left=left, right=right)
        p = strip_problem(t, s, ref, left, right)
        if p:
            return f'{how}: stripping: {p}'
        if not s:
            m = 0
    pieces, delims = scan(s, ref, m, separate, reverse)
    if strip == 'PROGRESSIVE' and m > 0:
        while len(pieces) > 1 and not pieces[0 if reverse else -1]:
            if reverse:
                del pieces[0], delims[0]
            else:
                del pieces[-1], delims[-1]
    want = fmt(pieces, delims, keep, empty)
    if got != want or any(type(x) is not type(y) for x, y in zip(got, want)):
        return f'{how} gives {got!r}, expected {want!r}'
    if m >= 0 and len(delims) > m:
        return f'{how}: more than {m} splits'
    if seps is None and not keep and strip == 'PROGRESSIVE' and not separate and s:
        std = t.rsplit(None, -1 if maxsplit is None else maxsplit) if reverse else t.split(None, -1 if maxsplit is None else maxsplit)
        if got != std and std:
            return f'{how} gives {got!r}, the standard split {std!r}'
    return None
