import itertools
from big.all import multisplit
from .textlib import *

RULE = 'texts and separator sets (overlapping, multi-character, special characters, whitespace) against a left-to-right longest-match scan; non-trivial: at least one split'
SECONDS = 12
SETS = [('a',), ('ab',), ('aa',), ('a', 'ab'), ('ab', 'ba'), ('a', 'b'), ('aab', 'ab', 'b'), ('aba', 'a'), ('abb', 'bb', 'ab'), ('b', 'ba', 'bab'), ('a', 'aa', 'aaa'), ('abc', 'bc', 'c'), ('abab', 'ababa'), ('aaaaa', 'aaaaaaa', 'aaaa'), ('12345678', '123456789'), ('abcabcabcabc', 'abcabcabcabca', 'c')]


def enumerate_cases(tier):
    for n in range(0, 6):
        for t in itertools.product('abc' if n < 5 else 'ab', repeat=n):
            for seps in SETS:
                yield (''.join(t), seps, 'list')
    for m in range(1, 25):
        for a, b in (('a' * m, 'a' * (m + 1)), ('xy' * m, 'xy' * m + 'z'), ('b' + 'a' * m, 'a' * m + 'b')):
            for t in (b, 'x' + b + b, a + b + a, '-' + a + '-' + b):
                yield (t, (a, b), 'list')
                yield (t, (b, a), 'tuple')
    for how in HOWS:
        for seps in SETS:
            for t in ('', 'x', 'xabbay', 'aabab', 'ababa', 'xaabaabx', 'aaaa', 'bbabcbc'):
                yield (t, seps, how)
    for sp in SPECIAL:
        for t in ('x' + sp + 'y', sp, sp + sp, 'x' + sp, sp + 'y', 'a' + sp + 'b' + sp + sp + 'c', 'abc'):
            yield (t, (sp,), 'list')
            yield (t, (sp, 'a'), 'set')
            yield (t, (sp, sp + 'b', '.'), 'tuple')
    for t in ('', ' ', 'a b', ' a  b\t\nc ', 'a\r\nb', '\r\n\r\n', 'a\n\rb', 'a\x0b\x0cb', 'a\x1c\x1d\x1e\x1fb', 'a\x85b\xa0c', 'a\u2003b\u2028c\u3000', 'abc', '\u200ba', 'a\ufeffb', '\r\r\n\n'):
        yield (t, None, 'list')
    for w in WS:
        yield ('a' + w + 'b' + w, None, 'list')
    for t in ('a.b,c', 'ab', '..,,'):
        yield (t, ('.', ','), 'str')


def random_case(rng):
    if rng.random() < .1:
        return (''.join(rng.choice(['a', 'bc', ' ', '\t', '\r\n', '\n', '\r', '\x0b', '\u3000', '\x85', '\x1c', 'é']) for _ in range(rng.randrange(12))), None, 'list')
    seps = tuple(random_seps(rng))
    how = rng.choice(HOWS)
    if all(len(x) == 1 for x in seps) and rng.random() < .3:
        how = 'str'
    return (random_text(rng, seps), seps, how)


def nontrivial(c):
    return c[1] is None or any(p in c[0] for p in c[1])


def valid(c):
    return c[1] is None or (len(c[1]) > 0 and all(c[1]) and (c[2] != 'str' or all(len(x) == 1 for x in c[1])))


def check(case):
    t, seps, how = case
    r = one(t, seps, how)
    if r is None and ascii_only(t, seps or ()):
        if not (seps is None and any('\x1c' <= x <= '\x1f' for x in t)):
            r = one(enc(t), enc(seps), how)
            if r:
                r = 'bytes: ' + r
    return r


def one(t, seps, how):
    empty = t[:0]
    ref = seps if seps is not None else (STR_WS if isinstance(t, str) else BYTES_WS)
    for separate in (False, True):
        pieces, delims = scan(t, ref, -1, separate, False)
        for keep in (True, 'ALTERNATING', 'AS_PAIRS', False):
            arg = None if seps is None else container(seps, how)
            got = list(multisplit(t, arg, keep=keep, separate=separate))
            want = fmt(pieces, delims, keep, empty)
            if keep:
                flat = [y for x in got for y in x] if keep == 'AS_PAIRS' else got
                try:
                    j = empty.join(flat)
                except TypeError:
                    return f'keep={keep!r} gave {got!r}'
                if j != t:
                    return f'splitting {t!r} at {seps!r} with keep={keep!r}, separate={separate} gives {got!r}, which joins to {j!r}'
            if got != want or any(type(x) is not type(y) for x, y in zip(got, want)):
                return f'splitting {t!r} at {seps!r} ({how}) with keep={keep!r}, separate={separate} gives {got!r}, expected {want!r}'
    if not any(p in t for p in ref):
        for keep, want in ((True, [t]), ('ALTERNATING', [t]), ('AS_PAIRS', [(t, empty)]), (False, [t])):
            got = list(multisplit(t, None if seps is None else container(seps, how), keep=keep))
            if got != want:
                return f'{t!r} has no separator of {seps!r} but splits into {got!r}'
    return None
