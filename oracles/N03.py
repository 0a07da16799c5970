import itertools
import re
from big.all import gently_title, apostrophes, double_quotes

RULE = 'texts over letters, spaces, brackets, apostrophes and quotes (default and given ones) against a rule stated per character; non-trivial: an apostrophe or quote occurs'
SECONDS = 10


def enumerate_cases(tier):
    for n in range(0, 7):
        for t in itertools.product("ao' " if n == 6 else "ado'\" (" if n < 5 else "ad'\" ", repeat=n):
            yield (''.join(t), None, None)
    for a in apostrophes + double_quotes:
        for t in (f'{a}twas', f'o{a}toole', f'x o{a}t', f'{a}{a}ab', f'"{a}ab', f'don{a}t', f'(o{a}a {a}(b', f'd{a}arcy d{a} e'):
            yield (t, None, None)
            yield (t, '`', '|')
    for t in ('`ab |ab o`a', 'éa ñ', 'a\u3000b\x0bc\tx\nd', "o'é", 'straße ßa', '1a b2 3', 'a)b[c {d', 'ǆa', 'ﬁx', "i̇ a", 'MIXED case'):
        yield (t, None, None)
        yield (t, '`', None)
        yield (t, None, '`|')


def random_case(rng):
    q = ["'", '"', '\u2019', '\u201c', '«', '`']
    return (''.join(rng.choice(['a', 'o', 'd', 'O', 'D', 'x', "'", ' ', ' ', '(', '"', 'é', 'Z', '\n', rng.choice(q)]) for _ in range(rng.randrange(12))), rng.choice([None, None, None, '`', "`'"]), rng.choice([None, None, None, '|', '*"']))


def nontrivial(c):
    return any(x in c[0] for x in '\'"\u2019')


def valid(c):
    return all(x is None or x and not any(ch.isalpha() or ch.isspace() for ch in x) for x in c[1:])


def check(case):
    r = one(*case)
    if r is None and all(x is None or x.isascii() for x in case) and not any(ch in case[0] for ch in '\x1c\x1d\x1e\x1f'):
        r = one(*(x if x is None else x.encode() for x in case))
    return r


def one(t, ap, dq):
    how = f'gently_title({t!r}, apostrophes={ap!r}, double_quotes={dq!r})'
    by = isinstance(t, bytes)
    chars = lambda x: [x[i:i + 1] for i in range(len(x))]
    A = chars(ap) if ap is not None else [b"'"] if by else list(apostrophes)
    Q = chars(dq) if dq is not None else [b'"'] if by else list(double_quotes)
    par, DO = (b'(', (b'D', b'O')) if by else ('(', ('D', 'O'))
    out = []
    word = []          # characters of this word before the current one
    for c in chars(t):
        if c.isspace() or c == par:
            out.append(c)
            word = []
            continue
        up = not word or all(x in A or x in Q for x in word)
        if len(word) >= 2 and word[0].upper() in DO and word[0] not in A + Q and word[1] in A:
            if len(word) == 2:
                if c in A or c in Q:
                    return None          # a run of quotes after O': not specified
                up = True
        out.append(c.upper() if up else c)
        word.append(c)
    want = t[:0].join(out)
    kw = {}
    if ap is not None:
        kw['apostrophes'] = ap
    if dq is not None:
        kw['double_quotes'] = dq
    calls = [('', lambda: gently_title(t, **kw))]
    if kw:
        calls.append((' with lists', lambda: gently_title(t, **{k: chars(v) for k, v in kw.items()})))
        calls.append((' with None', lambda: gently_title(t, apostrophes=ap, double_quotes=dq)))
    for name, f in calls:
        got = f()
        if got != want:
            return f'{how}{name} returned {got!r}, expected {want!r}'
    if not by and want.casefold() != t.casefold():
        return f'{how} returned {want!r}, which differs in more than case'
    if gently_title(want, **kw) != want and all(len(x.upper()) == 1 for x in chars(t)):
        return f'{how} returned {want!r}, again {gently_title(want, **kw)!r}'
    return None
