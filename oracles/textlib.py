"""Reference definitions for the text functions, written as plain scans."""
WS = [chr(i) for i in range(0x110000) if chr(i).isspace()]
STR_WS = WS + ['\r\n']
BYTES_WS = [b'\t', b'\n', b'\x0b', b'\x0c', b'\r', b' ', b'\r\n']


def cut(s, i, j):
    return s[i:j]


def longest_at(s, i, seps):
    best = 0
    for p in seps:
        if len(p) > best and s.startswith(p, i):
            best = len(p)
    return best


def longest_ending(s, e, seps):
    best = 0
    for p in seps:
        if len(p) > best and len(p) <= e and s.startswith(p, e - len(p)):
            best = len(p)
    return best


def scan(s, seps, maxsplit, separate, reverse):
    """(pieces, separators between them), left to right"""
    pieces, delims = [], []
    n = len(s)
    if not reverse:
        start = i = 0
        while i < n and (maxsplit < 0 or len(delims) < maxsplit):
            k = longest_at(s, i, seps)
            if not k:
                i += 1
                continue
            e = i + k
            if not separate:
                while True:
                    k = longest_at(s, e, seps)
                    if not k:
                        break
                    e += k
            pieces.append(s[start:i])
            delims.append(s[i:e])
            start = i = e
        pieces.append(s[start:])
        return pieces, delims
    end = i = n
    while i > 0 and (maxsplit < 0 or len(delims) < maxsplit):
        k = longest_ending(s, i, seps)
        if not k:
            i -= 1
            continue
        b = i - k
        if not separate:
            while True:
                k = longest_ending(s, b, seps)
                if not k:
                    break
                b -= k
        pieces.append(s[i:end])
        delims.append(s[b:i])
        end = i = b
    pieces.append(s[:end])
    return pieces[::-1], delims[::-1]


def concatenation(s, seps):
    """is s a concatenation of separators?"""
    ok = [True] + [False] * len(s)
    for i in range(len(s)):
        if ok[i]:
            for p in seps:
                if p and s.startswith(p, i):
                    ok[i + len(p)] = True
    return ok[len(s)]


def strip_problem(s, r, seps, left, right):
    """None if r is s stripped at the requested sides"""
    if type(r) is not type(s):
        return f'result is {r!r}'
    cands = []
    for i in range(len(s) - len(r) + 1):
        if s[i:i + len(r)] == r:
            a, b = s[:i], s[i + len(r):]
            if (not left and a) or (not right and b):
                continue
            if concatenation(a, seps) and concatenation(b, seps):
                cands.append(i)
    if not cands:
        return f'{r!r} is not {s!r} with separators removed at the requested ends'
    for p in seps:
        if left and r.startswith(p):
            return f'{r!r} still starts with {p!r}'
        if right and r.endswith(p):
            return f'{r!r} still ends with {p!r}'
    return None


def fmt(pieces, delims, keep, empty):
    if not keep:
        return list(pieces)
    if keep == 'ALTERNATING':
        out = [pieces[0]]
        for d, p in zip(delims, pieces[1:]):
            out += [d, p]
        return out
    d = list(delims) + [empty]
    if keep == 'AS_PAIRS':
        return list(zip(pieces, d))
    return [p + x for p, x in zip(pieces, d)]


def enc(x):
    if isinstance(x, str):
        return x.encode('ascii')
    if isinstance(x, tuple):
        return tuple(enc(y) for y in x)
    if isinstance(x, list):
        return [enc(y) for y in x]
    return x


def ascii_only(*xs):
    for x in xs:
        if isinstance(x, str):
            if not x.isascii():
                return False
        elif isinstance(x, (list, tuple)):
            if not ascii_only(*x):
                return False
    return True


def container(seps, how):
    if how == 'list':
        return list(seps)
    if how == 'tuple':
        return tuple(seps)
    if how == 'set':
        return set(seps)
    if how == 'frozenset':
        return frozenset(seps)
    if how == 'gen':
        return (x for x in seps)
    if how == 'iter':
        return iter(list(seps))
    if how == 'dict':
        return {x: None for x in seps}
    if how == 'rev':
        return list(seps)[::-1]
    if how == 'dup':
        return list(seps) + list(seps)
    if how == 'str':
        return (b'' if isinstance(seps[0], bytes) else '').join(seps)
    raise ValueError(how)


HOWS = ['list', 'tuple', 'set', 'frozenset', 'gen', 'iter', 'dict', 'rev', 'dup']
SPECIAL = list('.*+?^$()[]{}|\\-&~# \t\n\r\x0b') + ['ab', 'a.', '.*', 'a|b', '^a', 'a$', '\r\n', '[a', '\\d', '\\', ' a', '  ', '\n\n', 'é', '\u2028', '\x85', '𝔸']


def random_seps(rng):
    m = rng.random()
    if m < .05:
        a = ''.join(rng.choice('ab') for _ in range(rng.randrange(3, 14)))
        return [a, a + rng.choice('ab'), a[rng.randrange(3):]]
    if m < .45:
        a = 'ab' if rng.random() < .6 else 'abc'
        return [''.join(rng.choice(a) for _ in range(rng.randrange(1, 4))) for _ in range(rng.randrange(1, 4))]
    if m < .75:
        return [rng.choice(SPECIAL) for _ in range(rng.randrange(1, 5))]
    if m < .85:
        return [rng.choice(['\r', '\n', '\r\n', ' ', '\t', '  ', ' \n']) for _ in range(rng.randrange(1, 4))]
    return [rng.choice(['-', '--', '->', '>', '<-', '<', '=', '==', '===', '-=']) for _ in range(rng.randrange(1, 5))]


def random_text(rng, seps, n=10):
    chars = sorted(set(''.join(seps)) | set('abx'))
    out = []
    for _ in range(rng.randrange(n)):
        m = rng.random()
        if m < .4:
            out.append(rng.choice(seps))
        elif m < .85:
            out.append(rng.choice(chars))
        else:
            out.append(rng.choice(['x', 'yz', ' ', '\n', 'é', 'Q']))
    return ''.join(out)
