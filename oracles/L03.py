import itertools
import re
from big.all import lines
import big.all as big
from .lineslib import *
from .T06 import scan as qscan

RULE = 'texts and one filter with every option, against a plain reference of what it keeps and what it cuts; non-trivial: the filter changes or drops something'
SECONDS = 14
# (text lines, filter)


def enumerate_cases(tier):
    words = ['', 'a', ' a', 'a ', '\ta b\t', '#', '#a', ' #', 'a#b', '//', 'a//', ' // ', 'ab', 'ba', 'b']
    fs = [('containing', 'a', False), ('containing', 'a', True), ('containing', '', False), ('grep', 'a', False), ('grep', '^a', True), ('grep', 'b$', False), ('sort', False), ('sort', True), ('empty',), ('strip',), ('rstrip',),
          ('strip', ('a',)), ('strip', ('a', ' ')), ('rstrip', ('a', 'b')), ('rstrip', ('ab',)), ('strip', ('ab', 'a')), ('nocomments', ('#',)), ('nocomments', ('#', '//')), ('nocomments', ('//',)), ('nocomments', '#a'), ('comments', ('#',), (), (), '\\'),
          ('comments', ('#', '//'), (), (), '\\'), ('comments', ('/', '//'), ('"',), (), '\\')]
    for f in fs:
        for n in (1, 2):
            for t in itertools.product(words, repeat=n):
                yield (t, f)
        for t in itertools.product(words[:7], repeat=3):
            yield (t, f)
    toks = ['#', '"', "'", '\\', 'x', '//']
    for n in range(6):
        for t in itertools.product(toks[:5], repeat=n):
            yield ((''.join(t),), ('comments', ('#',), ('"', "'"), (), '\\'))
    for n in range(5):
        for t in itertools.product(toks, repeat=n):
            yield ((''.join(t), 'y # z'), ('comments', ('#', '//'), ("'",), ('"',), '\\'))
            yield (('', ''.join(t), '"'), ('comments', ('//', '#'), (), ('"', "'"), ''))
    for f in (('grep', 'A', False, int(re.I)), ('grep', 'x', False, 0, 'hit'), ('sort', False, 'len'), ('sort', True, 'len')):
        for t in itertools.product(['a', 'xa', '', 'bbb', 'X'], repeat=3):
            yield (t, f)


def random_case(rng):
    n = rng.randrange(1, 6)
    m = rng.random()
    if m < .45:
        marks = rng.sample(['#', '//', '--', ';', '##', '/', 'REM', '*'], rng.randrange(1, 4))
        qs = rng.sample(['"', "'", '`', '"""', "'''", '|'], rng.randrange(0, 4))
        k = rng.randrange(len(qs) + 1)
        f = ('comments', tuple(marks), tuple(qs[:k]), tuple(qs[k:]), rng.choice(['\\', '\\', '^', '']))
        toks = marks + qs * 2 + ['x', ' ', 'yz'] + [f[4]] + [f[4] + q for q in qs]
        return (tuple(''.join(rng.choice(toks) for _ in range(rng.randrange(9))) for _ in range(n)), f)
    f = rng.choice([('strip',), ('rstrip',), ('strip', tuple(rseps(rng))), ('rstrip', tuple(rseps(rng))), ('nocomments', tuple(rng.sample(['#', '//', ';', '##', '.', '--'], rng.randrange(1, 4)))),
                    ('containing', rng.choice(['a', 'ab', ' ', '', '#']), rng.random() < .5), ('grep', rng.choice(['a', 'b+', '^', 'x$', '^\\s', '[ab]x', '(?:a)(b)?']), rng.random() < .5, rng.choice([0, int(re.I)])),
                    ('sort', rng.random() < .5), ('sort', rng.random() < .5, 'len'), ('empty',)])
    return (tuple(''.join(rng.choice(['a', 'b', 'ab', ' ', '\t', 'x', 'A', '#', '//', '.', '\x0b' if f[0] != 'x' else '', '\u3000', '\x1f']) for _ in range(rng.randrange(6))) for _ in range(n)), f)


def rseps(rng):
    return [''.join(rng.choice('ab x') for _ in range(rng.randrange(1, 3))) for _ in range(rng.randrange(1, 4))]


def nontrivial(c):
    return len(c[0]) > 1 or len(c[0][0]) > 1


def valid(c):
    f = c[1]
    if f[0] == 'comments':
        qs = f[2] + f[3]
        if not f[1] or not all(f[1]) or not all(qs) or len(set(qs)) < len(qs) or f[4] in qs and f[4]:
            return False
    if f[0] in ('strip', 'rstrip') and len(f) > 1 and not (f[1] and all(f[1])):
        return False
    if f[0] == 'nocomments' and not (f[1] and all(f[1])):
        return False
    return all(isinstance(x, str) and '\n' not in x and '\r' not in x for x in c[0])


def check(case):
    ls, f = case
    r = one(ls, f, '')
    if r is None and ascii_only(case[0]) and ascii_only([x for x in f if isinstance(x, (str, tuple))]):
        g = f
        if f[0] == 'sort' or (f[0] == 'grep' and len(f) > 4):
            g = f
        r = one(tuple(map(enc, ls)), encb(f), b'')
    return r


def encb(f):
    if f[0] == 'sort':
        return f
    if f[0] == 'grep':
        return (f[0], f[1].encode()) + f[2:]
    return encf(f)


def source(ls, empty):
    nl = b'\n' if isinstance(empty, bytes) else '\n'
    return lines([(l, nl) for l in ls])


def one(ls, f, empty):
    k = f[0]
    how = f'{f!r} over {ls!r}'
    extra = 'match'
    it = source(ls, empty)
    if k == 'grep':
        fl = f[3] if len(f) > 3 else 0
        extra = f[4] if len(f) > 4 else 'match'
        kw = dict(invert=f[2])
        if fl:
            kw['flags'] = fl
        if len(f) > 4:
            kw['match'] = extra
        run = lambda: list(big.lines_grep(it, f[1], **kw))
    elif k == 'sort' and len(f) > 2:
        run = lambda: list(big.lines_sort(it, key=lambda t: len(t[1]), reverse=f[1]))
    else:
        run = lambda: list(apply(it, f))
    want = expect(ls, f, empty)
    try:
        got = run()
    except SyntaxError:
        return None if want is None else f'{how} raised SyntaxError'
    if want is None:
        return f'{how} yielded {[l for _, l in got]!r}, expected SyntaxError for the unterminated quote'
    if len(got) != len(want):
        return f'{how} yielded {[l for _, l in got]!r}, expected {[w[1:3] for w in want]!r}'
    for (info, line), (n, lead, body, trail) in zip(got, want):
        if info.line_number != n + 1 or (info.leading, line, info.trailing) != (lead, body, trail):
            return f'{how} yielded line {info.line_number} as {info.leading!r}, {line!r}, {info.trailing!r}, expected line {n + 1} as {lead!r}, {body!r}, {trail!r}'
        if k == 'grep':
            m = getattr(info, extra, 0)
            p = re.compile(f[1], f[3] if len(f) > 3 else 0).search(line)
            if f[2] and m is not None or not f[2] and (m == 0 or m is None or m.span() != p.span() or m.string != line):
                return f'{how} recorded the match {m!r}'
    return None


def expect(ls, f, empty):
    """[(line index, leading, line, trailing)] or None for SyntaxError"""
    k = f[0]
    whole = [(n, empty, l, empty) for n, l in enumerate(ls)]
    if k == 'containing':
        return [w for w in whole if (f[1] in w[2]) != f[2]]
    if k == 'grep':
        p = re.compile(f[1], f[3] if len(f) > 3 else 0)
        return [w for w in whole if (p.search(w[2]) is not None) != f[2]]
    if k == 'sort':
        key = (lambda w: len(w[2])) if len(f) > 2 else (lambda w: w[2])
        return sorted(whole, key=key, reverse=f[1])
    if k == 'empty':
        return [w for w in whole if len(w[2]) > 0]
    if k in ('strip', 'rstrip'):
        out = []
        for n, l in enumerate(ls):
            a, b = 0, len(l)
            if len(f) == 1:
                b = len(l.rstrip())
                a = len(l) - len(l.lstrip()) if k == 'strip' else 0
            else:
                if isinstance(f[1], (str, bytes)):
                    seps = [f[1][i:i + 1] for i in range(len(f[1]))]
                else:
                    seps = f[1]
                a, b = strip_span(l, seps, k == 'strip')
            if a >= b:
                out.append((n, empty, empty, l))
            else:
                out.append((n, l[:a], l[a:b], l[b:]))
        return out
    marks = f[1] if isinstance(f[1], tuple) else [f[1][i:i + 1] for i in range(len(f[1]))]
    if k == 'nocomments':
        return [w for w in whole if not any(w[2].lstrip().startswith(m) for m in marks)]
    # strip comments
    q, multi, esc = f[2], f[3], f[4]
    out = []
    state = empty
    for n, l in enumerate(ls):
        cut = None
        if not q and not multi:
            cut = first_mark(l, marks)
        else:
            at = 0
            began = bool(state)
            pieces = qscan(l, q, esc, multi, state)
            if pieces is None:
                return None
            last_open = state
            for i, (a, t, c) in enumerate(pieces):
                inside = (began and i == 0) or bool(a)
                if inside:
                    at += len(a) + len(t) + len(c)
                    last_open = empty if c else (a or state)
                    continue
                last_open = empty
                p = first_mark(t, marks)
                if p is not None:
                    cut = at + p
                    break
                at += len(t)
            if cut is None:
                state = last_open
                if state and state not in multi:
                    return None
            else:
                state = empty
        if cut is None:
            out.append((n, empty, l, empty))
        elif cut == 0:
            out.append((n, empty, empty, l))
        else:
            out.append((n, empty, l[:cut], l[cut:]))
    if state:
        return None
    return out


def first_mark(t, marks):
    p = [t.find(m) for m in marks if t.find(m) >= 0]
    return min(p) if p else None


def strip_span(l, seps, left):
    """bounds after stripping, by the definition of multistrip (greedy from each end, regular expression order: longest first)"""
    alt = sorted(seps, key=len, reverse=True)
    empty = l[:0]
    pipe = b'|' if isinstance(l, bytes) else '|'
    r = pipe.join(re.escape(x) for x in alt)
    pat = (b'(?:%s)+' % r) if isinstance(l, bytes) else f'(?:{r})+'
    a = 0
    if left:
        m = re.compile(pat).match(l)
        a = m.end() if m else 0
    rest = l[a:]
    m = re.compile(pat + (b'\\Z' if isinstance(l, bytes) else '\\Z')).search(rest)
    return a, a + (m.start() if m else len(rest))
