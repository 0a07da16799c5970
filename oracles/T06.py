import itertools
from big.all import split_quoted_strings

RULE = 'texts over quote marks, escapes and line breaks for several mark sets, escapes and initial states against a reference scanner (and argument errors); non-trivial: the text contains a quote mark and an escape or a second mark'
SECONDS = 12
# quotes, escape, multiline quotes
CONF = [(('"', "'"), '\\', ()), (('"',), '', ()), (("'",), '\\', ('"',)), (("'",), '\\', ('"""', "'''")), (('"', '"""'), '\\', ()), ((), '\\', ('"', '"""')), (('a', 'ab'), 'x', ('ba',)),
        (('"',), '^^', ("'",)), (('|',), '||', ()), (('<<',), '', ('<',)), (('"', "'"), '#', ('`',)), (('.',), '*', ('[',)), (('""',), '"', ()), (('$', '$$'), '%', ())]


def scan(s, quotes, escape, multi, state):
    """list of triples, or None for SyntaxError"""
    allq = tuple(quotes) + tuple(multi)
    tokens = list(allq)
    if escape:
        tokens += [escape + q for q in allq] + [escape + escape]
    empty = s[:0]
    out = []
    quote = state
    first = bool(state)
    buf = empty
    i = 0

    def emit(close):
        nonlocal first
        if quote and quote not in multi and buf:
            if len((buf + (b'x' if isinstance(s, bytes) else 'x')).splitlines()) > 1:
                return False
        if first:
            out.append((empty, buf, close))
            first = False
        else:
            out.append((quote, buf, close))
        return True

    while i < len(s):
        tok = max((t for t in tokens if s.startswith(t, i)), key=len, default=None)
        if tok is None:
            buf += s[i:i + 1]
            i += 1
            continue
        i += len(tok)
        if not quote:
            if tok in allq:
                if buf:
                    out.append((empty, buf, empty))
                buf = empty
                quote = tok
            else:
                buf += tok
        elif tok == quote:
            if not emit(tok):
                return None
            buf = quote = empty
        else:
            buf += tok
    if buf or quote:
        if not emit(empty):
            return None
    return out


def enumerate_cases(tier):
    for q, e, m in CONF:
        alpha = sorted(set(''.join(q + m) + e[:1]))[:3] + ['z']
        for n in range(0, 6 if len(alpha) < 4 else 5):
            for t in itertools.product(alpha, repeat=n):
                yield (''.join(t), q, e, m, '')
    for q, e, m in CONF:
        toks = list(q + m) + [e, 'b', '\n', '\r\n', ' ']
        for n in range(1, 4):
            for t in itertools.product(toks, repeat=n):
                for st in ('',) + q + m:
                    yield (''.join(t), q, e, m, st)
    for lb in '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029':
        for t in ('"a%sb"', '"%s"', '"a%s"', '"%sa', '"a%s', 'x%s"y"', '"""%s"""'):
            yield (t % lb, ('"',), '\\', (), '')
            yield (t % lb, ('"',), '\\', ('"""',), '')
    for case in BAD:
        yield case


BAD = [('!error', ValueError, ('x', ('"', '"'), '\\', (), '')), ('!error', ValueError, ('x', ('"',), '\\', ('"',), '')), ('!error', ValueError, ('x', ('"',), '\\', ("'", "'"), '')), ('!error', ValueError, ('x', ('"',), '\\', (), "'")),
       ('!error', ValueError, ('x', ('"', ''), '\\', (), '')), ('!error', ValueError, ('x', ('"',), '\\', ('',), '')), ('!error', TypeError, ('x', ('"', b"'"), '\\', (), '')), ('!error', TypeError, ('x', ('"',), b'x', (), '')),
       ('!error', TypeError, ('x', ('"',), '\\', (b"'",), '')), ('!error', TypeError, ('x', ('"',), '\\', (), b'"')), ('!error', TypeError, (b'x', ('"', "'", "z"), '\\', (), '')), ('!error', ValueError, ('x', (), '\\', (), '')),
       ('!error', ValueError, ('x', ('"', "'", '"'), '\\', ('`',), '"'))]
BAD = [(a, b.__name__, c) for a, b, c in BAD]


def random_case(rng):
    if rng.random() < .6:
        q, e, m = rng.choice(CONF)
    else:
        marks = rng.sample(['"', "'", '"""', "'''", '`', 'a', 'aa', 'ab', '<', '<<', '""', "''", '-', '--', '\\', '[', '.*', '|'], rng.randrange(1, 5))
        k = rng.randrange(len(marks) + 1)
        q, m = tuple(marks[:k]), tuple(marks[k:])
        e = rng.choice([x for x in ('\\', '', '^', '\\\\', 'a', '!!', '#') if x not in marks])
    toks = list(q + m) * 2 + [e, e, 'z', ' ', 'ab'] + [e + x for x in q + m] + (['\n', '\r', '\r\n', '\u2028'] if rng.random() < .3 else [])
    return (''.join(rng.choice(toks) for _ in range(rng.randrange(12))), q, e, m, rng.choice(('', '', '') + q + m))


def nontrivial(c):
    return c[0] != '!error' and sum(c[0].count(q) for q in c[1] + c[3]) > 1


def valid(c):
    if c[0] == '!error':
        return True
    allq = c[1] + c[3]
    return isinstance(c[0], str) and all(allq) and len(set(allq)) == len(allq) > 0 and (not c[4] or c[4] in allq) and c[2] not in allq


def enc(x):
    return x.encode('utf-8') if isinstance(x, str) else tuple(enc(y) for y in x)


def check(case):
    if case[0] == '!error':
        _, name, (s, q, e, m, st) = case
        try:
            r = list(split_quoted_strings(s, q, escape=e, multiline_quotes=m, state=st))
        except (TypeError, ValueError) as x:
            if type(x).__name__ == name:
                return None
            return f'split_quoted_strings{case[2]!r} raised {x!r}, expected {name}'
        return f'split_quoted_strings{case[2]!r} returned {r!r}, expected {name}'
    r = one(*case)
    if r is None and ''.join([case[0], case[2]] + list(case[1] + case[3])).isascii():
        r = one(*enc(case))
    return r


def one(s, q, e, m, st):
    how = f'split_quoted_strings({s!r}, {q!r}, escape={e!r}, multiline_quotes={m!r}, state={st!r})'
    want = scan(s, q, e, m, st)
    calls = [('', lambda: split_quoted_strings(s, q, escape=e, multiline_quotes=m, state=st))]
    calls.append((' with lists', lambda: split_quoted_strings(s, list(q), escape=e, multiline_quotes=set(m), state=st)))
    if not m and not st and set(q) == ({'"', "'"} if isinstance(s, str) else {b'"', b"'"}) and e in ('\\', b'\\'):
        calls.append((' by default', lambda: split_quoted_strings(s)))
    for name, f in calls:
        try:
            got = list(f())
        except SyntaxError:
            got = None
        if got is not None:
            bad = [t for t in got if not isinstance(t, tuple) or len(t) != 3]
            if bad:
                return f'{how}{name} yielded {bad[0]!r}'
            back = s[:0].join(x for t in got for x in t)
            if back != s:
                return f'{how}{name} yielded {got!r}, which joins to {back!r}'
        if got != want:
            return f'{how}{name} gave {"SyntaxError" if got is None else got!r}, expected {"SyntaxError" if want is None else want!r}'
    return None
