import itertools
from big.all import split_delimiters, Delimiter

RULE = 'texts over opening and closing marks, escapes and line breaks for several delimiter sets and initial states against a reference scanner with a stack; non-trivial: the text nests or uses an escape'
SECONDS = 12
# open -> (close, escape, multiline, quoting)
P = lambda c: (c, '', True, False)
Q = lambda c, e='\\', m=False: (c, e, m, True)
DEFAULT = (('(', P(')')), ('[', P(']')), ('{', P('}')), ("'", Q("'")), ('"', Q('"')))
CONF = [DEFAULT, (('(', P(')')), ('"', Q('"', '\\', True))), (('<', P('>')), ('<<', P('>>'))), (('begin', P('end')), ('"""', Q('"""', '\\', True)), ('"', Q('"'))),
        (('/*', Q('*/', '^', True)), ('(', P(')'))), (('a', P('b')), ('ab', P('c'))), (('(', P(')')), ("'", Q("'", "#"))), (('[', P(']')), ('[[', P(']]')), ('`', Q('`', '\\', True))),
        (('"', Q('"', '%%', True)),), (('x', Q('y', 'z')),), (('<', P('>')), ('<!', Q('!>', '!!')),), (('(', P(')')), ('|(', P(')|')))]
STR_NL = tuple('\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029')
BYTES_NL = (b'\n', b'\r')


def reference(s, delims, state):
    """list of triples, None for SyntaxError; raises LookupError for a bad initial state"""
    empty = s[:0]
    d = dict(delims)
    nls = BYTES_NL if isinstance(s, bytes) else STR_NL
    tokens = set(d)
    single = False
    for c, e, m, q in d.values():
        tokens.add(c)
        if e:
            tokens.add(e)
        single = single or not m
    stack = []
    for o in state:
        if stack and d[stack[-1]][3] or o not in d:
            raise LookupError
        stack.append(o)
    out = []
    buf = empty
    i = 0
    while i < len(s):
        top = d[stack[-1]] if stack else None
        if top and top[3]:
            c, e, m, _ = top
            t = max((x for x in (c, e) if s.startswith(x, i)), key=len, default=None)
            if t is None:
                ch = s[i:i + 1]
                if not m and ch in nls:
                    return None
                buf += ch
                i += 1
            elif t == c:
                out.append((buf, empty, c))
                buf = empty
                stack.pop()
                i += len(c)
            else:
                i += len(t)
                if i >= len(s):
                    return None
                buf += t + s[i:i + 1]
                i += 1
            continue
        t = max((x for x in tokens if s.startswith(x, i)), key=len, default=None)
        if t is None:
            buf += s[i:i + 1]
            i += 1
        elif t in d:
            out.append((buf, t, empty))
            buf = empty
            stack.append(t)
            i += len(t)
        elif top and t.startswith(top[0]):
            out.append((buf, empty, top[0]))
            buf = empty
            stack.pop()
            i += len(top[0])
        else:
            return None
    if buf:
        out.append((buf, empty, empty))
    return out


def enumerate_cases(tier):
    for c in CONF:
        toks = sorted({x for o, v in c for x in (o, v[0], v[1]) if x})
        if len(toks) > 5:
            toks = [o for o, _ in c][:2] + [c[0][1][0], c[-1][1][0]] + ['\\']
        toks = list(dict.fromkeys(toks + ['z']))
        for n in range(5 if len(toks) < 6 else 4):
            for t in itertools.product(toks, repeat=n):
                yield (''.join(t), c, ())
        for st in [(o,) for o, _ in c] + [(o, p) for o, _ in c for p, _ in c]:
            for t in itertools.product(toks + ['\n'], repeat=2):
                yield (''.join(t), c, st)
    for nl in '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029':
        for t in ('"a%sb"', '(a%sb)', '%s', '"\\%s"', "(['%s'])"):
            yield (t % nl, DEFAULT, ())
            yield (t % nl, CONF[1], ())
    yield ('"\\\r\nx"', DEFAULT, ())
    for st in (('(', ')'), ('x',), ("'", '('), ('\\',), ('(', '(', ']')):
        yield ('a)', DEFAULT, st)


def random_case(rng):
    if rng.random() < .7:
        c = rng.choice(CONF)
    else:
        opens = rng.sample(['(', '[', '{', '<', 'a', 'ab', '((', '"', "'", '"""', '<<', '-', '/*'], rng.randrange(1, 5))
        close = {'(': ')', '[': ']', '{': '}', '<': '>', 'a': 'c', 'ab': 'cd', '((': '))', '<<': '>>', '-': '+', '/*': '*/'}
        c = tuple((o, P(close[o]) if o in close and rng.random() < .7 else Q(close.get(o, o), rng.choice(['\\', '^', '%', '!!']), rng.random() < .5)) for o in opens)
    toks = [x for o, v in c for x in (o, o, v[0], v[0], v[1], v[1] + v[0]) if x] + ['z', ' y'] + (['\n', '\r'] if rng.random() < .3 else [])
    st = tuple(rng.choice(c)[0] for _ in range(rng.choice([0, 0, 0, 0, 1, 2])))
    if rng.random() < .6:
        return (balanced(rng, c, toks), c, st)
    return (''.join(rng.choice(toks) for _ in range(rng.randrange(12))), c, st)


def balanced(rng, c, toks):
    """a text that mostly nests properly"""
    d = dict(c)
    stack, out = [], []
    for _ in range(rng.randrange(14)):
        m = rng.random()
        if stack and m < .35:
            out.append(d[stack.pop()][0])
        elif stack and d[stack[-1]][3]:
            out.append(rng.choice(toks))
        elif m < .75:
            o = rng.choice(c)[0]
            out.append(o)
            stack.append(o)
        else:
            out.append(rng.choice(['z', 'w ', 'q', rng.choice(toks)]))
    return ''.join(out)


def nontrivial(c):
    s, d, st = c
    return len(st) > 0 or sum(s.count(o) for o, _ in d) > 1


def valid(c):
    s, d, st = c
    opens = [o for o, _ in d]
    nested = {v[0] for _, v in d if not v[3]}
    if not isinstance(s, str) or not d or len(set(opens)) < len(opens) or set(opens) & nested or '\\' in opens:
        return False
    for o, (cl, e, m, q) in d:
        if not o or not cl or bool(e) != q or not (m or q) or cl == '\\':
            return False
        if e and (e.startswith(cl) or cl.startswith(e)):
            return False
        if any(ch in o + cl + e for ch in STR_NL):
            return False
    return True


def enc(x):
    return x.encode('latin-1') if isinstance(x, str) else tuple(enc(y) for y in x) if isinstance(x, tuple) else x


def check(case):
    r = one(*case)
    if r is None and all(ord(ch) < 128 and ch not in '\x0b\x0c\x1c\x1d\x1e' for ch in case[0]):
        r = one(*enc(case))
    return r


def run(f):
    try:
        return list(f())
    except SyntaxError:
        return None


def one(s, c, st):
    how = f'split_delimiters({s!r}, {dict(c)!r}, state={st!r})'
    d = {o: Delimiter(cl, escape=e, multiline=m, quoting=q) for o, (cl, e, m, q) in c}
    try:
        want = reference(s, c, st)
    except LookupError:
        try:
            r = split_delimiters(s, d, state=st)
        except ValueError:
            return None
        return f'{how} returned {list(r)!r}, expected ValueError for the state'
    calls = [('', lambda: split_delimiters(s, d, state=list(st)))]
    calls.append((' with the delimiters in another order', lambda: split_delimiters(s, dict(reversed(list(d.items()))), state=st)))
    if c == DEFAULT or c == enc(DEFAULT):
        calls += [(' with None', lambda: split_delimiters(s, None, state=st)), (' by default', lambda: split_delimiters(s, state=st))]
        if all(len(x) == 1 for x in st) and not isinstance(s, bytes):
            calls.append((' with a joined state', lambda: split_delimiters(s, state=s[:0].join(st))))
    elif not st:
        calls.append((' without state', lambda: split_delimiters(s, d)))
    for name, f in calls:
        got = run(f)
        if got is not None:
            bad = [t for t in got if not isinstance(t, tuple) or len(t) != 3]
            if bad:
                return f'{how}{name} yielded {bad[0]!r}'
            back = s[:0].join(x for t in got for x in t)
            if back != s:
                return f'{how}{name} yielded {got!r}, which joins to {back!r}'
        if got != want:
            return f'{how}{name} gave {"SyntaxError" if got is None else got!r}, expected {"SyntaxError" if want is None else want!r}'
    if st and want is not None:
        whole = run(lambda: split_delimiters(s[:0].join(st) + s, d))
        head = [(s[:0], o, s[:0]) for o in st]
        if whole is not None and whole[:len(st)] == head and whole[len(st):] != want:
            return f'{how} gave {want!r}, but the text with the opening marks first ends in {whole[len(st):]!r}'
    return None
