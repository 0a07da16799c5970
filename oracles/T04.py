import itertools
import re
from big.all import re_partition, re_rpartition, reversed_re_finditer

RULE = 'patterns without look-around and anchors, texts over a small alphabet, counts and directions against a reference that tries every start; non-trivial: the pattern matches at least twice and matches overlap or the count is not 1'
SECONDS = 12
PATS = ['a', 'ab', 'aa', 'aba', 'a+', 'a*', 'b*', 'a?b', '[ab]', '[ab]+', 'a|ab', 'ab|a', 'ab|ba', 'aba|b', 'a.', '.', '..', '...', '(a)(b)?', '(a|b)c', 'a{2}', 'a{1,2}', 'a+?', 'ab*?', 'b?', '(?:ab)+',
        'x', 'aab|b', 'b+a', 'a*b', '(?i:A)b', 'a?', '.a.', '(?P<q>a)(?P=q)', '\\w', '\\W', '\\.', '.b|a', '', '(ab)?', 'a.*b', 'a.*?b', 'abc|bc|c', 'c|bc|abc', 'abcd|bc|cde']


def reference(p, s):
    limit = len(s)
    seen = set()
    while True:
        best = None
        for st in range(limit + 1):
            m = p.match(s, st, limit)
            if m and m.span() not in seen:
                k = (m.end(), -st)
                if best is None or k > best[0]:
                    best = (k, m)
        if best is None:
            return
        m = best[1]
        seen.add(m.span())
        limit = m.start()
        yield m


def enumerate_cases(tier):
    for pat in PATS:
        for n in range(6):
            for t in itertools.product('ab' if n == 5 else 'abc', repeat=n):
                yield (''.join(t), pat, 0, (0, 1, 2, 3))
    for t in ('a.b.c', 'A.a', 'aXbxA', 'x\ny', 'a.ba.ca.d', '0a1aa2', 'aaaaaaa', 'abcdeabcde', '.*a.*', 'a' * 9 + 'b'):
        for pat in PATS:
            for flags in (0, int(re.I)):
                yield (t, pat, flags, (0, 1, 2, 5))
    yield ('aab', 'a', 0, (-1, -7))


def random_case(rng):
    return (''.join(rng.choice('aabbc.A') for _ in range(rng.randrange(11))), rng.choice(PATS) if rng.random() < .6 else rpat(rng), rng.choice([0, 0, int(re.I)]), (rng.randrange(7), rng.choice([1, 2])))


def rpat(rng):
    def one():
        m = rng.random()
        if m < .6:
            return rng.choice('abc.')
        if m < .75:
            return rng.choice('ab') + rng.choice('+*?')
        return '(?:' + rng.choice('ab') + '|' + rng.choice(['ab', 'ba', 'b', 'bc', 'aa']) + ')'
    return '|'.join(''.join(one() for _ in range(rng.randrange(1, 4))) for _ in range(rng.choice([1, 1, 2, 3])))


def nontrivial(c):
    return len(re.findall(c[1], c[0])) > 1 and c[3] != (1,)


def valid(c):
    try:
        re.compile(c[1])
    except re.error:
        return False
    return all(isinstance(x, int) for x in c[3]) and '$' not in c[1] and '(?=' not in c[1]


def show(r):
    return tuple(x if x is None or isinstance(x, (str, bytes)) else ('match', x.span(), x.group(0)) for x in r)


def check(case):
    t, pat, flags, counts = case
    for s, pt in ((t, pat), (t.encode(), pat.encode())):
        p = re.compile(pt, flags)
        for given, kw in ((pt, dict(flags=flags)), (p, {})):
            r = one(s, given, kw, p, counts)
            if r:
                return r
    return None


def one(s, given, kw, p, counts):
    empty = s[:0]
    fwd = [(m.span(), m.groups()) for m in p.finditer(s)]
    if len({sp[0] for sp, _ in fwd}) < len(fwd):
        return None       # an empty match and a second match at the same start: no definition in reverse
    back = [(m.span(), m.groups()) for m in reference(p, s)]
    got = list(reversed_re_finditer(given, s, **kw))
    for m in got:
        if m.re != p or m.string != s:
            return f'reversed_re_finditer({given!r}, {s!r}) yielded {m!r}, not a match of the pattern in the text'
    if [(m.span(), m.groups()) for m in got] != back:
        return f'reversed_re_finditer({given!r}, {s!r}) yielded spans {[m.span() for m in got]}, expected {[x for x, _ in back]}'
    for count in counts:
        for rev in (False, True):
            calls = [('re_partition', lambda: re_partition(s, given, count, reverse=rev, **kw))]
            if rev:
                calls.append(('re_rpartition', lambda: re_rpartition(s, given, count, **kw)))
                if count == 1:
                    calls.append(('re_rpartition default', lambda: re_rpartition(s, given, **kw)))
            elif count == 1:
                calls.append(('re_partition default', lambda: re_partition(s, given, **kw)))
            for name, f in calls:
                how = f'{name}({s!r}, {given!r}, {count}, reverse={rev}, {kw})'
                if count < 0:
                    try:
                        r = f()
                    except ValueError:
                        continue
                    return f'{how} returned {show(r)!r}, expected ValueError'
                r = f()
                ms = (back if rev else fwd)[:count]
                want = []
                if rev:
                    end = len(s)
                    for (b, e), g in ms:
                        want += [s[e:end], ('match', (b, e), s[b:e])]
                        end = b
                    want.append(s[:end])
                    want = want[::-1]
                    want = [empty, None] * (count - len(ms)) + want
                else:
                    at = 0
                    for (b, e), g in ms:
                        want += [s[at:b], ('match', (b, e), s[b:e])]
                        at = e
                    want.append(s[at:])
                    want = want + [None, empty] * (count - len(ms))
                if not isinstance(r, tuple) or show(r) != tuple(want):
                    return f'{how} returned {show(r)!r}, expected {tuple(want)!r}'
                for m, (sp, g) in zip([x for x in (r[::-1] if rev else r) if hasattr(x, 'span')], ms):
                    if m.groups() != g:
                        return f'{how}: the match at {sp} has groups {m.groups()!r}, expected {g!r}'
    return None
