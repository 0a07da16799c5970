import itertools
from big.all import merge_columns, OverflowStrategy

RULE = 'columns of short and over-long lines for every overflow strategy and margins around overflows, against a row-by-row reference, and reading the columns back; non-trivial: at least two columns and an overflow or different heights'
SECONDS = 12
S = {'raise': OverflowStrategy.RAISE, 'intrude': OverflowStrategy.INTRUDE_ALL, 'delay': OverflowStrategy.DELAY_ALL}
# (columns (text, min, max), separator or None, strategy, before, after)


def enumerate_cases(tier):
    texts = ['', 'a', 'a\nb', 'abcd', 'abcd\nb', 'a\nabcd\nb', 'a\n\nb', 'abcd\na\nb\nabcd', '\na', 'a \nb  ', 'a\nb\nc\nabcdef']
    for a in texts:
        for b in ('x\ny\nz', 'x', 'xyzxyz\ny\nz', '\n\nx'):
            for st in S:
                for before in (0, 1):
                    for after in (0, 1, 2):
                        yield (((a, 1, 3), (b, 2, 4)), None, st, before, after)
        for st in S:
            yield (((a, 1, 3),), None, st, 0, 0)
            yield (((a, 1, 3), ('p\nq', 1, 2), ('x\ny\nz', 1, 1)), ' | ', st, 0, 0)
            yield (((a, 1, 3), ('p\npqrs\nq', 1, 2), (a, 1, 2), ('1\n2\n3', 1, 1)), '', st, 1, 1)


def rcol(rng):
    w = rng.randrange(1, 6)
    t = '\n'.join(''.join(rng.choice(['a', 'b', ' ', 'cd', 'é']) for _ in range(rng.randrange(0, 4 if rng.random() < .7 else 7))) for _ in range(rng.randrange(1, 9)))
    if rng.random() < .2:
        t = tuple(t.split('\n'))
    return (t, rng.randrange(0, w + 1), w)


def random_case(rng):
    return (tuple(rcol(rng) for _ in range(rng.randrange(1, 5))), rng.choice([None, None, ' ', ' | ', '', '--']), rng.choice(['raise', 'intrude', 'intrude', 'delay', 'delay']), rng.choice([0, 0, 1, 2, 3]), rng.choice([0, 0, 1, 2, 3]))


def nontrivial(c):
    return len(c[0]) > 1


def valid(c):
    return len(c[0]) > 0 and all(w >= 0 and (isinstance(t, str) or '\n' not in ''.join(t)) for t, m, w in c[0]) and c[3] >= 0 and c[4] >= 0


def enc(x):
    return x.encode('ascii') if isinstance(x, str) else tuple(enc(y) for y in x) if isinstance(x, tuple) else x


def check(case):
    r = one(*case)
    if r is None and all((t if isinstance(t, str) else ''.join(t)).isascii() for t, _, _ in case[0]):
        cols, sep, st, b, a = case
        r = one(enc(cols), enc(sep), st, b, a)
    return r


def one(cols, sep, st, before, after):
    how = f'merge_columns(*{cols!r}, column_separator={sep!r}, {st}, overflow_before={before}, overflow_after={after})'
    by = isinstance(cols[0][0], bytes) or isinstance(cols[0][0], tuple) and len(cols[0][0]) and isinstance(cols[0][0][0], bytes)
    if by and not isinstance(cols[0][0], bytes):
        return None      # only a text in the first column tells the type
    empty, sp, nl = (b'', b' ', b'\n') if by else ('', ' ', '\n')
    s = sp if sep is None else sep
    kw = dict(overflow_strategy=S[st], overflow_before=before, overflow_after=after)
    if sep is not None:
        kw['column_separator'] = sep
    given = [(list(t) if isinstance(t, tuple) else t, m, w) for t, m, w in cols]
    lines, hold = [], []
    too_long = False
    for t, m, w in cols:
        ls = [x.rstrip() for x in (t.rstrip().split(nl) if not isinstance(t, tuple) else t)]
        over = [i for i, x in enumerate(ls) if len(x) > w]
        too_long = too_long or bool(over)
        if st == 'delay' and over:
            h = [i <= over[-1] + after for i in range(len(ls))]
        else:
            h = [any(o - before <= i <= o + after for o in over) for i in range(len(ls))]
        lines.append(ls)
        hold.append(h)
    if st == 'raise' and too_long:
        try:
            r = merge_columns(*given, **kw)
        except OverflowError:
            return None
        return f'{how} returned {r!r}, expected OverflowError'
    at = [0] * len(cols)
    rows = []
    seen = [[] for _ in cols]
    while any(at[c] < len(lines[c]) for c in range(len(cols))):
        row = empty
        for c, (_, _, w) in enumerate(cols):
            if c:
                row += s
            if at[c] < len(lines[c]):
                x, h = lines[c][at[c]], hold[c][at[c]]
                at[c] += 1
                seen[c].append((len(rows), len(row), x))
                row += x
                if h:
                    break
                row += sp * (w - len(x))
            else:
                row += sp * w
        rows.append(row.rstrip())
    want = nl.join(rows).rstrip()
    got = merge_columns(*given, **kw)
    if got != want:
        return f'{how} returned {got!r}, expected {want!r}'
    out = got.split(nl)
    for c, items in enumerate(seen):
        for r, p, x in items:
            row = out[r] if r < len(out) else empty
            if row[p:p + len(x)] != x and x.strip():
                return f'{how}: {x!r} of column {c} is not at row {r}, position {p} of {got!r}'
    if st == 'raise' and not before and not after and merge_columns(*given, **{k: v for k, v in kw.items() if k == 'column_separator'}) != got:
        return f'{how} differs from the defaults'
    return None
