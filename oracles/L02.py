import itertools
from big.all import lines, lines_strip_indent, lines_strip
from .lineslib import *

RULE = 'texts whose lines have every pattern of indentation columns up to a bound (spaces and tabs, blank lines included) against a reference stack; non-trivial: at least three different columns'
SECONDS = 10
# (lines as (leading, body), column_number, tab_width, line end)
ENDS = ['\n', '\r\n']


def enumerate_cases(tier):
    for n in range(1, 6):
        for cols in itertools.product(range(4) if n < 5 else range(3), repeat=n):
            yield (tuple((' ' * c, 'x') for c in cols), 1, 8, '\n')
    for n in range(1, 5):
        for cols in itertools.product([(' ', 'x'), ('', 'y '), ('\t', 'z'), ('    ', ''), ('', ''), ('    ', 'w')], repeat=n):
            yield (cols, 1, 4, '\n')
    for n in range(1, 4):
        for cols in itertools.product([(' \t', 'x'), ('\t', 'y\t'), ('  ', 'a b'), ('', ''), ('', 'q'), ('\t ', 'é')], repeat=n):
            for cn in (0, 1, 9):
                for tab in (8, 2):
                    yield (cols, cn, tab, '\r\n')


def random_case(rng):
    n = rng.randrange(1, 12)
    out = []
    cols = [0]
    for _ in range(n):
        m = rng.random()
        if m < .2:
            out.append((rng.choice(['', ' ', '\t ', '     ']), ''))
            continue
        if m < .5:
            cols.append(cols[-1] + rng.randrange(1, 5))
        elif m < .75:
            k = rng.randrange(len(cols))
            cols = cols[:k + 1]
        elif m < .8:
            cols.append(rng.randrange(9))
        c = cols[-1]
        out.append((render(rng, c), rng.choice(['x', 'ab ', 'q\t', 'x y'])))
    return (tuple(out), rng.choice([1, 1, 1, 0, 5]), rng.choice([8, 4, 4, 3]), rng.choice(ENDS))


def render(rng, c):
    if rng.random() < .6:
        return ' ' * c
    return ''.join(rng.choice([' ', '\t']) for _ in range(c))


def nontrivial(c):
    return len({l.expandtabs(c[2]) for l, b in c[0] if b}) > 2


def valid(c):
    return all(not l.strip(' \t') and b == b.lstrip() and '\n' not in b for l, b in c[0]) and c[3] in ENDS and c[2] > 0


def reference(ls, cn, tab):
    """[(indent, body)] per line, then whether an error ends it (error line index)"""
    stack = []
    out = []
    blanks = []
    for k, (l, b) in enumerate(ls):
        if not b:
            blanks.append(k)
            continue
        c = len(l.expandtabs(tab))
        while stack and stack[-1] > c:
            stack.pop()
        dedent_to = stack[-1] if stack else 0
        if c > dedent_to:
            prev = [len(x.expandtabs(tab)) for x, y in ls[:k] if y]
            if prev and prev[-1] > c:
                return out, k
            stack.append(c)
        level = len(stack)
        for i in blanks:
            out.append((i, level))
        blanks = []
        out.append((k, level))
    for i in blanks:
        out.append((i, 0))
    return out, None


def check(case):
    r = one(*case)
    if r is None and ascii_only(case[0]):
        ls, cn, tab, end = case
        r = one(tuple((enc(a), enc(b)) for a, b in ls), cn, tab, enc(end))
    return r


def one(ls, cn, tab, end):
    empty = end[:0]
    text = end.join(l + b for l, b in ls)
    how = f'lines_strip_indent of {text!r} (column_number={cn}, tab_width={tab})'
    want, bad = reference(ls, cn, tab)
    for name, wrap in (('', lambda x: x), (' after lines_strip', lines_strip)):
        got = []
        error = None
        try:
            for p in lines_strip_indent(wrap(lines(text, column_number=cn, tab_width=tab))):
                got.append(p)
        except IndentationError as e:
            error = e
        if name and name is not None:
            # everything is already stripped: only the columns count
            pass
        if (error is not None) != (bad is not None):
            return f'{how}{name} {"raised " + repr(error) if error else "did not raise IndentationError"}, expected {"an error at line " + str(bad) if bad is not None else "none"}'
        if len(got) != len(want):
            return f'{how}{name} yielded {len(got)} lines before the end, expected {len(want)}'
        for (info, line), (k, level) in zip(got, want):
            l, b = ls[k]
            body = b if not name else b.rstrip()
            if info.line_number != k + 1:
                return f'{how}{name} yielded line {info.line_number} in place of line {k + 1}'
            if line != body:
                return f'{how}{name} yielded {line!r} for line {k + 1}, expected {body!r}'
            if info.indent != level:
                return f'{how}{name} gave line {k + 1} the indent {info.indent}, expected {level}'
            if info.leading + line + info.trailing + info.end != info.line:
                return f'{how}{name} gave line {k + 1} as {info!r}'
            if b and info.leading != l:
                return f'{how}{name} gave line {k + 1} the leading text {info.leading!r}'
    return None
