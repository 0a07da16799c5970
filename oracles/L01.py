import itertools
from big.all import lines
from .lineslib import *

RULE = 'texts, separators, start numbers and chains of up to four filters and clips: reassembly, numbering and columns of every line; non-trivial: a filter trims something'
SECONDS = 12
# (text, separators, line_number, column_number, tab_width, filters)


def enumerate_cases(tier):
    for n in range(0, 6):
        for t in itertools.product('a \t\n' if n < 5 else 'a \n', repeat=n):
            for fs in ((), (('strip',),), (('rstrip',),), (('strip', (' ',)), ('strip',)), (('clip', (('l', 1), ('r', 1))),), (('clip', (('l', 1), ('l', 1), ('l', 9))),)):
                yield (''.join(t), None, 1, 1, 8, fs)
    for t in ('', 'a', 'a\n', '\n', 'a\r\nb', 'a\n\rb\x0bc\x85d\u2028e', 'x--y-z--', '\r\r\n\n', ' \ta\t \n\t\t\n  b'):
        for seps in (None, ('-', '--'), ('\r', '\n')):
            for ln in (1, 0, 7, -2):
                for cn in (1, 0, 5):
                    for tab in (8, 4, 1):
                        for fs in ((), (('strip',),), (('clip', (('L', 2), ('l', 1), ('R', 1))),)):
                            yield (t, seps, ln, cn, tab, fs)


def random_case(rng):
    br = rng.choice([['\n'], ['\n', '\r\n', '\r'], STR_BREAKS])
    text = ''.join(rline(rng) + rng.choice(br) for _ in range(rng.randrange(6)))
    if rng.random() < .3 and text:
        text = text[:-1]
    seps = rng.choice([None, None, None, ('a',), ('\n', 'ab'), ('-', '\n', '\n\n'), (' ', '  ')])
    return (text, seps, rng.choice([1, 1, 0, 10]), rng.choice([1, 1, 0, 4]), rng.choice([8, 8, 4, 3]), tuple(rfilter(rng) for _ in range(rng.randrange(5))))


def nontrivial(c):
    return any(f[0] in ('strip', 'rstrip', 'indent', 'comments', 'clip') for f in c[5]) and (' ' in c[0] or '#' in c[0])


def valid(c):
    return isinstance(c[0], str) and (c[1] is None or all(c[1])) and c[4] > 0 and all(f[0] != 'clip' or all(n >= 0 for _, n in f[1]) for f in c[5]) and all(
        f[0] not in ('strip', 'rstrip') or len(f) < 2 or all(f[1]) for f in c[5])


def check(case):
    r = one(*case)
    if r is None and ascii_only(case[:2]) and ascii_only(case[5]) and (case[1] is not None or not any(ch in case[0] for ch in '\x0b\x0c\x1c\x1d\x1e')):
        r = one(*enc(case[:5]), tuple(map(encf, case[5])))
    return r


def one(t, seps, ln, cn, tab, filters):
    how = f'lines({t!r}, {seps!r}, line_number={ln}, column_number={cn}, tab_width={tab})'
    kw = dict(line_number=ln, column_number=cn, tab_width=tab)
    want = split(t, seps)
    sources = [('', lambda: lines(t, seps, **kw))]
    if seps is None and (ln, cn, tab) == (1, 1, 8):
        sources.append((' by default', lambda: lines(t)))
    sources.append((' of pairs', lambda: lines(list(want), **kw)))
    for name, src in sources:
        got = list(src())
        if len(got) != len(want):
            return f'{how}{name} yielded {len(got)} lines, expected {want!r}'
        joined = t[:0].join(i.line for i, _ in got)
        if joined != t:
            return f'{how}{name} yielded lines that join to {joined!r}'
        for k, ((i, l), (wl, we)) in enumerate(zip(got, want)):
            if (l, i.line, i.end, i.line_number, i.column_number, i.leading, i.trailing, i.indent, i.match) != (wl, wl + we, we, ln + k, cn, t[:0], t[:0], 0, None):
                return f'{how}{name} yielded {(i, l)!r} as line {k}, expected {wl!r} with end {we!r}'
    if filters:
        for name, src in sources[:1] + sources[-1:]:
            it = src()
            for f in filters:
                it = apply(it, f)
            try:
                got = list(it)
            except (IndentationError, SyntaxError):
                continue
            for i, l in got:
                k = i.line_number - ln
                desc = f'{how}{name} through {filters!r} yielded {(i, l)!r}: '
                if not 0 <= k < len(want) or i.line != want[k][0] + want[k][1] or i.end != want[k][1]:
                    return desc + 'not one of the lines'
                back = i.leading + l + i.trailing + i.end
                if back != i.line:
                    return desc + f'leading + line + trailing + end is {back!r}'
                col = cn + len(i.leading.expandtabs(tab))
                if i.column_number != col:
                    return desc + f'the column is {col}'
            nums = [i.line_number for i, _ in got]
            if len(set(nums)) != len(nums) or (not any(f[0] == 'sort' for f in filters) and nums != sorted(nums)):
                return f'{how}{name} through {filters!r} yielded the lines {nums}'
            if all(f[0] == 'clip' for f in filters):
                for (i, l), (wl, we) in zip(got, want):
                    a, b = expect_clip(wl, [m for f in filters for m in f[1]])
                    if (l, i.leading, i.trailing) != (wl[a:b], wl[:a], wl[b:]):
                        return f'{how}{name} through {filters!r}: {wl!r} became {i.leading!r}, {l!r}, {i.trailing!r}, expected {wl[:a]!r}, {wl[a:b]!r}, {wl[b:]!r}'
    return None


def expect_clip(line, moves):
    a, b = 0, len(line)
    for side, n in moves:
        n = min(n, b - a)
        if side in 'lL':
            a += n
        else:
            b -= n
        if a == b:
            a = b = 0
    return a, b
