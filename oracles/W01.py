import itertools
from big.all import wrap_words, split_text_with_code

RULE = 'word lists with markers, margins and the two-spaces option against greedy filling, and texts of text and code lines against a line-based reference; non-trivial: something is wrapped or contains a marker'
SECONDS = 12
PUNCT = ('.', '?', '!')
# ('wrap', words, margin, two_spaces) | ('split', text, tab_width, allow_code, code_indent, convert)


def enumerate_cases(tier):
    for n in range(1, 5):
        for ws in itertools.product(['a', 'bb', 'c.', '\n'] if n > 3 else ['a', 'bb', 'ccc', 'd.', '\n', '\n\n', 'e!?'], repeat=n):
            for margin in (1, 3, 4, 5, 6, 9):
                for two in (True, False):
                    yield ('wrap', ws, margin, two)
    for n in range(1, 6):
        for ls in itertools.product(['x y', '    c', '', '  z.'] if n > 3 else ['x y', '    c  d', '', ' ', '\te', '   f ', '     '], repeat=n):
            yield ('split', '\n'.join(ls), 8, True, 4, True)
            if n < 3:
                for tab in (8, 2, 4):
                    for allow in (True, False):
                        for ind in (4, 2, 9):
                            for conv in (True, False):
                                yield ('split', '\n'.join(ls), tab, allow, ind, conv)
                                yield ('split', '\n'.join(ls) + '\n', tab, allow, ind, conv)


def random_case(rng):
    if rng.random() < .5:
        ws = tuple(rng.choice(['\n', '\n\n']) if rng.random() < .15 else ''.join(rng.choice('abé') for _ in range(rng.randrange(1, 8))) + rng.choice(['', '', '', '.', '?', '!', ',', '.)']) for _ in range(rng.randrange(1, 14)))
        if rng.random() < .3:
            ws = ws + ('    code line',) + tuple(rng.choice(['\n', 'w', 'vv.']) for _ in range(3))
        return ('wrap', ws, rng.choice([1, 5, 8, 9, 10, 11, 12, 20, 79]), rng.random() < .6)
    ls = []
    for _ in range(rng.randrange(1, 9)):
        m = rng.random()
        body = rng.choice([' ', '  ', '\t']).join(rng.choice(['a', 'bc', 'd.', 'x=1']) for _ in range(rng.randrange(1, 4))) + rng.choice(['', '', ' ', '\t'])
        if m < .3:
            ls.append(rng.choice(['', '', ' ', '\t', '      ']))
        elif m < .6:
            ls.append(rng.choice(['    ', '\t', '      ', '  \t', '        ', '   \t ']) + body)
        else:
            ls.append(rng.choice(['', '', ' ', '   ']) + body)
    return ('split', '\n'.join(ls) + rng.choice(['', '\n']), rng.choice([8, 8, 4, 3]), rng.random() < .85, rng.choice([4, 4, 2, 8]), rng.random() < .6)


def nontrivial(c):
    return len(c[1]) > 2 if c[0] == 'wrap' else '\n' in c[1]


def valid(c):
    if c[0] == 'wrap':
        return len(c[1]) > 0 and all(w and (not w.isspace() or not w.strip('\n')) for w in c[1]) and c[2] > 0
    return all(ch.isprintable() or ch in '\t\n' for ch in c[1]) and c[2] > 0 and c[4] > 0


def check(case):
    f = wrap if case[0] == 'wrap' else split
    r = f(*case[1:])
    if r is None and ''.join(case[1]).isascii():
        x = case[1]
        r = f(x.encode() if isinstance(x, str) else tuple(w.encode() for w in x), *case[2:])
    return r


def wrap(words, margin, two):
    how = f'wrap_words({words!r}, {margin}, two_spaces={two})'
    b = isinstance(words[0], bytes)
    sp, nl = (b' ', b'\n') if b else (' ', '\n')
    empty = sp[:0]
    punct = tuple(p.encode() for p in PUNCT) if b else PUNCT
    out = empty
    line = 0           # length of the current line
    last = None        # last word on the current line
    for w in words:
        if w.isspace():
            out += w
            line = 0
            last = None
            continue
        if last is None:
            out += w
            line = len(w)
        else:
            n = 2 if two and last.endswith(punct) else 1
            if line + n + len(w) > margin:
                out += nl + w
                line = len(w)
            else:
                out += sp * n + w
                line += n + len(w)
        last = w
    calls = [('', lambda: wrap_words(list(words), margin, two_spaces=two)), (' from an iterator', lambda: wrap_words(iter(words), margin, two_spaces=two))]
    if two:
        calls.append((' by default', lambda: wrap_words(words, margin)))
    if margin == 79 and two:
        calls.append((' with no margin', lambda: wrap_words(words)))
    for name, f in calls:
        got = f()
        if got != out:
            return f'{how}{name} returned {got!r}, expected {out!r}'
    # the definition of the property itself
    for ln in out.split(nl):
        if len(ln) > margin and ln not in words:
            return f'reference broken for {how}'
    return None


def split(text, tab, allow, ind, conv):
    how = f'split_text_with_code({text!r}, tab_width={tab}, allow_code={allow}, code_indent={ind}, convert_tabs_to_spaces={conv})'
    b = isinstance(text, bytes)
    nl, para = (b'\n', b'\n\n') if b else ('\n', '\n\n')
    ws = b' \t' if b else ' \t'
    out = []
    prev = None          # kind of the last paragraph
    gap = 0              # blank lines since it (in lines)
    for ln in text.split(nl):
        body = ln.strip(ws)
        if not body:
            gap += 1
            continue
        lead = ln[:len(ln) - len(ln.lstrip(ws))]
        code = allow and len(lead.expandtabs(tab)) >= ind
        if prev == 'code' and code:
            out += [nl] * (gap + 1)
        elif prev is not None and (prev != ('code' if code else 'text') or gap):
            out.append(para)
        if code:
            ln = ln.rstrip(ws)
            out.append(ln.expandtabs(tab) if conv else ln)
        else:
            out += body.split()
        prev = 'code' if code else 'text'
        gap = 0
    if not out:
        out = [text[:0]]
    calls = [('', lambda: split_text_with_code(text, tab_width=tab, allow_code=allow, code_indent=ind, convert_tabs_to_spaces=conv))]
    if (tab, allow, ind, conv) == (8, True, 4, True):
        calls.append((' by default', lambda: split_text_with_code(text)))
    for name, f in calls:
        got = f()
        if got != out:
            return f'{how}{name} returned {got!r}, expected {out!r}'
    return None
