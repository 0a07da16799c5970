plant('split-longest-two', 'T01', [('big/text.py', '''    separators.sort(key=lambda o: -len(o))
''', '''    # long separators are rare, four lengths are enough to tell apart here
    separators.sort(key=lambda o: -min(len(o), 4))
''')], 'a separator of four or more characters given before a longer one that begins with it',
'the text is cut at the shorter separator although a longer one matches there', '''
import sys
from big.all import multisplit
for seps in (('1234', '12345'), ('aaaaa', 'aaaaaaa', 'b'), ('ab', 'abc'), ('abc', 'ab'), ('a', 'ab'), ('xy', 'a', 'xyz', 'xyzz')):
    for s in ('x12345y', 'aaaaaaab', '1abc2', '1xyzz2xyz3', 'abcab', 'aab'):
        out, i, buf = [], 0, ''
        while i < len(s):
            m = [x for x in seps if s.startswith(x, i)]
            if m:
                x = max(m, key=len)
                out += [buf, x]
                buf = ''
                i += len(x)
            else:
                buf += s[i]
                i += 1
        out.append(buf)
        got = list(multisplit(s, seps, keep='ALTERNATING', separate=True))
        if got != out:
            sys.exit('%r %r: %r' % (s, seps, got))
''')

plant('multistrip-only-separators', 'T05', [('big/text.py', '''            end = right_match.start(0)
            s = s[:end]
''', '''            end = right_match.start(0)
            if end or left or len(s) > 1 or s.isspace():
                s = s[:end]
''')], 'stripping only the right end of a text that is just one separator character',
'the text still ends with a separator', '''
import sys
from big.all import multistrip
for s in ('', ' ', '  ', 'a ', ' a', ' a ', 'a', '-'):
    if multistrip(s, (' ', '-'), left=False) != s.rstrip(' -'):
        sys.exit(repr(s))
    if multistrip(s, ' -', right=False) != s.lstrip(' -'):
        sys.exit(repr(s))
''')

plant('quoted-state-tail', 'T06', [('big/text.py', '''            if state:
                state = None
                quote = empty
            # print(f"    <<3 {quote=}, {text=}, empty")
''', '''            if state:
                state = None
                if len(buffer) == 1 or quote == state:
                    quote = empty
''')], 'a text that starts inside a quote, never leaves it and contains an escape or the other quote mark',
'an opening mark that is not in the text is reported', '''
import sys
from big.all import split_quoted_strings
for s in ('abc', 'a\\\\\\'b', 'a"b', '\\\\\\\\'):
    t = list(split_quoted_strings(s, state="'"))
    if ''.join(''.join(x) for x in t) != s:
        sys.exit('%r %r' % (s, t))
''')

plant('combine-three', 'T08', [('big/text.py', '''                    heap_push(split_lengths, splits)
''', '''                    if len(splits) > 1 and len(split_lengths) > 1 and splits[0] > 3:
                        split_lengths.append(splits)
                    else:
                        heap_push(split_lengths, splits)
''')], 'three or more splits in which one has a piece longer than another\'s next piece',
'the cuts are made in the wrong order', '''
import itertools, random, sys
from big.all import combine_splits
s = 'abcdefghijklmnopqrst'
rng = random.Random(1)
def cut(n):
    c = tuple(sorted(rng.sample(range(1, len(s)), n)))
    return [s[i:j] for i, j in zip((0,) + c, c + (len(s),))]
def points(p):
    return set(itertools.accumulate(map(len, p)))
for i in range(3000):
    splits = [cut(rng.randrange(1, 5)) for _ in range(rng.randrange(1, 6))]
    got = list(combine_splits(s, *map(list, splits)))
    if ''.join(got) != s or points(got) != set().union(*map(points, splits)):
        sys.exit('%r: %r' % (splits, got))
''')

plant('comment-quote-lost', 'L03', [('big/text.py', '''            for triplet in i:
                line_comment_segments.extend(triplet)
''', '''            for triplet in i:
                line_comment_segments.extend(triplet if triplet[0] not in multiline_quotes else triplet[:2])
''')], 'a comment that contains a multi-line quoted string', 'the line is cut behind the comment marker', '''
import sys
from big.all import lines, lines_strip_line_comments
for s, want in (('a # b', 'a '), ('a # "b"', 'a '), ("a # 'b' c", 'a '), ('"#" # x', '"#" '), ("'#' # 'y'", "'#' ")):
    for q in (dict(quotes=('"', "'")), dict(quotes=('"',), multiline_quotes=("'",)), dict(multiline_quotes=('"', "'"))):
        got = [l for i, l in lines_strip_line_comments(lines(s), '#', **q)]
        if got != [want]:
            sys.exit('%r %r' % (s, got))
''')

plant('indent-same-depth', 'L02', [('big/text.py', '''            assert leadings
            leadings.pop()
            indent -= 1
            while leadings:
''', '''            assert leadings
            leadings.pop()
            indent -= 1
            if len(leadings) > 2 and leadings[-2] == column_number:
                leadings.pop()
                continue_at = indent
                indent = continue_at
            while leadings:
''')], 'a line that goes back by two levels out of four or more',
'the indent number is one too high', '''
import sys
from big.all import lines, lines_strip_indent
for depths in ([0, 1, 2, 3, 2], [0, 1, 2, 3, 4, 2], [0, 1, 2, 3, 4, 5, 3], [0, 2, 4, 6, 8, 4, 6]):
    s = '\\n'.join(' ' * d + 'x' for d in depths)
    stack, want = [0], []
    for d in depths:
        while stack[-1] > d:
            stack.pop()
        if stack[-1] < d:
            stack.append(d)
        want.append(len(stack) - 1)
    got = [i.indent for i, l in lines_strip_indent(lines(s))]
    if got != want:
        sys.exit('%r: %r' % (depths, got))
''')

plant('wrap-two-spaces-over', 'W01', [('big/text.py', '''        if (l + len_space + col) > margin:
''', '''        if (l + col + 1) > margin:
''')], 'a word after the end of a sentence that fits with one space but not with two',
'the line is one column longer than the margin', '''
import sys
from big.all import wrap_words
for words in (['aa.', 'bb'], ['aa', 'bb'], ['a!', 'b?', 'c', 'dd.', 'e']):
    for margin in range(3, 14):
        r = wrap_words(words, margin)
        if r.split() != words or any(len(l) > margin and ' ' in l for l in r.splitlines()):
            sys.exit('%r %r %r' % (words, margin, r))
''')

plant('ordinal-teens-y', 'N01', [('big/text.py', '''        if strings[-1][-1] == 'y':
            s = strings.pop()
''', '''        if strings[-1][-1] == 'y' and len(strings) < 34:
            s = strings.pop()
''')], 'the ordinal of a large number that ends in a multiple of ten',
'the ordinal is not the ordinal form of the number', '''
import sys
from big.all import int_to_words
for n in (20, 120, 1020, 1120, 1001120, 1234567890, int('123' * 15 + '120'), int('111' * 21 + '090')):
    c, o = int_to_words(n), int_to_words(n, ordinal=True)
    if o != c[:-1] + 'ieth':
        sys.exit('%r %r' % (c, o))
''')

plant('normalize-strip-both', 'N02', [('big/text.py', '''        words = s.split()
        if s[:1].isspace():
''', '''        words = s.split()
        if len(words) == 1 and not replacement:
            return s.strip()
        if len(words) == 1 and s[0].isspace() and s[-1].isspace():
            words.append(empty)
            return words[0].join((replacement, replacement[::-1]))
        if s[:1].isspace():
''')], 'one word with white space at both ends and a replacement of several characters',
'the replacement is written backwards at the end', '''
import sys
from big.all import normalize_whitespace
for s in ('a', ' a', 'a ', ' a ', ' a b ', '\\ta\\n'):
    for r in ('', ' ', '-', '->', 'ab'):
        w = s.split()
        want = (r if s[0].isspace() else '') + r.join(w) + (r if s[-1].isspace() else '')
        if normalize_whitespace(s, replacement=r) != want:
            sys.exit('%r %r' % (s, r))
''')

plant('title-upper-mark', 'N03', [('big/text.py', '''            if not (is_apostrophe or is_double_quote):
                c = c.upper()
                state = _in_word
        elif state == _after_whitespace_then_D_or_O:
''', '''            if not (is_apostrophe or is_double_quote):
                c = c.upper()
                state = _after_whitespace_then_D_or_O if _is_d_or_o(c) and not is_apostrophe and c.isascii() else _in_word
        elif state == _after_whitespace_then_D_or_O:
''')], 'a word in quotes that begins with d or o followed by an apostrophe',
'a letter that does not start a word is upper-cased', '''
import sys
from big.all import gently_title
for s, want in (("o'neil", "O'Neil"), ("it's", "It's"), ('"hello', '"Hello'), ("('tis", "('Tis"), ("\\"do's", "\\"Do's")):
    if gently_title(s) != want:
        sys.exit('%r %r' % (s, gently_title(s)))
if gently_title("\\"o'neil") not in ("\\"O'neil",):
    sys.exit('quoted')
''')

plant('columns-join-gap', 'W02', [('big/text.py', '''            if last_overflow[1] >= (overflow_start - 1):
                overflows.pop()
                overflows.append((last_overflow[0], overflow_end))
                return
''', '''            if last_overflow[1] >= (overflow_start - 1) - overflow_before:
                overflows.pop()
                overflows.append((last_overflow[0], overflow_end))
                return
''')], 'two overflows with overflow_before rows between the rows held back for them',
'rows that need no room are held back', '''
import sys
from big.all import merge_columns, OverflowStrategy
wide, n = 'x' * 9, 'a'
a = '\\n'.join([wide, n, n, n, n, wide, n, n])
r = merge_columns((a, 4, 4), ('1\\n2\\n3\\n4\\n5\\n6', 2, 2), overflow_strategy=OverflowStrategy.INTRUDE_ALL, overflow_before=2, overflow_after=0)
rows = r.split('\\n')
want = [wide, n + '    1', n + '    2', n, n, wide, n + '    3', n + '    4']
if rows[:8] != want:
    sys.exit('%r' % rows)
''')
