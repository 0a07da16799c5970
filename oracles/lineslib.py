"""building and applying chains of line filters"""
import re
import big.all as big
from .textlib import STR_WS, BYTES_WS, scan

STR_BREAKS = ['\n', '\r', '\x0b', '\x0c', '\x1c', '\x1d', '\x1e', '\x85', '\u2028', '\u2029', '\r\n']
BYTES_BREAKS = [b'\n', b'\r', b'\r\n']


def split(s, seps):
    if seps is None:
        seps = STR_BREAKS if isinstance(s, str) else BYTES_BREAKS
    pieces, delims = scan(s, seps, -1, True, False)
    return list(zip(pieces, delims + [s[:0]]))


def apply(it, f):
    k, *a = f
    if k == 'strip':
        return big.lines_strip(it, *a)
    if k == 'rstrip':
        return big.lines_rstrip(it, *a)
    if k == 'indent':
        return big.lines_strip_indent(it)
    if k == 'comments':
        return big.lines_strip_line_comments(it, a[0], quotes=a[1], multiline_quotes=a[2], escape=a[3])
    if k == 'nocomments':
        return big.lines_filter_line_comment_lines(it, a[0])
    if k == 'containing':
        return big.lines_containing(it, a[0], invert=a[1])
    if k == 'grep':
        return big.lines_grep(it, a[0], invert=a[1])
    if k == 'sort':
        return big.lines_sort(it, reverse=a[0])
    if k == 'empty':
        return big.lines_filter_empty_lines(it)
    if k == 'clip':
        return clipped(it, a[0])
    raise ValueError(k)


def clipped(it, moves):
    for n, (info, line) in enumerate(it):
        for side, count in moves:
            c = min(count, len(line))
            if side == 'l':
                line = info.clip_leading(line, c)
            elif side == 'L':
                line = info.clip_leading(line, line[:c])
            elif side == 'r':
                line = info.clip_trailing(line, c)
            else:
                line = info.clip_trailing(line, line[len(line) - c:])
        yield info, line


def enc(x):
    if isinstance(x, str):
        return x.encode('ascii')
    if isinstance(x, (tuple, list)):
        return type(x)(enc(y) for y in x)
    return x


def encf(f):
    if f[0] == 'clip':
        return f
    return (f[0],) + tuple(enc(y) for y in f[1:])


def ascii_only(x):
    if isinstance(x, str):
        return x.isascii()
    if isinstance(x, (tuple, list)):
        return all(map(ascii_only, x))
    return True


def rfilter(rng):
    return rng.choice([('strip',), ('strip',), ('rstrip',), ('rstrip',), ('strip', (' ',)), ('strip', ('a', ' ')), ('strip', ('\t', 'ab', 'b')), ('rstrip', ('b', 'ab')), ('rstrip', (' ', '\t')),
                       ('indent',), ('indent',), ('comments', ('#',), (), (), '\\'), ('comments', ('#', '//'), ('"', "'"), (), '\\'), ('comments', ('//',), ("'",), ('"',), '\\'), ('nocomments', ('#',)), ('nocomments', ('#', '//')),
                       ('containing', 'a', False), ('containing', 'a', True), ('grep', 'b+', False), ('grep', '^\\s', True), ('sort', False), ('sort', True), ('empty',),
                       ('clip', (('l', rng.randrange(4)), ('r', rng.randrange(3)))), ('clip', (('R', rng.randrange(4)), ('L', rng.randrange(3)), ('l', rng.randrange(3)))), ('clip', (('l', 1), ('L', 1)))])


def rline(rng):
    return ''.join(rng.choice([' ', ' ', '\t', 'a', 'b', 'ab', 'x', '#', '//', '  ', '"', "'"] if rng.random() < .5 else [' ', '\t', 'a', 'b', 'x', 'é']) for _ in range(rng.randrange(7)))
