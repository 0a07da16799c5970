import atexit
import builtins
import io
import itertools
import os
import pathlib
import re
import shutil
import tempfile
from big.all import fgrep, grep

RULE = 'small files (text and binary, several encodings and line endings) searched with every option against a line-by-line reference; non-trivial: the result is neither empty nor the whole file'
SECONDS = 8
_dir = None
LINES = ['', 'a', 'b', 'ab', 'Ab', 'AB', 'ba b', ' a', 'a ', 'é', 'É', 'aXb', '.', 'a.b', '\t', 'ΟΔΟΣ', 'Σ', 'ς', 'x\x0by', 'x\x85y', '\x0c', 'ß', 'SS', 'İ', 'x\u2028y']
TEXTS = ['a', 'b', 'ab', 'A', '', ' ', '.', 'é', 'É', 'a.b', 'Σ', 'σ', 'zz', 'B', 'x', '\t', 'SS']
PATS = ['a', '^a', 'b$', 'a.b', '[AB]', '', '^$', 'é', r'\ba\b', 'a|b', '(?i)a', r'\s$', 'x.y', '(', 'Σ', r'(a)(b)?']
EOL = ['\n', '\r\n', '\r']
ENC = [None, 'utf-8', 'latin-1', 'utf-16']


def scratch():
    global _dir
    if _dir is None or _dir[0] != os.getpid():
        d = tempfile.mkdtemp(prefix='f03_')
        _dir = (os.getpid(), d)
        from multiprocessing import util
        util.Finalize(None, shutil.rmtree, args=(d,), kwargs={'ignore_errors': True}, exitpriority=10)
        atexit.register(shutil.rmtree, d, ignore_errors=True)
    return _dir[1]


def enumerate_cases(tier):
    files = [[], [''], ['a'], ['a', ''], ['a', 'b', 'ab', 'Ab', '', 'ba b'], ['é', 'É', 'e', ''], ['', '', 'a', 'a', ''], ['b', 'a.b', 'aXb', 'A.B'], ['ΟΔΟΣ', 'Σ', 'ς', 'x']]
    for ls in files:
        for t in TEXTS[:12]:
            for en, ci in itertools.product((0, 1), repeat=2):
                for b in (0, 1):
                    yield ('f', ls, 0, None if b else 'utf-8', t, en, ci, b, 0)
        for p in PATS:
            for en, fl in itertools.product((0, 1), (0, 2)):
                for b in (0, 1):
                    yield ('g', ls, 0, None if b else 'utf-8', p, en, fl, b, 0)
    for e in (0, 1, 2):
        for pk in (0, 1, 2, 3):
            yield ('f', ['a', 'ab', '', 'b a', ''], e, 'utf-8', 'a', 1, 1, 0, pk)
            yield ('g', ['a', 'ab', '', 'b a', ''], e, 'utf-8', 'a$', 1, 0, 0, pk)
            yield ('f', ['a', 'ab', '', 'b a', ''], e, None, 'a', 1, 1, 1, pk)
            yield ('g', ['a', 'ab', '', 'b a', ''], e, None, 'a$', 1, 0, 1, pk)
    for k in 'fg':
        yield (k, ['a'], 0, 'utf-8', 'a', 0, 0, 1, 0)          # bytes with an encoding
        yield (k, ['é'], 0, 'bad', 'a', 0, 0, 0, 0)            # undecodable
        yield (k, None, 0, 'utf-8', 'a', 0, 0, 0, 0)           # missing file
    yield ('c', ['a', 'B', 'b'], 0, 'utf-8', 'b', 0, 2, 0, 0)
    yield ('c', ['a', 'B', 'b'], 0, None, 'b', 1, 2, 1, 0)
    yield ('c', ['a', 'B', 'b'], 0, 'utf-8', 'b', 0, 2, 1, 0)


def random_case(rng):
    b = rng.random() < .35
    ls = [''.join(rng.choice(LINES) for _ in range(rng.randrange(3))) for _ in range(rng.randrange(8))]
    enc = None if b else rng.choice(['utf-8', 'utf-8', 'utf-16', 'latin-1'])
    k = rng.choice('ffggc')
    if k == 'f':
        return ('f', ls, rng.randrange(3), enc, rng.choice(TEXTS) + rng.choice(['', '', 'a', 'b']), rng.randrange(2), rng.randrange(2), int(b), rng.randrange(4))
    return (k, ls, rng.randrange(3), enc, rng.choice(PATS) + rng.choice(['', '', 'b', '?']), rng.randrange(2), rng.choice([0, 2, 8]), int(b), rng.randrange(4))


def nontrivial(c):
    return c[1] is not None and len(c[1]) > 1 and c[4] != ''


def valid(c):
    return isinstance(c, tuple) and len(c) == 9 and c[0] in 'fgc' and (c[1] is None or isinstance(c[1], list)) and all(isinstance(x, int) for x in (c[2],) + c[5:])


def fold(s):
    return s.lower() if isinstance(s, bytes) else s.casefold()


def check(case):
    kind, ls, e, enc, text, en, opt, b, pk = case
    path = os.path.join(scratch(), 'file')
    wenc = enc if enc not in (None, 'bad') else 'utf-8'
    if ls is None:
        path += '.missing'
    else:
        body = EOL[e].join(ls)
        try:
            raw = body.encode(wenc)
        except UnicodeEncodeError:
            return None
        with open(path, 'wb') as f:
            f.write(raw)
    if enc == 'bad':
        enc = 'ascii'
    p = [path, os.fsencode(path), pathlib.Path(path), pathlib.PosixPath(path)][pk]
    needle = text.encode('utf-8') if b else text
    flags = 0
    if kind != 'f':
        flags = re.RegexFlag(opt)
        try:
            pat = re.compile(needle, flags)
        except re.error:
            return None
    opened = []
    real = builtins.open

    def spy(*a, **k):
        f = real(*a, **k)
        opened.append(f)
        return f
    kw = {}
    if enc is not None:
        kw['encoding'] = enc
    if en:
        kw['enumerate'] = True
    if kind == 'f' and opt:
        kw['case_insensitive'] = True
    if kind == 'g' and opt:
        kw['flags'] = flags
    arg = pat if kind == 'c' else needle
    builtins.open = spy
    io.open = spy
    err = got = None
    try:
        got = (fgrep if kind == 'f' else grep)(p, arg, **kw)
    except Exception as x:
        err = x
    finally:
        builtins.open = real
        io.open = real
    if any(not f.closed for f in opened):
        for f in opened:
            f.close()
        return f'{case}: the file is still open (outcome {err or "result"!r})'
    if b and enc is not None:
        return None if isinstance(err, ValueError) and not isinstance(err, UnicodeError) else f'{case}: a binary search with an encoding gave {got!r} {err!r}'
    if ls is None:
        return None if isinstance(err, FileNotFoundError) else f'{case}: missing file: {got!r} {err!r}'
    if b:
        lines = raw.split(b'\n')
    else:
        try:
            lines = raw.decode(enc).replace('\r\n', '\n').replace('\r', '\n').split('\n')
        except UnicodeDecodeError:
            return None if isinstance(err, UnicodeDecodeError) else f'{case}: undecodable file: {got!r} {err!r}'
    if err is not None:
        return f'{case}: raised {err!r}'
    if kind == 'f':
        if opt:
            sel = [fold(needle) in fold(l) for l in lines]
        else:
            sel = [needle in l for l in lines]
    else:
        sel = [re.search(pat, l) is not None for l in lines]
    want = [((i, l) if en else l) for i, (l, s) in enumerate(zip(lines, sel), 1) if s]
    if got != want or any(type(g) is not type(w) for g, w in zip(got, want)):
        return f'{case}: found {got!r}, expected {want!r}'
    return None
