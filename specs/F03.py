"""File search: the file is an arbitrary sequence of lines; the result is examined at an arbitrary line."""
import builtins
import pathlib
import re
import z3
from pydv.framework import proof
from pydv.ctx import Unsupported
from pydv.values import *
from pydv import models as M
from pydv.models import Hook
from pydv.interp import PyExc
import big.file as F

MOD = 'file.'
NOTE = 'fgrep and grep are under contract for files of any number of lines, text and bytes'
ASSUMPTIONS = ['open(mode) and read() deliver the content of the file (text mode with universal newlines), split(newline) cuts it at the line feeds',
               'str.casefold / bytes.lower define "ignoring case"', 'pattern.search decides whether a line matches (the re module)']


class IOFail(OSError):
    pass


class File(Hook):
    methods = ('__enter__', '__exit__', 'read', 'close', 'readlines')

    def __init__(self, ctx, w):
        self.serial = ctx.next_serial()
        self.w = w
        self.closed = False

    def m___enter__(self, ctx):
        return self

    def m___exit__(self, ctx, *a):
        self.closed = True

    def m_close(self, ctx):
        self.closed = True

    def m_read(self, ctx):
        ctx.prove('the file is read while open', not self.closed)
        if ctx.choose(2):
            raise PyExc(ExcV(IOFail))
        return Content(ctx, self.w)


class Content(Hook):
    """the whole text: only cut at line feeds"""

    def __init__(self, ctx, w):
        self.serial = ctx.next_serial()
        self.w = w
        self.pytype = bytes if w.kind == 'bytes' else str
        self.methods = ('split',)

    def m_split(self, ctx, sep=None, maxsplit=-1):
        ctx.prove('the text is cut at line feeds', sep == (b'\n' if self.w.kind == 'bytes' else '\n') and maxsplit == -1)
        return self.w.lines


class World:
    def __init__(self, ctx, I, kind, enc):
        self.kind, self.files, self.enc = kind, [], enc
        n = ctx.int('lines', 1)
        LINE = z3.Function('line', IntS, StringS)
        self.line = lambda k: SStr(LINE(k), kind)
        self.lines = PList(ctx, [], prefix=Abstract(n.t, None, None, {}, getter=lambda c, k: self.line(k)))
        self.lines.prefix.elem, self.lines.prefix.cache = frozenset(), {}
        self.n = n.t

        def opener(ctx, mode='r', buffering=-1, encoding=None, errors=None, newline=None):
            ctx.prove('opened for reading in the mode of the search', mode in (('rb', 'br') if kind == 'bytes' else ('r', 'rt', 'tr')))
            ctx.prove('the encoding given is the encoding used', encoding is self.enc)
            ctx.prove('text is read with universal newlines', errors is None and newline is None)
            if ctx.choose(2):
                raise PyExc(ExcV(IOFail))
            f = File(ctx, self)
            self.files.append(f)
            return f

        class P(Hook):
            pytype = pathlib.PosixPath
            methods = ('open',)

            def m_open(s, ctx, *a, **k):
                return opener(ctx, *a, **k)
        self.path = P() if ctx.choose(2) else ctx.str('path')

        def op(ctx, p, *a, **k):
            ctx.prove('the given file is opened', p is self.path)
            return opener(ctx, *a, **k)
        ctx.overrides[builtins.open] = op


SEARCH = z3.Function('pattern.search', StringS, BoolS)
CF = z3.Function('str.casefold', StringS, StringS)
LOW = z3.Function('str.lower', StringS, StringS)


def finish(ctx, I, w, k, r, matches, enum):
    ctx.prove('the file is closed in every case', all(f.closed for f in w.files) and len(w.files) <= 1)
    if k == 'raise':
        ctx.prove('raises only when the file cannot be opened or read', r.cls is IOFail)
        return
    b = M.built(r)
    ctx.prove('the result is a list with one decision per line', b is not None)
    if b is None:
        return
    ctx.prove('every line is considered', M.term(b.n) == w.n)
    i = ctx.fresh(IntS, 'i')
    ctx.assume(z3.And(i >= 0, i < w.n))
    k, got = I.outcome(lambda: b.probe(ctx, i))
    ctx.prove('no line makes the search raise', k == 'return')
    if k != 'return':
        return
    line = w.line(i)
    cond = matches(line)
    ctx.prove('a line is returned at most once', len(got) <= 1)
    if not got:
        ctx.prove('a line that matches is returned', z3.Not(cond))
        ctx.cover('line without match')
        return
    ctx.prove('only lines that match are returned', cond)
    ctx.cover('line with match')
    v = got[0]
    if enum:
        ctx.prove('each line is paired with its one-based number', isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], SInt))
        if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], SInt)):
            return
        ctx.prove('each line is paired with its one-based number', v[0].t == i + 1)
        v = v[1]
    ctx.prove('the line is returned unmodified', isinstance(v, SStr) and v.kind == w.kind)
    if isinstance(v, SStr):
        ctx.prove('the line is returned unmodified', v.t == line.t)


def kwargs(ctx, kind):
    enc = None if ctx.choose(2) else ctx.str('encoding')
    return enc, ctx.choose(2) == 1


@proof('fgrep', [MOD + 'fgrep'])
def fgrep(ctx, I):
    kind = 'bytes' if ctx.choose(2) else 'str'
    enc, enum = kwargs(ctx, kind)
    w = World(ctx, I, kind, enc)
    text = ctx.str('text', kind)
    ci = ctx.choose(3)
    kw = dict(encoding=enc, enumerate=enum)
    if ci:
        kw['case_insensitive'] = ci == 1
    k, r = I.outcome(lambda: I.call(F.fgrep, [w.path, text], kw))
    if kind == 'bytes' and enc is not None:
        ctx.prove('a binary search with a text encoding raises ValueError', k == 'raise' and r.cls is ValueError and not w.files)
        return
    fold = (lambda t: t) if ci != 1 else (lambda t: (LOW if kind == 'bytes' else CF)(t))
    finish(ctx, I, w, k, r, lambda line: z3.Contains(fold(line.t), fold(text.t)), enum)


class Pattern(Hook):
    pytype = re.Pattern
    methods = ('search', 'match', 'fullmatch')

    def __init__(self, ctx, src):
        self.serial = ctx.next_serial()
        self.src = src

    def getattr(self, ctx, name):
        return self.src if name == 'pattern' else super().getattr(ctx, name)

    def m_search(self, ctx, s, *a):
        if a:
            raise Unsupported('search with positions')
        if ctx.branch(SEARCH(M.term(s))):
            return ctx.obj('match', re.Match)
        return None

    def m_match(self, ctx, s):
        return ctx.obj('match', re.Match) if ctx.choose(2) else None

    m_fullmatch = m_match


@proof('grep', [MOD + 'grep'])
def grep(ctx, I):
    kind = 'bytes' if ctx.choose(2) else 'str'
    enc, enum = kwargs(ctx, kind)
    w = World(ctx, I, kind, enc)
    src = ctx.str('pattern', kind)
    pat = Pattern(ctx, src)
    ctx.ghost['obj_truth'] = lambda ctx, o: True
    flags = ctx.int('flags') if ctx.choose(2) else 0
    compiled = []

    def comp(ctx, s, f=0):
        ctx.prove('the given pattern is compiled with the given flags', s is src and (f is flags))
        compiled.append(s)
        return pat
    ctx.overrides[re.compile] = comp
    given = ctx.choose(2)
    kw = dict(encoding=enc, enumerate=enum)
    if isinstance(flags, SInt):
        kw['flags'] = flags
    k, r = I.outcome(lambda: I.call(F.grep, [w.path, pat if given else src], kw))
    if kind == 'bytes' and enc is not None:
        ctx.prove('a binary pattern with a text encoding raises ValueError', k == 'raise' and r.cls is ValueError and not w.files)
        return
    finish(ctx, I, w, k, r, lambda line: SEARCH(line.t), enum)
