"""Lines and their info objects, as the line filters see them.

The source of a filter is an arbitrary sequence of (info, line) pairs.  An info object is represented by its contract:
clip_leading / clip_trailing behave as proved in L01 on the real methods (same formulas: lead_post, trail_post)."""
import z3
from pydv.ctx import Unsupported
from pydv.values import *
from pydv import models as M
from pydv.models import Hook
import big.text as T

MOD = 'text.'
E = z3.StringVal('')


def clip_leading(whole, end, trail, lead, line, i):
    """(line, leading, trailing) after cutting the first i characters"""
    L = z3.Length
    rest = z3.SubString(line, i, L(line) - i)
    gone = rest == E
    return (rest, z3.If(gone, E, lead + z3.SubString(line, 0, i)), z3.If(gone, z3.SubString(whole, 0, L(whole) - L(end)), trail))


def clip_trailing(whole, end, trail, lead, line, i):
    L = z3.Length
    rest = z3.SubString(line, 0, L(line) - i)
    gone = rest == E
    return (rest, z3.If(gone, E, lead), z3.If(gone, z3.SubString(whole, 0, L(whole) - L(end)), z3.SubString(line, L(line) - i, i) + trail))


DETABLEN = z3.Function('expanded width', StringS, IntS)


class Info(Hook):
    """the info object of line k"""
    pytype = T.LineInfo
    methods = ('clip_leading', 'clip_trailing', 'detab')

    def __init__(self, ctx, src, k):
        self.serial = ctx.next_serial()
        self.src, self.k, self.kind = src, k, src.kind
        c = lambda nm: z3.Function('info.' + nm, IntS, StringS)(k)
        self.lead, self.trail, self.end, self.line0 = c('leading'), c('trailing'), c('end'), src.line(k).t
        self.whole = self.lead0, self.trail0 = self.lead, self.trail
        self.whole = self.lead + self.line0 + self.trail + self.end
        self.cur = self.line0
        self.clips = 0
        self.fields = {}

    def text(self, t):
        return SStr(t, self.kind)

    def getattr(self, ctx, name):
        if name in self.methods:
            return M.ModelM(self, name)
        if name in self.fields:
            v = self.fields[name]
            return M.NONE if v is None else v
        if name == 'leading':
            return self.text(self.lead)
        if name == 'trailing':
            return self.text(self.trail)
        if name == 'end':
            return self.text(self.end)
        if name == 'line':
            return self.text(self.whole)
        if name == 'line_number':
            return SInt(z3.Function('info.line_number', IntS, IntS)(self.k))
        if name == 'column_number':
            return SInt(self.column(ctx))
        if name == 'lines':
            return self.src.lines
        return None

    def column(self, ctx):
        ctx.assume(z3.Implies(self.lead != E, DETABLEN(self.lead) > 0))
        return self.src.column + z3.If(self.lead == E, z3.IntVal(0), DETABLEN(self.lead))

    def setattr(self, ctx, name, v):
        if name in ('leading', 'trailing', 'end', 'line', 'lines', 'line_number', 'column_number'):
            raise Unsupported(f'a filter sets {name}')
        self.fields[name] = v

    def amount(self, ctx, line, s, post):
        ctx.prove('a filter clips the line it was given, as it is now', isinstance(line, SStr) and line.kind == self.kind)
        ctx.prove('a filter clips the line it was given, as it is now', line.t == self.cur)
        if isinstance(s, (int, SInt)) and not isinstance(s, bool):
            i = M.numterm(s)
        else:
            t = M.term(s)
            i = z3.Length(t)
            ctx.prove('only characters of the line are clipped', (z3.PrefixOf if post is clip_leading else z3.SuffixOf)(t, line.t))
        ctx.prove('only characters of the line are clipped', z3.And(i >= 0, i <= z3.Length(line.t)))
        self.cur, self.lead, self.trail = post(self.whole, self.end, self.trail, self.lead, line.t, i)
        if ctx.holds(self.cur != E, 500):          # the clipped line is still there: simpler terms
            L = z3.Length
            if post is clip_leading:
                self.lead, self.trail = self.lead.arg(2), self.trail.arg(2)
            else:
                self.lead, self.trail = self.lead.arg(2), self.trail.arg(2)
        self.clips += 1
        return self.text(self.cur)

    def m_clip_leading(self, ctx, line, s):
        return self.amount(ctx, line, s, clip_leading)

    def m_clip_trailing(self, ctx, line, s):
        return self.amount(ctx, line, s, clip_trailing)

    def m_detab(self, ctx, s):
        return self.src.detab(ctx, s)


class Lines(Hook):
    """`lines` as seen from an info object"""
    pytype = T.lines

    def __init__(self, ctx, src):
        self.serial = ctx.next_serial()
        self.src = src

    def getattr(self, ctx, name):
        return SInt(self.src.column) if name == 'column_number' else None


class Source(Hook):
    """an arbitrary sequence of (info, line) pairs, each line with its own info object"""

    def __init__(self, ctx, kind, start=None):
        self.serial = ctx.next_serial()
        self.kind = kind
        self.n = ctx.int('lines', 0).t
        self.LINE = z3.Function('line', IntS, StringS)
        self.column = ctx.int('first column').t
        self.lines = Lines(ctx, self)
        self.pairs = []

    def line(self, k):
        return SStr(self.LINE(k), self.kind)

    def get(self, ctx, k):
        p = (Info(ctx, self, k), self.line(k))
        self.pairs.append(p)
        return p

    def detab(self, ctx, s):
        return SStr(z3.Function('detab', StringS, StringS)(M.term(s)), self.kind)

    def iterate(self, ctx):
        v = IterView(self.n, self.get)
        v.lines = True
        return v


def pointwise(ctx, I, gen, src):
    """the values yielded for an arbitrary line i: (i, [values])"""
    k, r = I.outcome(lambda: I.collect(gen) if isinstance(gen, GenObj) else gen)
    ctx.prove('the filter does not raise', k == 'return')
    if k != 'return':
        return None
    b = M.built(r)
    ctx.prove('every line is considered, in order', b is not None)
    if b is None:
        return None
    ctx.prove('every line is considered, in order', M.term(b.n) == src.n)
    i = ctx.fresh(IntS, 'i')
    ctx.assume(z3.And(i >= 0, i < src.n))
    src.pairs.clear()
    k, got = I.outcome(lambda: b.probe(ctx, i))
    ctx.prove('no line makes the filter raise', k == 'return')
    if k != 'return':
        return None
    ctx.prove('one pair is taken for each line', len(src.pairs) == 1)
    return i, got


def unmodified(ctx, src, v):
    """v is the pair taken from the source, its info object untouched by clipping"""
    info, line = src.pairs[0]
    ctx.prove('the line is yielded with its own info object', isinstance(v, tuple) and len(v) == 2 and v[0] is info)
    ctx.prove('the line is yielded unmodified', isinstance(v, tuple) and v[1] is line and info.clips == 0)
    return info


def assembled(ctx, info, line):
    ctx.prove('leading + line + trailing + end is the original line', info.lead + M.term(line) + info.trail + info.end == info.whole)
