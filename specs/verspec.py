"""Versions: symbolic components, the representation invariant, and the contract of the parsing expression."""
import itertools
import math
import sys
import z3
from pydv.ctx import Unsupported
from pydv.values import *
from pydv import models as M
from pydv.models import Hook, SeqV
from pydv.interp import PyExc, LoopSpec
import big.version as V

LEVELS = ('alpha', 'beta', 'rc', 'final')
LV = {'alpha': 0, 'beta': 1, 'rc': 2, 'final': 3}
WORDS = {'a': 'alpha', 'alpha': 'alpha', 'b': 'beta', 'beta': 'beta', 'c': 'rc', 'rc': 'rc', 'pre': 'rc', 'preview': 'rc'}
INT = z3.Function('int of digits', StringS, IntS)
ITOS = z3.Function('decimal', IntS, StringS)
from pydv.builtins_model import CASE, PRED
LOWER, ISDIGIT = CASE['lower'], PRED['isdigit']
VALIDSEG = z3.Function('letters and digits', StringS, BoolS)
REPLACE = z3.Function('str.replaceall', StringS, StringS, StringS, StringS)


class Comp:
    """components of a version: epoch, serial, post, dev: None or int term; release REL(0..n-1); local SEG(0..m-1) or None"""

    def __init__(self, ctx, tag, level, epoch=True, serial=True, post=True, dev=True, local=True):
        num = lambda name, on: ctx.int(f'{tag}.{name}', 0).t if on else None
        self.tag, self.level = tag, level
        self.epoch, self.post, self.dev = num('epoch', epoch), num('post', post), num('dev', dev)
        self.serial = num('serial', serial) if level != 'final' else None
        self.n = ctx.int(f'{tag}.n', 1).t
        self.rel = z3.Function(f'{tag}.release', IntS, IntS)
        self.m = ctx.int(f'{tag}.m', 1).t if local else None
        self.seg = z3.Function(f'{tag}.local', IntS, StringS)
        self.seen = set()

    def relat(self, ctx, k):
        ctx.assume(self.rel(k) >= 0)
        return SInt(self.rel(k))

    def segat(self, ctx, k):
        ctx.assume(VALIDSEG(self.seg(k)))
        ctx.assume(LOWER(LOWER(self.seg(k))) == LOWER(self.seg(k)))
        ctx.assume(ISDIGIT(LOWER(self.seg(k))) == ISDIGIT(self.seg(k)))
        ctx.assume(VALIDSEG(LOWER(self.seg(k))))
        ctx.assume(self.seg(k) != z3.StringVal(''))
        return SStr(self.seg(k))

    def padded(self, k):
        return z3.If(k < self.n, self.rel(k), z3.IntVal(0))

    def release(self, ctx):
        return SeqV(ctx, self.n, self.relat)

    def local(self, ctx):
        return SeqV(ctx, self.m, self.segat) if self.m is not None else None

    def kwargs(self, ctx, explicit=False):
        k = {'release': self.release(ctx)}
        if self.level != 'final' or explicit:
            k['release_level'] = self.level
        for nm in ('epoch', 'serial', 'post', 'dev'):
            t = getattr(self, nm)
            if t is not None:
                k[nm] = SInt(t)
            elif explicit:
                k[nm] = None
        if self.m is not None:
            k['local'] = self.local(ctx)
        elif explicit:
            k['local'] = None
        return k


def install(ctx, I):
    """the parts of the environment a version uses"""
    ctx.ghost['int'] = to_int
    ctx.ghost['str'] = lambda ctx, o: SStr(ITOS(o.t)) if isinstance(o, SInt) else ctx.str('str')
    ctx.ghost['fmt_int'] = lambda ctx, x, spec: SStr(ITOS(x.t)) if not spec else ctx.str('fmt')
    ctx.ghost['split'] = split
    ctx.ghost['join'] = join
    ctx.ghost['joins'] = []
    ctx.ghost['splits'] = []
    ctx.ghost['segq'] = []

    def seg_valid(ctx, s):
        return ctx.obj('match', tag=object) if ctx.branch(VALIDSEG(M.term(s))) else None
    ctx.ghost['obj_truth'] = lambda ctx, o: True
    if hasattr(V, '_re_is_valid_local_segment'):
        ctx.overrides[V._re_is_valid_local_segment] = seg_valid

    def inv(st):
        r = st['release']
        c = ctx.ghost['components']
        if not isinstance(r, SeqV):
            raise Unsupported('release is not a sequence')
        i, w = z3.Int('i'), ctx.ghost['relidx']
        out = [('a non-empty prefix', z3.And(r.n >= 1, r.n <= c.n))]
        for k in w:
            out.append(('the rest is zero', z3.Implies(z3.And(k >= r.n, k < c.n), c.rel(k) == 0)))
        out.append(('the rest is zero', z3.Implies(r.n < c.n, c.rel(r.n) == 0)))
        k = ctx.fresh(IntS, 'k')
        ctx.assume(k >= 0)
        got = r.at(ctx, k)
        out.append(('unchanged', z3.Implies(k < r.n, M.term(got) == c.rel(k))))
        return out

    def make(ctx, st):
        return SeqV(ctx, ctx.int('kept').t, ctx.ghost['components'].relat)
    ctx.loops[('version.Version.__init__', '*')] = LoopSpec(inv, make={('local', 'release'): make})


def to_int(ctx, o, *a):
    if isinstance(o, SStr) and not a:
        ctx.assume(INT(o.t) >= 0)
        return SInt(INT(o.t))
    raise Unsupported('int()')


def split(ctx, s, sep=None, maxsplit=-1):
    if sep != '.' or maxsplit != -1:
        raise Unsupported('split')
    for t, seqf in ctx.ghost['splits']:
        if ctx.holds(t == M.term(s)):
            return seqf(ctx)
    raise Unsupported('split of an unknown text')


def join(ctx, sep, it):
    if sep != '.':
        return None
    t = ctx.str('joined')
    if isinstance(it, M.CompList):
        ctx.unprobed.discard(it)
    elif not isinstance(it, SeqV):
        return None
    ctx.ghost['joins'].append((t.t, it))
    return t


def view_list(ctx, n, at):
    l = PList(ctx, [], prefix=Abstract(n, None, None, {}, getter=at))
    l.prefix.elem, l.prefix.cache = frozenset(), {}
    return l


class Groups(Hook):
    """a successful match of the version grammar"""
    methods = ('groupdict', 'group')

    def __init__(self, ctx, d):
        self.serial = ctx.next_serial()
        self.d = d

    def m_groupdict(self, ctx, default=None):
        return PDict(ctx, dict(self.d))

    def m_group(self, ctx, *names):
        v = [self.d[n] for n in names]
        return v[0] if len(v) == 1 else tuple(v)

    def getitem(self, ctx, n):
        return self.d[n]


def groups_of(ctx, c, word=None, post='post', dev=True, sep=''):
    """the groups the grammar gives for components c (level spelled as word; post release written as given)"""
    def digits(t, name):
        s = ctx.str(name)
        ctx.assume(INT(s.t) == t)
        return s
    d = dict.fromkeys(('epoch', 'release', 'pre', 'pre_l', 'pre_n', 'post', 'post_n1', 'post_l', 'post_n2', 'dev', 'dev_l', 'dev_n', 'local'))
    if c.epoch is not None:
        d['epoch'] = digits(c.epoch, 'epoch')
    d['release'] = ctx.str('release')
    PIECE = z3.Function(f'{c.tag}.piece', IntS, StringS)

    def piece(ctx, k):
        ctx.assume(INT(PIECE(k)) == c.rel(k))
        ctx.assume(c.rel(k) >= 0)
        return SStr(PIECE(k))
    ctx.ghost['splits'].append((d['release'].t, lambda ctx: view_list(ctx, c.n, piece)))
    if c.level != 'final':
        d['pre'], d['pre_l'] = ctx.str('pre'), word
        if c.serial is not None:
            d['pre_n'] = digits(c.serial, 'pre_n')
    if c.post is not None:
        d['post'] = ctx.str('post')
        if post == '-':
            d['post_n1'] = digits(c.post, 'post_n1')
        else:
            d['post_l'] = post
            if post != 'r':         # 'r' stands for the spelling without number
                d['post_n2'] = digits(c.post, 'post_n2')
            else:
                ctx.assume(c.post == 0)
    if c.dev is not None:
        d['dev'], d['dev_l'] = ctx.str('dev'), 'dev'
        if dev:
            d['dev_n'] = digits(c.dev, 'dev_n')
        else:
            ctx.assume(c.dev == 0)
    if c.m is not None:
        d['local'] = ctx.str('local')
        t = d['local'].t
        L = lambda x: z3.StringVal(x)
        rep = REPLACE(REPLACE(t, L('-'), L('.')), L('_'), L('.'))
        rep2 = REPLACE(REPLACE(t, L('_'), L('.')), L('-'), L('.'))
        ctx.ghost['splits'].append((rep, lambda ctx: view_list(ctx, c.m, c.segat)))
        ctx.ghost['splits'].append((rep2, lambda ctx: view_list(ctx, c.m, c.segat)))
    return Groups(ctx, d)


def segkey(ctx, c, k):
    """(is numeric, value, text) of the k-th local segment, lower case"""
    c.segat(ctx, k)
    t = LOWER(c.seg(k))
    return ISDIGIT(t), INT(t), t


def check_inv(ctx, I, v, c, what=''):
    """the representation invariant of a version with components c"""
    t = v.attrs.get('_tuple')
    ctx.prove('the comparison key is a tuple of the seven components', isinstance(t, tuple) and len(t) == 7)
    if not (isinstance(t, tuple) and len(t) == 7):
        return
    zero = z3.IntVal(0)
    e, r, l, n, p, d, loc = t
    ctx.prove('key: epoch', M.term(e) == (zero if c.epoch is None else c.epoch))
    ctx.prove('key: release level', l == LV[c.level] - 3)
    ctx.prove('key: serial', M.term(n) == (zero if c.serial is None else c.serial))
    ctx.prove('key: post release', M.term(p) == (z3.IntVal(-1) if c.post is None else c.post))
    if c.dev is None:
        ctx.prove('key: no development release sorts last', d == math.inf)
    else:
        ctx.prove('key: development release', isinstance(d, (SInt, int)))
        ctx.prove('key: development release', M.term(d) == c.dev)
    check_release(ctx, r, c)
    if c.m is None:
        ctx.prove('key: no local version', loc == () if isinstance(loc, tuple) else False)
    else:
        ctx.prove('key: local version', isinstance(loc, SeqV))
        ctx.prove('key: one entry for each local segment', loc.n == c.m)
        k = ctx.fresh(IntS, 'k')
        ctx.assume(z3.And(k >= 0, k < c.m))
        num, val, txt = segkey(ctx, c, k)
        x = loc.at(ctx, k)
        ctx.prove('key: local segments', isinstance(x, tuple) and len(x) == 2)
        if ctx.branch(num):
            ctx.prove('key: a numeric segment ranks above the others, by value', x[0] == 2 and isinstance(x[1], SInt))
            ctx.prove('key: a numeric segment ranks above the others, by value', x[1].t == val)
        else:
            ctx.prove('key: other segments go by their lower case text', x[0] == 1 and isinstance(x[1], SStr))
            ctx.prove('key: other segments go by their lower case text', x[1].t == txt)


def check_release(ctx, r, c):
    ctx.prove('release is a tuple', isinstance(r, SeqV) and r.pytype is tuple)
    ctx.prove('release keeps at least one component', z3.And(r.n >= 1, r.n <= c.n))
    for k in ctx.ghost['relidx'][:1]:
        ctx.prove('release drops only trailing zeros', z3.Implies(z3.And(k >= r.n, k < c.n), c.rel(k) == 0))
        if ctx.branch(z3.And(k >= 0, k < r.n)):
            ctx.prove('release keeps its components', M.term(r.at(ctx, k)) == c.rel(k))
    ctx.prove('release drops every trailing zero', z3.Or(r.n == 1, c.rel(r.n - 1) != 0))


def start(ctx, c, low=False):
    """an arbitrary component index of the release, at which the conditions are instantiated"""
    ctx.ghost['components'] = c
    k = ctx.fresh(IntS, 'j')
    ctx.assume(z3.And(k >= 0, k < c.n))
    ctx.ghost['relidx'] = [k] + [z3.IntVal(i) for i in range(3) if low]


def shape(ctx, which):
    """which optional components are present"""
    on = [ctx.choose(2) == 1 if w == '?' else w == '1' for w in which]
    return dict(zip(('epoch', 'serial', 'post', 'dev', 'local'), on))
