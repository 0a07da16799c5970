"""Order, equality and hash of versions."""
import math
import z3
from pydv.framework import proof
from pydv.ctx import Unsupported
from pydv.values import *
from pydv import models as M
from pydv.models import SeqV
from specs.verspec import *

MOD = 'version.Version.'
NOTE = 'construction establishes the comparison key for every component value (any release and local length); comparison of any two keys decides the documented order'
ASSUMPTIONS = ['math.inf is above every int', 'tuples compare lexicographically; the first difference of two sequences exists unless they are equal',
               'int(digits), str.lower and str.isdigit are functions; lower is idempotent and keeps digits',
               'a key built by Version.__init__ is not modified afterwards (no method assigns it; accessors are read-only)']
BOUNDED = 'spelling variants (the regular expression itself) are compared on generated strings'


class Side:
    """a version satisfying the representation invariant, with symbolic components"""

    def __init__(self, ctx, tag):
        self.tag = tag
        self.epoch = ctx.int(tag + '.epoch', 0).t
        self.level = ctx.int(tag + '.level', -3, 0).t
        self.serial = ctx.int(tag + '.serial', 0).t
        self.post = ctx.int(tag + '.post', -1).t
        self.dev = ctx.int(tag + '.dev', 0).t if ctx.choose(2) else None
        self.n = ctx.int(tag + '.n', 1).t
        self.rel = z3.Function(tag + '.release', IntS, IntS)
        ctx.assume(z3.Or(self.n == 1, self.rel(self.n - 1) != 0))
        self.m = ctx.int(tag + '.m', 0).t
        self.num = z3.Function(tag + '.numeric', IntS, BoolS)
        self.val = z3.Function(tag + '.value', IntS, IntS)
        self.txt = z3.Function(tag + '.text', IntS, StringS)
        self.R = SeqV(ctx, self.n, self.relat)
        self.L = SeqV(ctx, self.m, self.locat)

    def relat(self, ctx, k):
        ctx.assume(self.rel(k) >= 0)
        return SInt(self.rel(k))

    def pad(self, ctx, k):
        ctx.assume(self.rel(k) >= 0)
        return z3.If(k < self.n, self.rel(k), z3.IntVal(0))

    def locat(self, ctx, k):
        if ctx.branch(self.num(k)):
            return (2, SInt(self.val(k)))
        return (1, SStr(self.txt(k)))

    def obj(self, ctx):
        dev = math.inf if self.dev is None else SInt(self.dev)
        return PObj(ctx, V.Version, {'_tuple': (SInt(self.epoch), self.R, SInt(self.level), SInt(self.serial), SInt(self.post), dev, self.L)})


def segcmp(ctx, a, b, k):
    """-1, 0, 1 as z3 terms: order of the k-th local segments (numeric above alphabetic, by value / by text)"""
    lt = z3.If(a.num(k), z3.And(b.num(k), a.val(k) < b.val(k)), z3.Or(b.num(k), a.txt(k) < b.txt(k)))
    eq = z3.And(a.num(k) == b.num(k), z3.If(a.num(k), a.val(k) == b.val(k), a.txt(k) == b.txt(k)))
    return lt, eq


def spec_relation(ctx, a, b):
    """the documented order of a and b: 'lt', 'eq' or 'gt'; installs what must be known at the indices the code looks at"""
    st = {'re': 0, 'le': 0}          # 0: not decided yet, None: equal, else the first difference

    def pick_re():
        st['re'] = None
        if ctx.choose(2):
            re = st['re'] = ctx.fresh(IntS, 'rdiff')
            ctx.assume(z3.And(re >= 0, a.pad(ctx, re) != b.pad(ctx, re)))

    def pick_le():
        st['le'] = None
        if ctx.choose(2):
            le = st['le'] = ctx.fresh(IntS, 'ldiff')
            ctx.assume(z3.And(le >= 0, le <= a.m, le <= b.m, z3.Or(le < a.m, le < b.m)))
            lt, eq = segcmp(ctx, a, b, le)
            ctx.assume(z3.Implies(z3.And(le < a.m, le < b.m), z3.Not(eq)))
        else:
            ctx.assume(a.m == b.m)

    def rel_facts(k):
        re = st['re']
        ctx.assume(z3.Implies(z3.And(k >= 0, True if re is None else k < re), a.pad(ctx, k) == b.pad(ctx, k)))

    def loc_facts(k):
        le = st['le']
        ctx.assume(z3.Implies(z3.And(k >= 0, k < a.m, k < b.m, True if le is None else k < le), segcmp(ctx, a, b, k)[1]))

    def hook(ctx, x, y, d):
        if {id(x), id(y)} == {id(a.R), id(b.R)} and not isinstance(st['re'], int):
            for k in [a.n - 1, b.n - 1] + ([d] if d is not None else []):
                rel_facts(k)
            return [st['re']] if st['re'] is not None else []
        if {id(x), id(y)} == {id(a.L), id(b.L)} and not isinstance(st['le'], int):
            for k in [d] if d is not None else []:
                loc_facts(k)
            return [st['le']] if st['le'] is not None else []
        return []
    ctx.ghost['seqdiff_instances'] = [hook]

    def num(x, y):
        return [('lt', x < y), ('gt', x > y), ('eq', x == y)]

    def release():
        pick_re()
        re = st['re']
        return [('eq', z3.BoolVal(True))] if re is None else num(a.pad(ctx, re), b.pad(ctx, re))[:2]

    def dev():
        if a.dev is None or b.dev is None:
            return [('eq' if a.dev is b.dev else 'gt' if a.dev is None else 'lt', z3.BoolVal(True))]
        return num(a.dev, b.dev)

    def local():
        pick_le()
        le = st['le']
        if le is None:
            return [('eq', z3.BoolVal(True))]
        lt, eq = segcmp(ctx, a, b, le)
        return [('lt', z3.If(le == a.m, True, z3.And(le < b.m, lt))), ('gt', z3.If(le == a.m, False, z3.Or(le == b.m, z3.Not(lt))))]
    for step in (lambda: num(a.epoch, b.epoch), release, lambda: num(a.level, b.level), lambda: num(a.serial, b.serial),
                 lambda: num(a.post, b.post), dev, local):
        alts = step()
        j = ctx.choose(len(alts), [c for _, c in alts])
        if alts[j][0] != 'eq':
            return alts[j][0]
    return 'eq'


@proof('compare', [MOD + '__eq__', MOD + '__lt__', MOD + '__hash__'], budget=100, max_paths=6000)
def compare(ctx, I):
    a, b = Side(ctx, 'a'), Side(ctx, 'b')
    rel = spec_relation(ctx, a, b)
    x, y = a.obj(ctx), b.obj(ctx)
    what = ctx.choose(4)
    op = ['Lt', 'Gt', 'Eq', 'NotEq'][what]
    k, r = I.outcome(lambda: I.truth(M.compare(I, op, x, y)))
    ctx.prove('versions can be compared', k == 'return')
    want = {'Lt': rel == 'lt', 'Gt': rel == 'gt', 'Eq': rel == 'eq', 'NotEq': rel != 'eq'}[op]
    ctx.prove({'Lt': 'less than is the documented order', 'Gt': 'greater than is the documented order', 'Eq': 'equality is the documented equality',
               'NotEq': 'inequality is the negation of equality'}[op], r is want)
    if op == 'Eq' and rel == 'eq':
        k, h = I.outcome(lambda: (I.call(hash, [x]), I.call(hash, [y])))
        ctx.prove('equal versions have equal hashes', k == 'return')
        ctx.prove('equal versions have equal hashes', M.term(h[0]) == M.term(h[1]))
    ctx.cover(rel)


@proof('others', [MOD + '__eq__', MOD + '__lt__'])
def others(ctx, I):
    a = Side(ctx, 'a')
    x = a.obj(ctx)
    y = [ctx.int('number'), ctx.str('text'), None, ctx.obj('object', float), (1, 2), ctx.str('data', 'bytes'), PObj(ctx, type('Other', (), {}), {'_tuple': x.attrs['_tuple']})][ctx.choose(7)]
    op = ['Eq', 'NotEq', 'Lt', 'Gt'][ctx.choose(4)]
    if op in ('Eq', 'NotEq'):
        k, r = I.outcome(lambda: I.truth(M.compare(I, op, x, y)))
        ctx.prove('a version is unequal to anything that is not a version', k == 'return' and r is (op == 'NotEq'))
    else:
        k, r = I.outcome(lambda: M.compare(I, op, x, y))
        ctx.prove('ordering a version with something else raises TypeError', k == 'raise' and r.cls is TypeError)


@proof('same', [MOD + '__eq__'])
def same(ctx, I):
    x = Side(ctx, 'a').obj(ctx)
    k, r = I.outcome(lambda: I.truth(M.compare(I, 'Eq', x, x)))
    ctx.prove('a version equals itself', k == 'return' and r is True)
    k, r = I.outcome(lambda: I.truth(M.compare(I, 'Lt', x, x)))
    ctx.prove('a version is not below itself', k == 'return' and r is False)


@proof('key from keywords', [MOD + '__init__'], budget=100)
def key_kw(ctx, I):
    install(ctx, I)
    level = LEVELS[ctx.choose(4)]
    c = Comp(ctx, 'v', level, **shape(ctx, ['????0', '11001', '00111'][ctx.choose(3)]))
    start(ctx, c)
    ctx.ghost['instances'] = lambda ctx, comp: []
    k, v = I.outcome(lambda: I.call(V.Version, [], c.kwargs(ctx)))
    ctx.prove('valid components are accepted', k == 'return' or bad_witness(ctx, c, v))
    if k != 'return':
        return
    check_inv(ctx, I, v, c)
    ctx.cover(level)


def bad_witness(ctx, c, exc):
    """an exception is only acceptable on a path that is impossible: the witness of an all() is a valid component"""
    return not ctx.feasible(z3.BoolVal(True))


@proof('lexicographic', [])
def lexicographic(ctx, I):
    """the documented order is a strict total order: it is a lexicographic product of total orders"""
    S = z3.DeclareSort('Component')
    n = 7
    xs = {v: [z3.Const(f'{v}{i}', S) for i in range(n)] for v in 'abc'}
    les = [z3.Function(f'lt{i}', S, S, BoolS) for i in range(n)]
    for i, f in enumerate(les):
        for p in 'abc':
            for q in 'abc':
                x, y = xs[p][i], xs[q][i]
                ctx.assume(z3.Or(f(x, y), f(y, x), x == y))
                ctx.assume(z3.Not(z3.And(f(x, y), f(y, x))))
                ctx.assume(z3.Implies(x == y, z3.Not(f(x, y))))
                for r in 'abc':
                    ctx.assume(z3.Implies(z3.And(f(x, y), f(y, xs[r][i])), f(x, xs[r][i])))

    def lt(p, q):
        r = z3.BoolVal(False)
        for i in reversed(range(n)):
            r = z3.Or(les[i](xs[p][i], xs[q][i]), z3.And(xs[p][i] == xs[q][i], r))
        return r

    def eq(p, q):
        return z3.And(*[x == y for x, y in zip(xs[p], xs[q])])
    one = [lt('a', 'b'), eq('a', 'b'), lt('b', 'a')]
    ctx.prove('at least one of less, equal, greater', z3.Or(*one))
    for i in range(3):
        for j in range(i):
            ctx.prove('at most one of less, equal, greater', z3.Not(z3.And(one[i], one[j])))
    ctx.prove('transitive', z3.Implies(z3.And(lt('a', 'b'), lt('b', 'c')), lt('a', 'c')))
