"""Parsing, rendering, accessors and rejection of versions."""
import sys
import z3
from pydv.framework import proof
from pydv.ctx import Unsupported
from pydv.values import *
from pydv import models as M
from pydv.models import Hook, SeqV
from specs.verspec import *

MOD = 'version.Version.'
ACC = [MOD + x for x in ('epoch', 'release', 'major', 'minor', 'micro', 'release_level', 'releaselevel', 'serial', 'post', 'dev', 'local')]
NOTE = 'the path from match groups, keywords or sys.version_info to components, key, accessors and string form, for every component value'
ASSUMPTIONS = ['contract of the parsing expression: it matches exactly the version grammar and its groups are the components as written',
               'int(str(n)) == n; str.replace, str.split and "." join are inverse on segments without separators',
               'str.lower on the whole text (case-insensitive grammar)']
BOUNDED = 'the regular expression against an independent grammar, on generated and mutated strings'


def show(ctx, x):
    return SStr(ITOS(x))


def match_contract(ctx, I, want, groups):
    """the parsing expression applied to a text that want() accepts"""
    calls = []

    def match(ctx, s):
        calls.append(s)
        want(ctx, s)
        return groups
    if not hasattr(V, '_re_parse_version'):
        raise Unsupported('parsing expression not found')
    ctx.overrides[V._re_parse_version] = match
    return calls


def accessors(ctx, I, v, c):
    """every accessor reports its component"""
    def get(n):
        k, r = I.outcome(lambda: I.getattr(v, n))
        ctx.prove(f'{n} can be read', k == 'return')
        return r

    def numeric(n, t, none_is_zero):
        x = get(n)
        if t is None:
            ctx.prove(f'{n} reports a missing component', x is None or (none_is_zero and x == 0))
        else:
            ctx.prove(f'{n} reports the component', x is not None)
            if x is not None:
                ctx.prove(f'{n} reports the component', M.term(x) == t)
    numeric('epoch', c.epoch, True)
    numeric('serial', c.serial, True)
    numeric('post', c.post, False)
    numeric('dev', c.dev, False)
    for n in ('release_level', 'releaselevel'):
        ctx.prove(f'{n} reports the normalised level', get(n) == c.level)
    check_release(ctx, get('release'), c)
    for i, n in enumerate(('major', 'minor', 'micro')):
        t = c.padded(z3.IntVal(i))
        ctx.prove(f'{n} is component {i} or zero', M.term(get(n)) == t)
    loc = get('local')
    if c.m is None:
        ctx.prove('no local version', loc is None)
    else:
        ctx.prove('local is a tuple', isinstance(loc, SeqV) and loc.pytype is tuple)
        ctx.prove('local has every segment', loc.n == c.m)
        k = ctx.fresh(IntS, 'k')
        ctx.assume(z3.And(k >= 0, k < c.m))
        ctx.prove('local segments are the lower case text', M.term(loc.at(ctx, k)) == segkey(ctx, c, k)[2])


@proof('from a string', [MOD + '__init__'] + ACC, budget=100)
def from_string(ctx, I):
    install(ctx, I)
    word = list(WORDS) + ['final']
    w = word[ctx.choose(len(word))]
    full = w in ('a', 'final')
    c = Comp(ctx, 'v', WORDS.get(w, 'final'), **shape(ctx, ['11110', '00000', '11001', '00111', '00010'][ctx.choose(5)] if full else '1?010'))
    post = ['post', '-', 'rev', 'r'][ctx.choose(4)] if c.post is not None and full else 'post'
    dev = ctx.choose(2) == 1 if c.dev is not None else True
    start(ctx, c, full)
    text = ctx.str('text')

    def want(ctx, s):
        ctx.prove('the lower case text is parsed', isinstance(s, SStr))
        ctx.prove('the lower case text is parsed', s.t == LOWER(text.t))
    calls = match_contract(ctx, I, want, groups_of(ctx, c, w, post, dev))
    k, v = I.outcome(lambda: I.call(V.Version, [text]))
    ctx.prove('a text that matches is accepted', k == 'return')
    if k != 'return':
        return
    ctx.prove('the text is parsed', len(calls) >= 1)
    check_inv(ctx, I, v, c)
    if full:
        accessors(ctx, I, v, c)
    ctx.cover(w)


@proof('invalid string', [MOD + '__init__'])
def invalid_string(ctx, I):
    install(ctx, I)
    text = ctx.str('text')
    match_contract(ctx, I, lambda ctx, s: None, None)
    k, v = I.outcome(lambda: I.call(V.Version, [text]))
    ctx.prove('a text that does not match raises ValueError', k == 'raise' and v.cls is ValueError)


@proof('both', [MOD + '__init__'])
def both(ctx, I):
    install(ctx, I)
    c = Comp(ctx, 'v', 'alpha')
    start(ctx, c)
    kw = c.kwargs(ctx)
    n = sorted(kw)[ctx.choose(len(kw))]
    ctx.ghost['instances'] = lambda ctx, comp: []
    match_contract(ctx, I, lambda ctx, s: None, None)
    k, v = I.outcome(lambda: I.call(V.Version, [ctx.str('text')], {n: kw[n]}))
    ctx.prove('a text together with components raises ValueError', k == 'raise' and v.cls is ValueError)


def canonical(ctx, c):
    """is the text the normalised rendering of c?  Pieces joined by "." are looked up among the recorded joins."""
    def check(ctx, s, what):
        parts = []
        S = z3.StringVal
        if c.epoch is not None and ctx.branch(c.epoch != 0):
            parts += [ITOS(c.epoch), S('!')]
        joins = ctx.ghost['joins']
        i = ctx.fresh(IntS, 'i')
        ctx.assume(i >= 0)
        rel = loc = None
        for t, it in joins:
            n = M.term(it.n)
            if c.m is not None and isinstance(it, SeqV):
                loc = (t, it)
            else:
                rel = (t, it)
        ctx.prove(what + ': the release components are written with dots', rel is not None)
        n = rel[1].n
        ctx.prove(what + ': the release components are written with dots', z3.And(n >= 1, n <= c.n))
        for k in ctx.ghost['relidx']:
            ctx.prove(what + ': only trailing zeros are left out', z3.Implies(k >= n, c.rel(k) == 0))
            if ctx.branch(k < n):
                x = rel[1].probe(ctx, k)
                ctx.prove(what + ': the release components are written with dots', len(x) == 1 and isinstance(x[0], SStr))
                ctx.prove(what + ': the release components are written with dots', x[0].t == ITOS(c.rel(k)))
        ctx.prove(what + ': trailing zeros are left out', z3.Or(n == 1, c.rel(n - 1) != 0))
        parts.append(rel[0])
        if c.level != 'final':
            parts.append(S({'alpha': 'a', 'beta': 'b', 'rc': 'rc'}[c.level]))
            if c.serial is not None and ctx.branch(c.serial != 0):
                parts.append(ITOS(c.serial))
        if c.post is not None:
            parts += [S('.post'), ITOS(c.post)]
        if c.dev is not None:
            parts += [S('.dev'), ITOS(c.dev)]
        if c.m is not None:
            ctx.prove(what + ': the local segments are written with dots', loc is not None)
            ctx.prove(what + ': the local segments are written with dots', loc[1].n == c.m)
            k = ctx.fresh(IntS, 'k')
            ctx.assume(z3.And(k >= 0, k < c.m))
            ctx.prove(what + ': the local segments are written with dots', M.term(loc[1].probe(ctx, k)[0]) == segkey(ctx, c, k)[2])
            parts += [S('+'), loc[0]]
        text = M.cat(parts)
        ctx.prove(what + ' is the normalised form', isinstance(s, SStr))
        ctx.prove(what + ' is the normalised form', s.t == text)
        return text, n
    return check


@proof('round trip', [MOD + '__init__', MOD + '__str__'], budget=100)
def round_trip(ctx, I):
    install(ctx, I)
    level = LEVELS[ctx.choose(4)]
    full = level in ('beta', 'final')
    c = Comp(ctx, 'v', level, **shape(ctx, ['11110', '00000', '11001', '00111'][ctx.choose(4)] if full else '11010'))
    start(ctx, c)
    ctx.ghost['instances'] = lambda ctx, comp: []
    k, v = I.outcome(lambda: I.call(V.Version, [], c.kwargs(ctx)))
    ctx.prove('valid components are accepted', k == 'return')
    if k != 'return':
        return
    ctx.unprobed.clear()
    k, s = I.outcome(lambda: I.call(V.Version.__str__, [v]))
    ctx.prove('every version has a string form', k == 'return')
    text, n = canonical(ctx, c)(ctx, s, 'the string form')
    # parsing it: by the grammar its groups are the components as written
    wr = lambda t: t is not None and ctx.branch(t != 0)
    d = Comp.__new__(Comp)
    d.__dict__.update(c.__dict__)
    d.tag = 'w'
    d.epoch = c.epoch if wr(c.epoch) else None
    d.serial = c.serial if wr(c.serial) else None
    d.n = n                         # as many release components as were written
    ctx.ghost['components'] = d
    ctx.assume(z3.And(n >= 1, n <= c.n))

    def want(ctx, s):
        ctx.prove('the string form is parsed', s.t == LOWER(text))
    # the rendering has as many components as remain
    g = groups_of(ctx, d, {'alpha': 'a', 'beta': 'b', 'rc': 'rc'}.get(level))
    match_contract(ctx, I, want, g)
    k, w = I.outcome(lambda: I.call(V.Version, [s]))
    ctx.prove('the string form is accepted', k == 'return')
    check_inv(ctx, I, w, d)
    ctx.unprobed.clear()
    ctx.cover(level)


@proof('sys.version_info', [MOD + '__init__'])
def version_info(ctx, I):
    install(ctx, I)
    lv = ['alpha', 'beta', 'candidate', 'final'][ctx.choose(4)]
    level = 'rc' if lv == 'candidate' else lv
    c = Comp(ctx, 'v', level, epoch=False, post=False, dev=False, local=False)
    start(ctx, c)
    ctx.assume(c.n == 3)
    serial = SInt(c.serial) if c.serial is not None else 0

    class Info(Hook):
        pytype = type(sys.version_info)

        def getattr(s, ctx, n):
            i = {'major': 0, 'minor': 1, 'micro': 2}.get(n)
            if i is not None:
                return c.relat(ctx, z3.IntVal(i))
            return {'releaselevel': lv, 'serial': serial}.get(n)

        def getitem(s, ctx, i):
            return c.relat(ctx, z3.IntVal(i)) if i in (0, 1, 2) else [lv, serial][i - 3]

    def want(ctx, s):
        S = z3.StringVal
        parts = [ITOS(c.rel(0)), S('.'), ITOS(c.rel(1)), S('.'), ITOS(c.rel(2))]
        if level != 'final':
            ok = []
            zero = ctx.branch(c.serial == 0)
            for w in [x for x in WORDS if WORDS[x] == level]:
                ok.append(LOWER(M.cat(parts + [S(w)] + ([] if zero else [ITOS(c.serial)]))))
                if zero:
                    ok.append(LOWER(M.cat(parts + [S(w), ITOS(c.serial)])))
        else:
            ok = [LOWER(M.cat(parts))]
        ctx.prove('the version of the interpreter is written out', z3.Or(*[s.t == x for x in ok]))
    match_contract(ctx, I, want, groups_of(ctx, c, {'alpha': 'a', 'beta': 'b', 'rc': 'rc'}.get(level)))
    k, v = I.outcome(lambda: I.call(V.Version, [Info()]))
    ctx.prove('sys.version_info is accepted', k == 'return')
    check_inv(ctx, I, v, c)
    ctx.cover(lv)


@proof('rejects', [MOD + '__init__'], budget=100)
def rejects(ctx, I):
    install(ctx, I)
    j = ctx.choose(7)
    name = ('epoch', 'release', 'release_level', 'serial', 'post', 'dev', 'local')[j]
    c = Comp(ctx, 'v', 'alpha', **shape(ctx, '01000'))
    start(ctx, c)
    kw = c.kwargs(ctx)
    kinds = [ctx.str('text'), (ctx.real() if ctx.choose(2) else ctx.str('data', 'bytes'))]
    probe = []
    ctx.ghost['instances'] = lambda ctx, comp: probe
    ok = z3.BoolVal(False)
    if name in ('epoch', 'serial', 'post', 'dev'):
        which = ctx.choose(3)
        if which == 2:
            x = ctx.int('any')
            ok = x.t >= 0
        else:
            x = kinds[which]
        kw[name] = x
    elif name == 'release':
        which = ctx.choose(5)
        if which == 0:
            n = ctx.int('n', 0).t
            RAW = z3.Function('raw', IntS, IntS)
            kw[name] = SeqV(ctx, n, lambda ctx, k: SInt(RAW(k)))
            bad = ctx.fresh(IntS, 'bad')
            if ctx.choose(2):
                ctx.assume(z3.And(bad >= 0, bad < n, RAW(bad) < 0))
                probe.append(bad)
            else:
                ctx.assume(n == 0)
        elif which == 1:
            n = ctx.int('n', 1).t
            bad = ctx.fresh(IntS, 'bad')
            ctx.assume(z3.And(bad >= 0, bad < n))
            RAW = z3.Function('raw', IntS, IntS)
            kw[name] = SeqV(ctx, n, lambda ctx, k: kinds[0] if ctx.branch(k == bad) else SInt(RAW(k)))
            probe.append(bad)
        elif which == 2:
            n = ctx.int('n', 1).t
            kw[name] = SeqV(ctx, n, lambda ctx, k: c.relat(ctx, k), list)
        elif which == 3:
            del kw[name]
        else:
            kw[name] = [(), ctx.str('t'), ctx.int('number')][ctx.choose(3)]
    elif name == 'release_level':
        which = ctx.choose(3)
        if which == 0:
            x = ctx.str('level')
            for w in list(WORDS) + ['final']:
                ctx.assume(x.t != z3.StringVal(w))
            kw[name] = x
        elif which == 1:
            kw[name] = [3, '', 'candidate', 'x'][ctx.choose(4)]
        else:
            kw[name] = [None, 'final'][ctx.choose(2)]
            if kw[name] is None:
                del kw[name]
            ok = c.serial == 0
    else:
        which = ctx.choose(4)
        bad = ctx.fresh(IntS, 'bad')
        n = ctx.int('n', 1).t
        ctx.assume(z3.And(bad >= 0, bad < n))
        SEG = z3.Function('rawseg', IntS, StringS)
        if which == 0:
            ctx.assume(z3.Or(SEG(bad) == z3.StringVal(''), z3.Not(VALIDSEG(SEG(bad)))))
            kw[name] = SeqV(ctx, n, lambda ctx, k: SStr(SEG(k)))
            probe.append(bad)
        elif which == 1:
            kw[name] = SeqV(ctx, n, lambda ctx, k: SInt(IntVal(3)) if ctx.branch(k == bad) else SStr(SEG(k)))
            probe.append(bad)
        elif which == 2:
            kw[name] = SeqV(ctx, n, lambda ctx, k: c.segat(ctx, k), list)
        else:
            kw[name] = [(), kinds[0], ctx.int('number')][ctx.choose(3)]
    match_contract(ctx, I, lambda ctx, s: None, None)
    k, v = I.outcome(lambda: I.call(V.Version, [], kw))
    if k == 'raise':
        ctx.prove('an invalid component raises ValueError or TypeError', v.cls in (ValueError, TypeError))
        ctx.prove('a valid component is not rejected', z3.Not(ok))
    else:
        ctx.prove('an invalid component is rejected', ok)


from z3 import IntVal  # noqa: E402


@proof('read only', ACC)
def read_only(ctx, I):
    install(ctx, I)
    c = Comp(ctx, 'v', 'beta')
    start(ctx, c)
    ctx.ghost['instances'] = lambda ctx, comp: []
    v = I.call(V.Version, [], c.kwargs(ctx))
    ctx.unprobed.clear()
    before = dict(v.attrs)
    for n in ('epoch', 'release', 'major', 'minor', 'micro', 'release_level', 'releaselevel', 'serial', 'post', 'dev', 'local'):
        I.getattr(v, n)
        k, r = I.outcome(lambda: I.setattr(v, n, ctx.int('new')))
        ctx.prove(f'{n} cannot be assigned', k == 'raise' and r.cls is AttributeError)
    ctx.prove('reading changes nothing', set(before) == set(v.attrs) and all(v.attrs[x] is before[x] for x in before))


@proof('components', [MOD + '__init__'] + ACC, budget=100)
def components(ctx, I):
    install(ctx, I)
    level = ('alpha', 'final')[ctx.choose(2)]
    c = Comp(ctx, 'v', level, **shape(ctx, ['11110', '00000', '11001', '00111'][ctx.choose(4)]))
    start(ctx, c, True)
    ctx.ghost['instances'] = lambda ctx, comp: []
    k, v = I.outcome(lambda: I.call(V.Version, [], c.kwargs(ctx, explicit=ctx.choose(2) == 1)))
    ctx.prove('valid components are accepted', k == 'return')
    if k != 'return':
        return
    ctx.unprobed.clear()
    accessors(ctx, I, v, c)
    ctx.cover(level)
