"""Line filters, each examined at an arbitrary line of an arbitrary sequence of lines."""
import re
import z3
from pydv.framework import proof
from pydv.ctx import Unsupported
from pydv.values import *
from pydv import models as M
from pydv.models import Hook
from pydv.builtins_model import PRED
import big.text as T
from .lineslib import *

NOTE = 'every filter is under contract at an arbitrary line of an arbitrary sequence; clipping is used through the contract proved in L01, multistrip through the one of T05'
ASSUMPTIONS = ['each line comes with its own info object', 'str.strip family: what is removed is whitespace and what remains does not start / end with whitespace',
               'pattern.search / .match decide whether a line matches (the re module)', 'list.sort is a stable sort by the key']
BOUNDED = ['lines_strip_line_comments over texts with quotes: compared with a plain reference on enumerated and random lines (see evidence)',
           'the pattern text built from several comment markers is interpreted by the re module: compared on enumerated and random lines']
NOT_PROVED = ['lines_strip_line_comments: the loop over quoted segments is decided by the bounded comparison only']

SEARCH = z3.Function('pattern.search', StringS, BoolS)
MATCH = z3.Function('pattern.match', StringS, BoolS)


def start(ctx):
    kind = 'bytes' if ctx.choose(2) else 'str'
    return kind, Source(ctx, kind)


def decide(ctx, got, src, keep):
    """exactly the lines with keep are yielded"""
    info, line = src.pairs[0]
    if not got:
        ctx.prove('a line that qualifies is kept', z3.Not(keep))
        ctx.cover('line dropped')
        return None
    ctx.prove('each line is yielded at most once', len(got) == 1)
    ctx.prove('only lines that qualify are kept', keep)
    ctx.cover('line kept')
    return unmodified(ctx, src, got[0])


@proof('lines_containing', [MOD + 'lines_containing'])
def containing(ctx, I):
    kind, src = start(ctx)
    s = ctx.str('s', kind)
    inv = ctx.choose(3)
    g = I.call(T.lines_containing, [src, s], {} if inv == 2 else {'invert': inv == 1})
    r = pointwise(ctx, I, g, src)
    if r:
        has = z3.Contains(src.LINE(r[0]), s.t)
        decide(ctx, r[1], src, z3.Not(has) if inv == 1 else has)


@proof('lines_filter_empty_lines', [MOD + 'lines_filter_empty_lines'])
def empty(ctx, I):
    kind, src = start(ctx)
    r = pointwise(ctx, I, I.call(T.lines_filter_empty_lines, [src], {}), src)
    if r:
        decide(ctx, r[1], src, src.LINE(r[0]) != E)


class Pattern(Hook):
    pytype = re.Pattern
    methods = ('search', 'match', 'fullmatch', 'split')

    def __init__(self, ctx):
        self.serial = ctx.next_serial()
        self.results = []

    def ask(self, ctx, f, s):
        m = None
        if ctx.branch(f(M.term(s))):
            m = ctx.obj('match', re.Match)
            ctx.ghost['obj_truth'] = lambda ctx, o: True
        self.results.append(m)
        return m

    def m_search(self, ctx, s):
        return self.ask(ctx, SEARCH, s)

    def m_match(self, ctx, s):
        return self.ask(ctx, MATCH, s)

    def m_fullmatch(self, ctx, s):
        return self.ask(ctx, z3.Function('pattern.fullmatch', StringS, BoolS), s)


@proof('lines_grep', [MOD + 'lines_grep'])
def grep(ctx, I):
    kind, src = start(ctx)
    pat = Pattern(ctx)
    text = ctx.str('pattern', kind)
    flags = ctx.int('flags') if ctx.choose(2) else None
    compiled = []

    def comp(ctx, p, flags=0):
        ctx.prove('the given pattern is compiled', p is text)
        compiled.append(flags)
        return pat
    ctx.overrides[re.compile] = comp
    given = ctx.choose(2)
    kw = {}
    if flags is not None:
        kw['flags'] = flags
    inv = ctx.choose(3)
    if inv < 2:
        kw['invert'] = inv == 1
    name = ('match', 'hit', 'not an identifier')[ctx.choose(3)]
    if name != 'match' or ctx.choose(2):
        kw['match'] = name
    k, g = I.outcome(lambda: I.call(T.lines_grep, [src, pat if given else text], kw))
    if name == 'not an identifier':
        ctx.prove('an attribute name that is not an identifier raises ValueError', k == 'raise' and g.cls is ValueError)
        return
    ctx.prove('valid arguments are accepted', k == 'return')
    if k != 'return':
        return
    if not given:
        ctx.prove('the pattern is compiled once, with the given flags', len(compiled) == 1)
        ctx.prove('the pattern is compiled once, with the given flags', M.numterm(compiled[0]) == (flags.t if flags is not None else 0))
    r = pointwise(ctx, I, g, src)
    if not r:
        return
    has = SEARCH(src.LINE(r[0]))
    info = decide(ctx, r[1], src, z3.Not(has) if inv == 1 else has)
    if info is not None:
        ctx.prove('the match is recorded in the attribute', list(info.fields) == [name] and len(pat.results) == 1 and info.fields[name] is pat.results[0])
        ctx.prove('None is recorded for a line kept because it does not match', (inv == 1) == (info.fields[name] is None))


@proof('lines_sort', [MOD + 'lines_sort'])
def sort(ctx, I):
    kind, src = start(ctx)
    KEY = z3.Function('key', IntS, Obj)
    sorts = []

    def hook(ctx, l, key, reverse):
        b = l.prefix if isinstance(l, PList) else None
        ctx.prove('all lines are sorted', b is not None and not l.items)
        ctx.prove('all lines are sorted', M.term(b.length) == src.n)
        i = ctx.fresh(IntS, 'i')
        ctx.assume(z3.And(i >= 0, i < src.n))
        pair = M.list_getitem(I, l, SInt(i))
        ctx.prove('the lines themselves are sorted', isinstance(pair, tuple) and len(pair) == 2 and isinstance(pair[0], Info))
        ctx.prove('the lines themselves are sorted', z3.And(pair[0].k == i, pair[1].t == src.LINE(i)))
        if key is None:
            ctx.prove('the lines are compared, not the info objects', False)
        kv = I.call(key, [pair], {})
        if how == 0:
            ctx.prove('the order is that of the given key', isinstance(kv, SObj) and asked == [pair])
            ctx.prove('the order is that of the given key', kv.t == KEY(i))
        else:
            ctx.prove('without a key the lines are ordered by their text', isinstance(kv, SStr))
            ctx.prove('without a key the lines are ordered by their text', kv.t == src.LINE(i))
        ctx.prove('the order is reversed exactly when requested', M.truth(I, reverse) == (rev == 1))
        sorts.append(l)
        return None
    ctx.ghost['sort'] = hook
    asked = []

    class Key(Hook):
        def call(self, ctx, args, kw):
            asked.append(args[0])
            return SObj(KEY(args[0][0].k), 'key')
    how = ctx.choose(3)
    rev = ctx.choose(3)
    key = Key()
    key.serial = ctx.next_serial()
    ctx.ghost['obj_eq'] = lambda ctx, a, b: a is b
    kw = {} if how == 2 else {'key': key if how == 0 else None}
    if rev < 2:
        kw['reverse'] = rev == 1
    k, r = I.outcome(lambda: I.collect(I.call(T.lines_sort, [src], kw)))
    ctx.prove('sorting does not raise', k == 'return')
    if k != 'return':
        return
    ctx.prove('the lines are sorted once', len(sorts) == 1)
    ctx.prove('the sorted list is what is yielded', isinstance(r, PList) and not r.items and r.prefix is sorts[0].prefix)


@proof('lines_convert_tabs_to_spaces', [MOD + 'lines_convert_tabs_to_spaces'])
def tabs(ctx, I):
    kind, src = start(ctx)
    r = pointwise(ctx, I, I.call(T.lines_convert_tabs_to_spaces, [src], {}), src)
    if not r:
        return
    i, got = r
    ctx.prove('each line is yielded once', len(got) == 1 and got[0][0] is src.pairs[0][0])
    v = got[0][1]
    ctx.prove('tabs are expanded with the tab width of the lines', isinstance(v, SStr))
    ctx.prove('tabs are expanded with the tab width of the lines', v.t == z3.Function('detab', StringS, StringS)(src.LINE(i)))


LS = z3.Function('multistrip left', StringS, StringS)
RS = z3.Function('multistrip right', StringS, StringS)
LST = z3.Function('lstrip', StringS, StringS)
RST = z3.Function('rstrip', StringS, StringS)


def multistrip_contract(ctx, seps):
    """multistrip: the left end first, then the right end of what is left (as proved in T05)"""
    def contract(ctx, s, separators, left=True, right=True):
        ctx.prove('the separators given are the separators used', separators is seps)
        t = M.term(s)
        if left:
            ctx.assume(z3.SuffixOf(LS(t), t))
            t = LS(t)
        if right:
            ctx.assume(z3.PrefixOf(RS(t), t))
            t = RS(t)
        return SStr(t, s.kind)
    ctx.overrides[T.multistrip] = contract


def strip_functions(ctx, s, chars, l, m, r):
    """the strip family removes a unique part, so it is a function of the text; the two ends commute"""
    ctx.prove('whitespace is stripped', chars is None)
    t = M.term(s)
    left, right = not z3.is_string_value(l), not z3.is_string_value(r)
    ctx.assume(RST(LST(t)) == LST(RST(t)))
    ctx.assume(m == (RST(LST(t)) if left and right else LST(t) if left else RST(t)))


def strips(name, fn, both):
    @proof(name, [MOD + name])
    def p(ctx, I):
        kind, src = start(ctx)
        given = ctx.choose(3)
        seps = ctx.obj('separators')
        args = [src] + ([] if given == 2 else [seps if given == 0 else None])
        multistrip_contract(ctx, seps)
        ctx.ghost['strip'] = strip_functions
        ctx.ghost['obj_truth'] = lambda ctx, o: True
        r = pointwise(ctx, I, I.call(fn, args, {}), src)
        if not r:
            return
        i, got = r
        ctx.prove('each line is yielded once, with its info object', len(got) == 1)
        info = src.pairs[0][0]
        ctx.prove('each line is yielded once, with its info object', isinstance(got[0], tuple) and got[0][0] is info)
        v = got[0][1]
        ctx.prove('the line stays text', M.is_text(v) and M.kind_of(v) == kind)
        line, t = src.LINE(i), M.term(v)
        if given == 0:
            ctx.assume(z3.And(LS(E) == E, RS(E) == E))
            cut = LS(line) if both else line
            want = RS(cut)
        else:
            ctx.assume(z3.And(LST(E) == E, RST(E) == E))
            cut = LST(line) if both else line
            want = RST(cut)
        ctx.prove('exactly what is to be stripped is stripped', t == want)
        assembled(ctx, info, v)
        n = z3.Length(line) - z3.Length(cut)
        ctx.prove('what is stripped in front is added to leading (all goes to trailing when nothing is left)', info.lead == z3.If(t == E, z3.If(line == E, info.lead0, E), info.lead0 + z3.SubString(line, 0, n)))
        ctx.cover('nothing left' if ctx.branch(t == E) else 'something left')
    PROOFS.append(p)


PROOFS = []
strips('lines_strip', T.lines_strip, True)
strips('lines_rstrip', T.lines_rstrip, False)


def markers(ctx, kind):
    """(argument, its members as a checker, single marker or None)"""
    by = kind == 'bytes'
    how = ctx.choose(5)
    if how == 0:
        m = ctx.str('marker', kind)
        return PList(ctx, [m]), lambda v: v == (m,), m
    if how == 1:
        n = ctx.int('markers', 2)
        MK = z3.Function('marker', IntS, StringS)
        l = PList(ctx, [], prefix=Abstract(n.t, None, None, {}, getter=lambda c, k: SStr(MK(k), kind)))
        l.prefix.elem, l.prefix.cache = frozenset(), {}

        def same(v):
            i = ctx.fresh(IntS, 'i')
            ctx.assume(z3.And(i >= 0, i < n.t))
            if not isinstance(v, (PList, M.TupleRep, Hook)):
                return False
            return z3.And(M.numterm(M.length(I_(ctx), v)) == n.t, M.term(M.getitem(I_(ctx), v, SInt(i))) == MK(i))
        return l, same, None
    if how == 2:
        c = b'#' if by else '#'
        return c, lambda v: v == (c,), c
    if how == 3:
        c = b'#;' if by else '#;'
        t = tuple(c[i:i + 1] for i in range(2))
        return c, lambda v: v == t, None
    m = tuple(x.encode() if by else x for x in ('//', '#', '///'))
    return m, lambda v: v == m, None


def I_(ctx):
    return ctx.interp


def re_contract(ctx, kind, same, seps_kw):
    """the pattern text for the separators: opaque here (T01 says what it denotes)"""
    asked = []

    def contract(ctx, separators, separators_is_bytes, separate=False, keep=False):
        ctx.prove('the pattern is built from the given markers', same(separators))
        ctx.prove('the pattern is of the type of the markers', separators_is_bytes is (kind == 'bytes'))
        ctx.prove('the pattern matches one marker' if seps_kw['separate'] else 'a comment may start with any of the markers', (separate, keep) == (seps_kw['separate'], seps_kw['keep']) or not seps_kw['separate'] and keep is False)
        asked.append(1)
        return SStr(RE, kind)
    RE = z3.String('pattern text')
    for fn in (T._separators_to_re, getattr(T, '__separators_to_re')):
        ctx.overrides[fn] = contract
    return RE, asked


@proof('lines_filter_line_comment_lines', [MOD + 'lines_filter_line_comment_lines'])
def nocomments(ctx, I):
    kind, src = start(ctx)
    arg, same, single = markers(ctx, kind)
    ctx.ghost['strip'] = strip_functions
    RE, asked = re_contract(ctx, kind, same, dict(separate=False, keep=False))
    pat = Pattern(ctx)
    compiled = []

    def comp(ctx, p, flags=0):
        ctx.prove('the pattern looks for a marker after whitespace', M.term(p) == z3.StringVal('\\s*') + RE)
        ctx.prove('the pattern is used without flags', flags == 0)
        compiled.append(p)
        return pat
    ctx.overrides[re.compile] = comp
    k, g = I.outcome(lambda: I.call(T.lines_filter_line_comment_lines, [src, arg], {}))
    ctx.prove('valid markers are accepted', k == 'return')
    if k != 'return':
        return
    r = pointwise(ctx, I, g, src)
    if not r:
        return
    line = src.LINE(r[0])
    if compiled:
        ctx.cover('several markers')
        comment = MATCH(line)
    else:
        ctx.prove('without a pattern there is one marker', single is not None)
        comment = z3.PrefixOf(M.term(single), LST(line))
    decide(ctx, r[1], src, z3.Not(comment))


@proof('lines_filter_line_comment_lines: no markers', [MOD + 'lines_filter_line_comment_lines'])
def nocomments_bad(ctx, I):
    kind, src = start(ctx)
    k, g = I.outcome(lambda: I.call(T.lines_filter_line_comment_lines, [src, ((), '', b'', None)[ctx.choose(4)]], {}))
    ctx.prove('no markers raises ValueError', k == 'raise' and g.cls is ValueError)
