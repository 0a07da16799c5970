"""lines and LineInfo: every line is exactly the text between terminators, and clipping moves exactly the clipped characters."""
import re
import z3
from pydv.framework import proof
from pydv.ctx import Unsupported
from pydv.values import *
from pydv import models as M
from pydv.models import Hook
import big.text as T
from .lineslib import MOD, E, clip_leading, clip_trailing

NOTE = ('lines and LineInfo are under contract for any source; the contracts of clip_leading / clip_trailing proved here are the ones the filters of L02 and L03 are checked against, '
        'so that the reassembly invariant is preserved by any chain of them')
ASSUMPTIONS = ['multisplit with keep=AS_PAIRS yields the lines and terminators that re-join to the text (T01)', 'str.expandtabs defines tab expansion']
L = z3.Length
XT = z3.Function('str.expandtabs', StringS, IntS, StringS)


def kinds(ctx):
    return 'bytes' if ctx.choose(2) else 'str'


def plain(kind):
    return b'' if kind == 'bytes' else ''


def a_lines(ctx, I, tab):
    return I.call(T.lines, [PList(ctx, [])], {'tab_width': tab})


def an_info(ctx, I, kind):
    """a LineInfo in an arbitrary state, and the text that goes with it"""
    lead, line, trail, end = (ctx.str(x, kind) for x in ('leading', 'line', 'trailing', 'end'))
    whole = SStr(lead.t + line.t + trail.t + end.t, kind)
    tab, col, num = ctx.int('tab_width', 1), ctx.int('column'), ctx.int('line_number')
    ctx.assume(XT(E, tab.t) == E)
    li = a_lines(ctx, I, tab)
    info = I.call(T.LineInfo, [li, whole, num, SInt(col.t + L(XT(lead.t, tab.t)))], {'leading': lead, 'trailing': trail, 'end': end})
    return info, lead, line, trail, end, whole, tab, col, num


def clips(name, fn, post, end_of):
    @proof(name, [MOD + 'LineInfo.' + name, MOD + 'LineInfo.detab', MOD + 'lines.detab', MOD + 'LineInfo.__init__', MOD + 'lines.__init__'])
    def p(ctx, I):
        kind = kinds(ctx)
        info, lead, line, trail, end, whole, tab, col, num = an_info(ctx, I, kind)
        if ctx.choose(2):
            arg = ctx.int('i', 0)
            i = arg.t
        else:
            arg = ctx.str('s', kind)
            ctx.assume((z3.PrefixOf if end_of == 'l' else z3.SuffixOf)(arg.t, line.t))
            i = L(arg.t)
        ctx.assume(z3.And(i >= 0, i <= L(line.t)))
        k, r = I.outcome(lambda: I.call(I.getattr(info, name), [line, arg]))
        ctx.prove('clipping characters of the line does not raise', k == 'return')
        if k != 'return':
            return
        rest, lead2, trail2 = post(whole.t, end.t, trail.t, lead.t, line.t, i)
        get = lambda n: I.getattr(info, n)
        ctx.prove('the line stays text of its type', M.is_text(r) and M.kind_of(r) == kind)
        ctx.prove('exactly the clipped characters are removed from the line', M.term(r) == rest)
        l2, t2 = get('leading'), get('trailing')
        ctx.prove('leading and trailing stay text', all(M.is_text(x) and M.kind_of(x) == kind for x in (l2, t2)))
        ctx.prove('what is clipped in front goes to the end of leading' if end_of == 'l' else 'leading is kept', M.term(l2) == lead2)
        ctx.prove('what is clipped behind goes to the front of trailing' if end_of == 'r' else 'trailing is kept', M.term(t2) == trail2)
        ctx.prove('leading + line + trailing + end is still the original line', M.term(l2) + M.term(r) + M.term(t2) + end.t == whole.t)
        ctx.prove('the column is that of the first remaining character', M.numterm(get('column_number')) == col.t + L(XT(lead2, tab.t)))
        ctx.prove('nothing else changes', get('line') is whole and get('end') is end and get('line_number') is num and get('indent') == 0 and get('match') is None)
        ctx.cover('nothing left' if ctx.branch(rest == E) else 'something left')
    PROOFS.append(p)


PROOFS = []
clips('clip_leading', T.LineInfo.clip_leading, clip_leading, 'l')
clips('clip_trailing', T.LineInfo.clip_trailing, clip_trailing, 'r')


@proof('LineInfo', [MOD + 'LineInfo.__init__'])
def info(ctx, I):
    kind = kinds(ctx)
    li = a_lines(ctx, I, 8)
    line, num, col, ind = ctx.str('line', kind), ctx.int('number'), ctx.int('column'), ctx.int('indent')
    kw, bad = {}, False
    other = 'bytes' if kind == 'str' else 'str'
    for nm in ('leading', 'trailing', 'end'):
        c = ctx.choose(3) if nm == 'end' or not bad else 0
        if c:
            kw[nm] = ctx.str(nm, kind if c == 1 else other)
            bad = bad or c == 2
    if not bad and ctx.choose(2):
        kw['indent'] = ind
    if not bad and ctx.choose(2):
        kw['note'] = num
    a = [li, line, num, col]
    if not bad:
        c = ctx.choose(5)
        if c:
            bad = True
            if c == 1:
                a[1] = num
            elif c == 2:
                a[2] = line
            elif c == 3:
                a[3] = line
            else:
                kw['match'] = line
    k, r = I.outcome(lambda: I.call(T.LineInfo, a, kw))
    if bad:
        ctx.prove('a wrong argument type raises TypeError', k == 'raise' and r.cls is TypeError)
        return
    ctx.prove('valid arguments are accepted', k == 'return')
    if k != 'return':
        return
    get = lambda n: I.getattr(r, n)
    ctx.prove('the arguments are recorded', get('lines') is li and get('line') is line and get('line_number') is num and get('column_number') is col)
    for nm in ('leading', 'trailing', 'end'):
        ctx.prove('leading, trailing and end default to empty text', get(nm) is kw[nm] if nm in kw else get(nm) == plain(kind) and M.kind_of(get(nm)) == kind)
    ctx.prove('indent is recorded', get('indent') is ind if 'indent' in kw else get('indent') == 0)
    if 'note' in kw:
        ctx.prove('additional attributes are recorded', get('note') is num)


@proof('lines', [MOD + 'lines.__init__', MOD + 'lines.__iter__', MOD + 'lines.__next__', MOD + 'LineInfo.__init__'])
def text_lines(ctx, I):
    kind = kinds(ctx)
    how = ctx.choose(3)                     # text, iterable of lines, iterable of pairs
    LINE, END = z3.Function('line', IntS, StringS), z3.Function('end', IntS, StringS)
    n = ctx.int('n', 1)
    pair = lambda c, k: (SStr(LINE(k), kind), SStr(END(k), kind))
    item = pair if how != 1 else (lambda c, k: SStr(LINE(k), kind))
    src = PList(ctx, [], prefix=Abstract(n.t, None, None, {}, getter=item))
    src.prefix.elem, src.prefix.cache = frozenset(), {}
    kw = {}
    num, col = (1, 1)
    if ctx.choose(2):
        num, col = ctx.int('line_number'), ctx.int('column_number')
        kw = dict(line_number=num, column_number=col)
    num, col = M.numterm(num), M.numterm(col)
    tab = ctx.int('tab', 1) if ctx.choose(2) else 8
    if tab != 8:
        kw['tab_width'] = tab
    seps = None
    if how == 0:
        text = ctx.str('text', kind)
        seps = ctx.obj('separators') if ctx.choose(2) else None
        ctx.ghost['obj_truth'] = lambda ctx, o: True
        if seps is not None:
            kw['separators'] = seps

        def ms(ctx, s, separators=None, *, keep=False, maxsplit=-1, reverse=False, separate=False, strip=False):
            ctx.prove('the text is split at its line terminators', s is text and (separators is seps if seps is not None else separators in (lb, tuple(lb))))
            ctx.prove('every terminator is kept and ends one line', keep == T.AS_PAIRS and maxsplit == -1 and reverse is False and separate is True and strip is False)
            return IterObj_of(ctx, src)
        lb = T.bytes_linebreaks if kind == 'bytes' else T.linebreaks
        ctx.overrides[T.multisplit] = ms
        arg = text
    else:
        arg = src
    k, li = I.outcome(lambda: I.call(T.lines, [arg], kw))
    ctx.prove('valid arguments are accepted', k == 'return')
    if k != 'return':
        return
    ctx.prove('lines is its own iterator', I.call(I.getattr(li, '__iter__'), []) is li)
    ctx.prove('the arguments are recorded', z3.And(M.numterm(I.getattr(li, 'column_number')) == col, M.numterm(I.getattr(li, 'tab_width')) == M.numterm(tab)))
    # any line: an arbitrary number of lines has been taken before
    it = I.getattr(li, 'i')
    first = ctx.choose(2)
    j = z3.IntVal(0)
    if not first:
        k, r = I.outcome(lambda: I.call(I.getattr(li, '__next__'), []))
        ctx.prove('a line that exists is yielded', k == 'return')
        if k != 'return':
            return
        check_line(ctx, I, li, r, j, num, col, LINE, END, how, kind)
        ctx.prove('the iterator moves by one', M.term(it.pos) == 1)
        j = ctx.fresh(IntS, 'j')
        ctx.assume(z3.And(j >= 1, j <= n.t))
        ctx.touched(it)
        it.pos = j
        I.setattr(li, 'line_number', SInt(num + j))
    k, r = I.outcome(lambda: I.call(I.getattr(li, '__next__'), []))
    if k == 'raise':
        ctx.prove('the lines end exactly where the source ends', r.cls is StopIteration)
        ctx.prove('the lines end exactly where the source ends', j == n.t)
        ctx.cover('end')
        return
    ctx.prove('the lines end exactly where the source ends', j < n.t)
    check_line(ctx, I, li, r, j, num, col, LINE, END, how, kind)
    ctx.prove('the state is ready for the next line', z3.And(M.term(it.pos) == j + 1, M.numterm(I.getattr(li, 'line_number')) == num + j + 1))


def IterObj_of(ctx, l):
    return ctx.interp.call(iter, [l], {})


def check_line(ctx, I, li, r, j, num, col, LINE, END, how, kind):
    ctx.prove('a pair of info and line is yielded', isinstance(r, tuple) and len(r) == 2)
    info, line = r
    end = END(j) if how != 1 else E
    ctx.prove('the line is the text before its terminator', M.is_text(line) and M.kind_of(line) == kind)
    ctx.prove('the line is the text before its terminator', M.term(line) == LINE(j))
    get = lambda n: I.getattr(info, n)
    ctx.prove('info.line is the line with its terminator', M.term(get('line')) == LINE(j) + end)
    ctx.prove('info.end is the terminator', M.term(get('end')) == end)
    ctx.prove('nothing is clipped yet', z3.And(M.term(get('leading')) == E, M.term(get('trailing')) == E))
    ctx.prove('line numbers increase by one from the requested start', M.numterm(get('line_number')) == num + j)
    ctx.prove('column numbers start at the requested first column', M.numterm(get('column_number')) == col)
    ctx.prove('the info refers to its lines', get('lines') is li)
    ctx.prove('text keeps its type', all(M.kind_of(get(x)) == kind for x in ('line', 'leading', 'trailing', 'end')))


@proof('lines: invalid arguments', [MOD + 'lines.__init__'])
def bad_lines(ctx, I):
    kind = kinds(ctx)
    s = ctx.str('s', kind)
    c = ctx.choose(4)
    if c == 3:
        k, r = I.outcome(lambda: I.call(T.lines, [PList(ctx, [s]), s], {}))
        ctx.prove('separators for a source that is already split raise ValueError', k == 'raise' and r.cls is ValueError)
        return
    k, r = I.outcome(lambda: I.call(T.lines, [s], {('line_number', 'column_number', 'tab_width')[c]: s}))
    ctx.prove('a number that is not an int raises TypeError', k == 'raise' and r.cls is TypeError)
