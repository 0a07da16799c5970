"""wrap_words and split_text_with_code: sequences of words and characters of any length, specified recursively."""
import z3
from pydv.framework import proof
from pydv.ctx import Unsupported
from pydv.values import *
from pydv import models as M
from pydv.models import Hook
from pydv.interp import LoopSpec
from pydv.builtins_model import CASE, PRED
import big.text as T

NOTE = 'wrap_words is under contract for any number of words of any text, margins and two_spaces; split_text_with_code character by character with code off'
ASSUMPTIONS = ['the words given to wrap_words are not empty, apart from one empty word alone', 'the only whitespace characters are blanks, tabs and line breaks']
BOUNDED = ['split_text_with_code with code lines (and their tabs): compared with a plain reference on enumerated and random texts (see evidence)']
NOT_PROVED = ['split_text_with_code with allow_code: its state machine is under contract only with code off']
PROOFS = []
ISSPACE = PRED['isspace']
S = z3.StringVal
WORD = z3.Function('word', IntS, StringS)
OUT = z3.Function('wrapped', IntS, StringS)          # the text of the first k words
LINE = z3.Function('length of the last line', IntS, IntS)
LAST = z3.Function('word before', IntS, StringS)
ALONE = z3.Function('the last line is one word', IntS, BoolS)


class Words(Hook):
    """any iterable of words; an iterator when asked for one"""

    def __init__(self, ctx, kind, at):
        self.serial = ctx.next_serial()
        self.pytype = list
        self.kind, self.at = kind, at
        self.n = ctx.int('words', 0).t

    def length(self, ctx):
        return SInt(self.n)

    def truth(self, ctx):
        return ctx.branch(self.n > 0)

    def iterate(self, ctx):
        return IterView(self.n, self.at)

    def getitem(self, ctx, i):
        if isinstance(i, slice):
            if i.step is None and i.start is not None and i.stop is not None and ctx.holds(M.numterm(i.stop) == M.numterm(i.start) + 1) and ctx.holds(z3.And(M.numterm(i.start) >= 0, M.numterm(i.start) < self.n)):
                return self.at(ctx, z3.simplify(M.numterm(i.start)))
            raise Unsupported('slice of the words')
        return self.at(ctx, M.numterm(i))


def same_text(I, v, t):
    if isinstance(v, PList):
        if v.prefix is None or 'joined' in v.prefix.folds:
            try:
                return M.fold_of(I, v, 'joined') == t
            except Unsupported:
                return None
    elif M.is_text(v):
        return M.term(v) == t
    return None


def make_wrap(kind):
    @proof(f'wrap_words, {kind}', ['text.wrap_words'], budget=100)
    def wrap(ctx, I):
        ctx.folds['joined'] = M.JOINED
        two = ctx.choose(3)                  # given, not given, default
        default = ctx.choose(2)
        margin = SInt(z3.IntVal(79)) if default else ctx.int('margin')
        m = margin.t
        sp, nl = S(' '), S('\n')
        ctx.assume(z3.And(OUT(0) == S(''), LINE(0) == 0, LAST(0) == S('')))

        def at(ctx, k):
            w = WORD(k)
            n = z3.Length(w)
            ctx.assume(n > 0)
            space = ISSPACE(w)
            end = z3.And(two != 1, z3.Or(*[z3.SuffixOf(S(p), LAST(k)) for p in '.?!']))
            gap = z3.If(end, 2, 1)
            first = LINE(k) == 0
            fits = LINE(k) + gap + n <= m
            # a marker breaks the line as it is; a word moves to the next line only if it does not fit
            ctx.assume(z3.Implies(space, z3.Not(z3.Or(*[z3.SuffixOf(S(p), w) for p in '.?!']))))
            ctx.assume(z3.And(LINE(k) >= 0, z3.Or(LINE(k) == 0, LAST(k) != S(''))))
            ctx.assume(LAST(k + 1) == z3.If(space, S(''), w))
            ctx.assume(LINE(k + 1) == z3.If(space, 0, z3.If(z3.And(z3.Not(first), fits), LINE(k) + gap + n, n)))
            ctx.assume(ALONE(k + 1) == z3.And(z3.Not(space), z3.Or(first, z3.Not(fits))))
            ctx.assume(OUT(k + 1) == z3.If(z3.Or(space, first), z3.Concat(OUT(k), w), z3.If(fits, z3.Concat(OUT(k), z3.If(end, S('  '), sp), w), z3.Concat(OUT(k), nl, w))))
            # the property itself: no line of more than one word is longer than the margin
            ctx.prove('a line is longer than the margin only if it is one word', z3.Implies(z3.Not(ALONE(k + 1)), z3.Or(LINE(k + 1) <= m, LINE(k + 1) == 0)))
            return SStr(w, kind)
        words = Words(ctx, kind, at)

        def cands(st):
            out = []
            for name, v in sorted(st.frame.locals.items()):
                if is_int_like(v) and not isinstance(v, bool):
                    out.append((name + ' is the length of the last line', M.numterm(v) == LINE(st.k)))
                t = same_text(I, v, OUT(st.k))
                if t is not None:
                    out.append((name + ' is the text so far', t))
                if M.is_text(v):
                    out.append((name + ' is the word before', M.term(v) == LAST(st.k)))
                    out.append((name + ' is the word or marker before', z3.Or(M.term(v) == LAST(st.k), z3.And(LAST(st.k) == S(''), LINE(st.k) == 0, *[z3.Not(z3.SuffixOf(S(p), M.term(v))) for p in '.?!']))))
            return out
        ctx.loops[('*', '*')] = LoopSpec(cands=cands, rel=lambda st: [('first', st.k == 0), ('later', st.k > 0)])
        kw = {} if two == 2 else {'two_spaces': [True, False][two]}
        if not default:
            kw['margin'] = margin
        k, r = I.outcome(lambda: I.call(T.wrap_words, [words], kw))
        if k == 'raise':
            ctx.prove('it raises ValueError, and only if there are no words', z3.And(r.cls is ValueError, words.n == 0))
            return
        ctx.prove('there are words', words.n > 0)
        ctx.prove('the result is of the type of the words', M.is_text(r) and M.kind_of(r) == kind)
        ctx.prove('the words are joined as stated', M.term(r) == OUT(words.n))
        ctx.cover(kind)
    PROOFS.append(wrap)


def is_int_like(v):
    return isinstance(v, (int, SInt))


for kind in ('str', 'bytes'):
    make_wrap(kind)


# ---------------------------------------------------------------- split_text_with_code
SeqS = z3.SeqSort(StringS)
CH = z3.Function('character', IntS, StringS)
WORDS = z3.Function('words of the text before', IntS, SeqS)
CUR = z3.Function('the unfinished word', IntS, StringS)
PEND = z3.Function('blanks before the unfinished word', IntS, StringS)
MODE = z3.Function('kind of the current line', IntS, IntS)           # 0 no word yet, 1 text, 2 code
PREV = z3.Function('kind of the paragraph before', IntS, IntS)       # 0 none, 1 text, 2 code
GAP = z3.Function('blank lines since', IntS, IntS)
CODE = z3.Function('the current code line', IntS, StringS)
CODECOL = z3.Function('its width', IntS, IntS)
COL = z3.Function('column after', StringS, IntS, IntS, IntS, IntS)   # blanks, column before them, tab width, how many of them
EXP = z3.Function('blanks as in code', StringS, IntS, IntS, BoolS, IntS, StringS)
BLANK = z3.Function('only tabs and spaces', StringS, BoolS)
SPACES = z3.Function('spaces', IntS, StringS)
REPEAT = z3.Function('then line breaks', SeqS, IntS, SeqS)
LISTED = M.Fold('listed', SeqS, lambda v: z3.Unit(M.term(v)), lambda a, b: z3.Concat(a, b), z3.Empty(SeqS), 'listed')


def snoc(q, t):
    return z3.Concat(q, z3.Unit(t))


METHODS = ['text.split_text_with_code'] + [f'text._column_wrapper_splitter.{m}' for m in (
    '__init__', 'emit', 'paragraph_break', 'write', 'close', 'state_paragraph_start', 'state_line_start', 'state_text_line_start', 'state_in_text_line')]
METHODS_CODE = METHODS + [f'text._column_wrapper_splitter.{m}' for m in ('line_break', 'state_code_line_start', 'state_in_code_line')]


@proof('the defaults of split_text_with_code', [])
def defaults(ctx, I):
    import inspect
    d = inspect.signature(T.split_text_with_code).parameters
    for n, v in (('tab_width', 8), ('code_indent', 4), ('allow_code', True), ('convert_tabs_to_spaces', True)):
        ctx.prove(f'{n} is {v} when not given', n in d and d[n].default == v)


@proof('bytes are taken one by one', ['text._iterate_over_bytes'])
def pieces(ctx, I):
    b = ctx.str('b', 'bytes')
    v = M.iterate(I, I.call(T._iterate_over_bytes, [b]))
    ctx.prove('as many pieces as bytes', M.term(v.n) == z3.Length(b.t))
    k = ctx.int('k', 0).t
    ctx.assume(k < z3.Length(b.t))
    ctx.prove('every piece is the byte there', M.term(v.get(ctx, k)) == z3.SubString(b.t, k, 1))
    ctx.cover('pieces')


def make_split(kind, allowed, converted):
    @proof(f'split_text_with_code, {kind}' + (', code' + (', converted' if converted else '') if allowed else ''), METHODS_CODE if allowed else METHODS, budget=400, max_paths=20000, ob_ms=1500)
    def split(ctx, I):
        ctx.folds['joined'] = M.JOINED
        ctx.folds['listed'] = LISTED
        tab, indent, allow, conv = ctx.int('tab_width', 1).t, ctx.int('code_indent', 1).t, z3.BoolVal(allowed), z3.BoolVal(converted)
        kw = dict(tab_width=SInt(tab), code_indent=SInt(indent), allow_code=allowed, convert_tabs_to_spaces=converted)
        nl, para = S('\n'), S('\n\n')
        E = z3.Empty(SeqS)
        ctx.assume(z3.And(WORDS(0) == E, CUR(0) == S(''), PEND(0) == S(''), MODE(0) == 0, PREV(0) == 0, GAP(0) == 0, CODE(0) == S(''), CODECOL(0) == 0, BLANK(S(''))))

        def expand(t, c0, j):
            return EXP(t, c0, tab, conv, j)

        def width(t, c0):
            return COL(t, c0, tab, z3.Length(t))

        def pick(ctx, t, n):
            for j in range(n - 1):
                if ctx.branch(t == j):
                    return j
            return n - 1

        def word(ctx, k):
            """the state after the word before position k, if any, has been taken in: (words, mode, code, column)"""
            ctx.assume(z3.And(MODE(k) >= 0, MODE(k) <= 2, PREV(k) >= 0, PREV(k) <= 2, GAP(k) >= 0, z3.Or(PREV(k) != 0, GAP(k) == 0)))
            p, w = PEND(k), CUR(k)
            mode = pick(ctx, MODE(k), 3)
            if not ctx.branch(w != S('')):
                return False, WORDS(k), mode, CODE(k), CODECOL(k)
            ws, text, c0 = WORDS(k), CODE(k), CODECOL(k)
            if mode == 0:
                prev = pick(ctx, PREV(k), 3)
                mode = 2 if ctx.branch(z3.And(allow, width(p, z3.IntVal(0)) >= indent)) else 1
                if prev == 2 and mode == 2:
                    ws = REPEAT(ws, GAP(k) + 1)
                elif prev != 0 and (prev != mode or ctx.branch(GAP(k) > 0)):
                    ws = snoc(ws, para)
                text, c0 = S(''), z3.IntVal(0)
            if mode == 1:
                return True, snoc(ws, w), 1, CODE(k), CODECOL(k)
            return True, ws, 2, z3.Concat(text, expand(p, c0, z3.Length(p)), w), width(p, c0) + z3.Length(w)

        def at(ctx, k):
            c = CH(k)
            now['position'] = k
            ctx.assume(z3.Length(c) == 1)
            sp = ISSPACE(c)
            ctx.assume(sp == z3.Or(c == S(' '), c == S('\t'), c == nl))
            if not ctx.branch(sp):
                ctx.assume(CUR(k + 1) == z3.Concat(CUR(k), c))
                for f in (WORDS, PEND, MODE, PREV, GAP, CODE, CODECOL):
                    ctx.assume(f(k + 1) == f(k))
                return SStr(c, kind)
            some, ws, mode, code, col = word(ctx, k)
            ctx.assume(CUR(k + 1) == S(''))
            if ctx.branch(c == nl):
                ctx.assume(PEND(k + 1) == S(''))
                ctx.assume(WORDS(k + 1) == (snoc(ws, code) if mode == 2 else ws))
                prev = pick(ctx, PREV(k), 3)
                ctx.assume(PREV(k + 1) == (mode or prev))
                ctx.assume(GAP(k + 1) == (GAP(k) + 1 if not mode and prev else 0))
                ctx.assume(z3.And(MODE(k + 1) == 0, CODE(k + 1) == S(''), CODECOL(k + 1) == 0))
            else:
                p = c if some else z3.Concat(PEND(k), c)
                ctx.assume(PEND(k + 1) == p)
                ctx.assume(z3.Implies(z3.Or(some, BLANK(PEND(k))), BLANK(p)))
                ctx.assume(z3.And(WORDS(k + 1) == ws, MODE(k + 1) == mode, CODE(k + 1) == code, CODECOL(k + 1) == col, PREV(k + 1) == PREV(k), GAP(k + 1) == GAP(k)))
            return SStr(c, kind)
        s = Words(ctx, kind, at)
        s.pytype = bytes if kind == 'bytes' else str
        now = ctx.ghost

        def main(st):
            return st.view is not None and ctx.holds(M.term(st.view.n) == s.n)

        def rel(st):
            if not main(st):
                return [('inside', z3.BoolVal(True))]
            k = st.k
            out = []
            for m in range(3):
                for p in range(3):
                    out += [((m, p, 0), z3.And(MODE(k) == m, PREV(k) == p, GAP(k) == 0))] + ([((m, p, 1), z3.And(MODE(k) == m, PREV(k) == p, GAP(k) > 0))] if p else [])
            return out + [('none', z3.Or(MODE(k) < 0, MODE(k) > 2, PREV(k) < 0, PREV(k) > 2, GAP(k) < 0, z3.And(PREV(k) == 0, GAP(k) > 0)))]

        def places(st):
            for n, v in sorted(st.frame.locals.items()):
                yield n, v
                if isinstance(v, PObj):
                    for a, x in sorted(v.attrs.items()):
                        yield n + '.' + a, x

        def size(v):
            return M.numterm(M.length(I, v))

        def cands(st):
            out = []
            j = st.k
            if main(st):
                now['position'] = j
                for n, v in places(st):
                    if isinstance(v, PList):
                        t = same_text(I, v, CUR(j))
                        if t is not None:
                            out += [(n + ' is the unfinished word', t), (n + ' are the blanks', same_text(I, v, PEND(j))), (n + ' is the code line', z3.Implies(MODE(j) == 2, same_text(I, v, CODE(j)))),
                                    (n + ' is empty when no word was read', z3.Implies(CUR(j) == S(''), size(v) == 0)),
                                    (n + ' is not empty when one was', z3.Implies(CUR(j) != S(''), size(v) > 0)),
                                    (n + ' are the line breaks since code', z3.Implies(z3.And(MODE(j) == 0, PREV(j) == 2), size(v) == GAP(j) + 1)),
                                    (n + ' is empty between lines', z3.Implies(z3.And(MODE(j) == 0, PREV(j) != 2), size(v) == 0)),
                                    (n + ' is empty in text', z3.Implies(MODE(j) == 1, size(v) == 0))]
                        if v.prefix is None or 'listed' in v.prefix.folds:
                            try:
                                out.append((n + ' are the words so far', z3.And(M.fold_of(I, v, 'listed') == WORDS(j), z3.Length(WORDS(j)) == size(v))))
                            except Unsupported:
                                pass
                    elif isinstance(v, (int, SInt)) and not isinstance(v, bool):
                        out.append((n + ' is the width of the code line', z3.Implies(MODE(j) == 2, M.numterm(v) == CODECOL(j))))
                out += [('blanks', BLANK(PEND(j))), ('a word is no line break', CUR(j) != nl)]
                return out
            # inside write or close: over the blanks before the word, or over the line breaks since the last code line
            K = now['position']
            p = PEND(K)
            ctx.assume(REPEAT(WORDS(K), 0) == WORDS(K))
            ctx.assume(REPEAT(WORDS(K), j + 1) == snoc(REPEAT(WORDS(K), j), nl))
            c = z3.SubString(p, j, 1)
            ctx.assume(z3.Implies(z3.And(BLANK(p), j >= 0, j < z3.Length(p)), z3.Or(c == S(' '), c == S('\t'))))
            for m, c0, text in ((0, z3.IntVal(0), S('')), (2, CODECOL(K), CODE(K))):
                col = COL(p, c0, tab, j)
                stop = tab - col % tab
                ctx.assume(z3.And(COL(p, c0, tab, 0) == c0, expand(p, c0, z3.IntVal(0)) == S('')))
                ctx.assume(z3.Implies(j >= 0, COL(p, c0, tab, j + 1) == z3.If(c == S('\t'), col + stop, col + 1)))
                ctx.assume(z3.Implies(j >= 0, expand(p, c0, j + 1) == z3.Concat(expand(p, c0, j), z3.If(z3.And(conv, c == S('\t')), M.REP(S(' '), stop), c))))
                for n, v in places(st):
                    if isinstance(v, (int, SInt)) and not isinstance(v, bool):
                        out.append((n + f' is the column in the blanks {m}', z3.Implies(MODE(K) == m, M.numterm(v) == COL(p, c0, tab, j))))
                    elif isinstance(v, PList):
                        t = same_text(I, v, z3.Concat(text, expand(p, c0, j)))
                        if t is not None:
                            out.append((n + f' is the line with the blanks {m}', z3.Implies(MODE(K) == m, t)))
                        if m == 0 and (v.prefix is None or 'listed' in v.prefix.folds):
                            try:
                                out.append((n + ' are the words with the line breaks', z3.And(M.fold_of(I, v, 'listed') == REPEAT(WORDS(K), j), z3.Length(REPEAT(WORDS(K), j)) == size(v))))
                            except Unsupported:
                                pass
            return out
        ctx.loops[('*', '*')] = LoopSpec(rel=rel, cands=cands)

        def pieces(ctx, b):
            ctx.prove('the text is taken apart', b is s)
            return s
        ctx.contracts['text._iterate_over_bytes'] = pieces
        k, r = I.outcome(lambda: I.call(T.split_text_with_code, [s], kw))
        ctx.prove('every text can be split', k == 'return')
        if k != 'return':
            return
        some, ws, mode, code, col = word(ctx, s.n)
        q = snoc(ws, code) if mode == 2 else ws
        ctx.prove('the result is a list', isinstance(r, PList))
        ctx.prove('the words and the code lines are those of the text', z3.Or(M.fold_of(I, r, 'listed') == q, z3.And(q == E, M.fold_of(I, r, 'listed') == z3.Unit(S('')))))
        ctx.prove('nothing gives one empty word', z3.Implies(q == E, M.fold_of(I, r, 'listed') == z3.Unit(S(''))))
        ctx.cover(kind)
    PROOFS.append(split)


for kind in ('str', 'bytes'):
    make_split(kind, False, True)
