"""split_delimiters over the contracts of multisplit and of the tables of actions."""
import z3
from pydv.framework import proof
from pydv.ctx import Unsupported
from pydv.values import *
from pydv import models as M
from pydv.models import Hook
from pydv.interp import LoopSpec
import big.text as T

NOTE = ('the scanner is under contract for any text, any nesting depth and any marks: nothing is lost, a piece ends exactly where the table of the innermost open mark says so, closing marks are those of the innermost open mark, '
        'and SyntaxError is raised exactly for an illegal mark or a dangling escape')
ASSUMPTIONS = ['multisplit(keep=AS_PAIRS, separate=True) cuts the text at the separators (T01, T02)']
BOUNDED = ['the tables of actions built from the delimiters: compared with the reference scanner on enumerated and random delimiter sets (see evidence)']
NOT_PROVED = ['_delimiters_to_state_and_tokens: its contract (which action belongs to which token) is assumed in the proofs and decided by the bounded comparison']
PROOFS = []
S = z3.StringVal
L_ = z3.Length
CLOSE, ESCAPE = z3.Function('closing mark of', StringS, StringS), z3.Function('escape of', StringS, StringS)
QUOTING, OPENS = z3.Function('quoting', StringS, BoolS), z3.Function('is an opening mark', StringS, BoolS)
QUAL = 'text.split_delimiters'


class Nest(Hook):
    """the stack, and the ghost state of the scan: the open marks, what has to happen next"""
    pytype = list
    methods = ('append', 'pop')

    def __init__(self, ctx, kind):
        self.serial = ctx.next_serial()
        self.kind = kind
        self.todo = None            # (kind of action, mark): what the text just read demands
        self.havoc(ctx)

    def havoc(self, ctx):
        self.n, self.depth = ctx.fresh(IntS, 'stack'), ctx.fresh(IntS, 'depth')
        self.marks = ctx.fresh(z3.ArraySort(IntS, StringS), 'open marks')
        self.pending, self.left = ctx.fresh(BoolS, 'after an escape'), ctx.fresh(IntS, 'left')
        self.rest = ctx.fresh(StringS, 'rest')

    def m_append(self, ctx, v):
        st, o = v
        ctx.prove('the state is kept for later', isinstance(st, State))
        ctx.prove('the state is kept for later', z3.And(st.depth == self.n, z3.Implies(self.n > 0, st.mark == self.marks[self.n])))
        ctx.touched(self)
        self.n = self.n + 1

    def m_pop(self, ctx, *i):
        if i:
            raise Unsupported('pop from inside the stack')
        if not ctx.branch(self.n > 0):
            ctx.interp.throw(IndexError, 'pop from empty list')
        ctx.touched(self)
        self.n = self.n - 1
        o = None if ctx.choose(2) else SStr(ctx.fresh(StringS, 'open'), self.kind)
        return (State(ctx, self, self.n, self.marks[self.n]), o)

    def idle(self, ctx, what):
        ctx.prove('what a mark demands is done before ' + what, self.todo is None)


class State(Hook):
    """a table of actions: that of the innermost open mark"""
    pytype = dict
    methods = ('get',)

    def __init__(self, ctx, nest, depth, mark):
        self.serial = ctx.next_serial()
        self.nest, self.depth, self.mark = nest, depth, mark

    def m_get(self, ctx, t, d=None):
        g = self.nest
        first = g.todo and g.todo[0] == 'shorter'
        x = M.term(t)
        if first:
            ctx.prove('the table is asked for the shorter mark', x == g.todo[1])
            g.todo = None
        else:
            g.idle(ctx, 'the next mark')
            ctx.prove('the table of the innermost open mark is asked', z3.And(self.depth == g.depth, z3.Implies(g.depth > 0, self.mark == g.marks[g.depth])))
            ctx.prove('a mark right after an escape is text', z3.Not(g.escaped))
        ctx.prove('an unknown mark is text', d == T._ACTION_FLUSH)
        inside, m = self.depth > 0, self.mark
        push = z3.And(OPENS(x), z3.Not(z3.And(inside, QUOTING(m))))
        pop = z3.And(inside, x == CLOSE(m), z3.Not(push))
        esc = z3.And(inside, QUOTING(m), x == ESCAPE(m), z3.Not(pop))
        a = ctx.fresh(StringS, 'shorter mark')
        ctx.assume(z3.Implies(z3.Not(QUOTING(m)), z3.Not(OPENS(CLOSE(m)))))     # refused by the table otherwise
        known = z3.Or(push, pop, esc)
        n = z3.Not(known)
        other = z3.And(n, z3.BoolVal(not first))
        c = ctx.choose(8, [push, pop, esc, other, other, n, z3.And(other, inside), z3.And(other, inside, QUOTING(m))])
        if c == 0:
            g.todo = ('push', x)
            return State(ctx, g, self.depth + 1, x)
        if c == 1:
            g.todo = ('pop', x)
            return T._ACTION_POP
        if c == 2:
            ctx.touched(g)
            g.pending = z3.BoolVal(True)
            return T._ACTION_ESCAPE
        if c in (3, 4):
            g.todo = ('illegal', x)
            return T._ACTION_ILLEGAL if c == 3 else T._ACTION_ILLEGAL_NEWLINE
        if c == 5:
            return d
        ctx.touched(g)
        if c == 6:
            ctx.assume(z3.And(a != S(''), a != x, z3.PrefixOf(a, x), z3.Or(a == CLOSE(m), z3.And(QUOTING(m), a == ESCAPE(m)))))
            g.todo = ('shorter', a)
            g.left = g.left + L_(x) - L_(a)
            return Shorter(ctx, g.kind, a)
        g.left = g.left + L_(x) - 1
        return T._ACTION_FLUSH_1_AND_RESPLIT


class Shorter(Hook):
    def __init__(self, ctx, kind, a):
        self.serial = ctx.next_serial()
        self.a = a
        self.pytype = T._ACTION_TRUNCATE_TO_S_AND_RESPLIT_STR if kind == 'str' else T._ACTION_TRUNCATE_TO_S_AND_RESPLIT_BYTES


class Pieces(Hook):
    """what multisplit has still to deliver"""
    def __init__(self, ctx, nest):
        self.serial = ctx.next_serial()
        self.nest = nest

    def iterate(self, ctx):
        g = self.nest
        n = ctx.int('pieces', 0).t
        lit, sep, rest = (z3.Function(ctx.name(x), IntS, StringS) for x in ('piece', 'mark', 'rest'))
        ctx.assume(z3.And(rest(0) == g.rest, rest(n) == S('')))

        def get(ctx, k):
            g.idle(ctx, 'reading on')
            ctx.prove('the text is read on from where it was left', z3.And(g.rest == rest(k), L_(g.rest) == g.left))
            ctx.assume(rest(k) == z3.Concat(lit(k), sep(k), rest(k + 1)))
            ctx.assume(z3.Implies(k < n - 1, sep(k) != S('')))
            ctx.assume(z3.Implies(k == n - 1, z3.And(sep(k) == S(''), rest(k + 1) == S(''))))
            ctx.touched(g)
            g.rest = rest(k + 1)
            # right after an escape, one character is text
            g.escaped = z3.And(g.pending, lit(k) == S(''), sep(k) != S(''))
            g.left = L_(rest(k + 1)) + z3.If(z3.And(g.escaped, L_(sep(k)) > 1), L_(sep(k)) - 1, 0)
            g.pending = z3.And(g.pending, lit(k) == S(''), sep(k) == S(''))
            return (SStr(lit(k), g.kind), SStr(sep(k), g.kind))
        v = IterView(n, get)
        v.rest = rest
        v.pieces = self
        return v


def scanner(kind):
    @proof(f'scanner, {kind}', [QUAL], budget=300)
    def scan(ctx, I):
        ctx.folds['joined'] = M.JOINED
        lift = (lambda x: x) if kind == 'str' else (lambda x: x.encode())
        text = ctx.str('text', kind)
        g = Nest(ctx, kind)
        tokens = M.Opaque('all tokens')
        ctx.assume(z3.And(g.n >= 0, g.depth == g.n, z3.Not(g.pending), g.left == L_(text.t)))
        current = State(ctx, g, g.depth, g.marks[g.depth])

        def multisplit(ctx, s, separators=None, *, keep=False, maxsplit=-1, reverse=False, separate=False, strip=False):
            ctx.prove('a text is split', M.is_text(s) and M.kind_of(s) == kind)
            ctx.prove('into pairs, at every token, from the left', separators is tokens and keep == T.AS_PAIRS and separate is True and maxsplit in (-1, None) and not reverse and not strip)
            ctx.touched(g)
            g.rest = M.term(s)
            return Pieces(ctx, g)
        ctx.overrides[T.multisplit] = multisplit

        def onyield(ctx, f, v):
            ctx.prove('a piece has three parts', isinstance(v, tuple) and len(v) == 3)
            s, o, c = (M.term(x) for x in v)
            if g.todo is None:
                ctx.prove('a piece without marks is the last', z3.And(o == S(''), c == S(''), s != S('')))
                ctx.prove('the last piece comes at the end', z3.And(g.left == 0, z3.Not(g.pending)))
                return
            what, m = g.todo
            ctx.prove('a piece ends at an opening or closing mark', what in ('push', 'pop'))
            g.todo = None
            ctx.touched(g)
            if what == 'push':
                ctx.prove('the piece tells the opening mark', z3.And(o == m, c == S('')))
                g.depth = g.depth + 1
                g.marks = z3.Store(g.marks, g.depth, m)
            else:
                ctx.prove('the piece tells the closing mark', z3.And(c == m, o == S('')))
                ctx.prove('it is the closing mark of the innermost open mark', z3.And(g.depth > 0, c == CLOSE(g.marks[g.depth])))
                g.depth = g.depth - 1
        ctx.ghost[('yield', QUAL)] = onyield

        def inv(st):
            f = st.frame
            p = st.view.pieces if st.view is not None else st['i']
            if not isinstance(p, Pieces):
                raise Unsupported('what is read')
            rest = g.rest
            cur, buf = st['current'], st['buffer']
            done = M.fold_of(I, f.out, 'joined'), M.fold_of(I, buf, 'joined')
            out = [('nothing is lost', z3.Concat(*done, rest) == text.t), ('where to read on', L_(rest) == g.left),
                   ('the stack follows the open marks', z3.And(g.n == g.depth, g.depth >= 0, cur.depth == g.depth, z3.Implies(g.depth > 0, cur.mark == g.marks[g.depth])))]
            if g.todo is not None:
                out.append(('what a mark demands is done', z3.BoolVal(False)))
            if st.view is not None:
                out.append(('what is left to read', rest == st.view.rest(st.k)))
            return out

        def cands(st):
            out = [('an escape is kept', z3.Implies(g.pending, M.numterm(M.length(I, st['buffer'])) > 0))]
            for x, v in sorted(st.frame.locals.items()):
                if M.is_text(v):
                    out.append((x + ' tells an escape', (M.term(v) != S('')) == g.pending))
                elif isinstance(v, (int, SInt)) and not isinstance(v, bool):
                    out.append((x + ' is the position', M.numterm(v) + g.left == L_(text.t)))
                elif isinstance(v, SBool):
                    out.append((x + ' is false', z3.Not(v.t)))
            return out

        def make(st, path):
            if path[0] == 'local' and len(path) == 2 and path[1] in st:
                v = st[path[1]]
                if isinstance(v, State):
                    return lambda ctx, st: State(ctx, g, ctx.fresh(IntS, 'depth'), ctx.fresh(StringS, 'mark'))
                if isinstance(v, Pieces):
                    return lambda ctx, st: Pieces(ctx, g)
        ctx.loops[('*', '*')] = LoopSpec(inv, cands, make=make)
        convert = Native(lambda I, x: SStr(x.a, kind) if isinstance(x, Shorter) else I.ctx.prove('an action that is a text', False))
        args = [text, tokens, current, g, lift(''), lift('x'), convert]
        k, r = I.outcome(lambda: I.collect(I.call(T._split_delimiters, args)))
        if k == 'raise':
            ctx.prove('only SyntaxError is raised', r.cls is SyntaxError)
            illegal = g.todo is not None and g.todo[0] == 'illegal'
            ctx.cover('illegal' if illegal else 'dangling')
            ctx.prove('SyntaxError means an illegal mark, or nothing after an escape', z3.Or(z3.BoolVal(illegal), z3.And(g.pending, g.left == 0)))
            return
        g.idle(ctx, 'the end')
        ctx.prove('nothing is lost', M.fold_of(I, r, 'joined') == text.t)
        ctx.prove('everything is read', g.left == 0)
        ctx.prove('no escape is left dangling', z3.Not(g.pending))
        ctx.cover('the end')
    PROOFS.append(scan)


scanner('str')
scanner('bytes')


# ------------------------------------------------------------- split_delimiters itself

MARKS = z3.Function('mark of the state', IntS, StringS)


class Table(Hook):
    """the table of the innermost mark of the state read so far"""
    pytype = dict
    methods = ('get',)

    def __init__(self, ctx, g, depth, mark):
        self.serial = ctx.next_serial()
        self.g, self.depth, self.mark = g, depth, mark

    def m_get(self, ctx, t, d=None):
        g, x = self.g, M.term(t)
        ctx.prove('the table of the innermost mark is asked', z3.And(self.depth == g.n, z3.Implies(self.depth > 0, self.mark == g.marks[self.depth])))
        ctx.prove('the marks of the state are taken in order', x == MARKS(g.n))
        if ctx.branch(z3.And(OPENS(x), z3.Not(z3.And(self.depth > 0, QUOTING(self.mark))))):
            return Table(ctx, g, self.depth + 1, x)
        ctx.ghost['refused'] = True
        return [d, T._ACTION_POP, T._ACTION_ILLEGAL, T._ACTION_ESCAPE][ctx.choose(4)]


class Saved(Hook):
    """the stack while the state is read"""
    pytype = list
    methods = ('append',)

    def __init__(self, ctx):
        self.serial = ctx.next_serial()
        self.n, self.marks = z3.IntVal(0), ctx.fresh(z3.ArraySort(IntS, StringS), 'open marks')

    def havoc(self, ctx):
        self.n, self.marks = ctx.fresh(IntS, 'saved'), ctx.fresh(z3.ArraySort(IntS, StringS), 'open marks')

    def m_append(self, ctx, v):
        st, o = v
        ctx.prove('the state is kept for later', isinstance(st, Table))
        ctx.prove('the state is kept for later', z3.And(st.depth == self.n, z3.Implies(self.n > 0, st.mark == self.marks[self.n])))
        ctx.touched(self)
        self.marks = z3.Store(self.marks, self.n + 1, MARKS(self.n))
        self.n = self.n + 1

    def truth(self, ctx):
        return ctx.branch(self.n > 0)

    def length(self, ctx):
        return SInt(self.n)


class Delims(Hook):
    def __init__(self, ctx):
        self.serial = ctx.next_serial()
        self.n, self.slash = ctx.int('delimiters', 0).t, ctx.fresh(BoolS, 'a backslash opens')
        self.pairs = M.Opaque('pairs')
    pytype = dict
    methods = ('items',)

    def truth(self, ctx):
        return ctx.branch(self.n > 0)

    def contains(self, ctx, x):
        if x in ('\\', b'\\'):
            return ctx.branch(self.slash)
        raise Unsupported('in the delimiters')

    def m_items(self, ctx):
        return Items(ctx, self)


class Items(Hook):
    def __init__(self, ctx, d):
        self.serial = ctx.next_serial()
        self.d = d

    def to_tuple(self, ctx):
        return self


class MarksOf(Hook):
    def __init__(self, ctx, n, kind):
        self.serial = ctx.next_serial()
        self.n, self.kind = n, kind
        self.pytype = (str if kind == 'str' else bytes)

    def truth(self, ctx):
        return ctx.branch(self.n > 0)

    def length(self, ctx):
        return SInt(self.n)

    def iterate(self, ctx):
        return IterView(self.n, lambda ctx, k: SStr(MARKS(k), self.kind))


def entry(kind):
    @proof(f'entry, {kind}', ['text.split_delimiters'], budget=100)
    def enter(ctx, I):
        text = ctx.str('text', kind)
        g = Saved(ctx)
        custom = ctx.choose(2)
        delims = Delims(ctx) if custom else None
        tokens = M.Opaque('all tokens')
        n = ctx.int('marks of the state', 0).t
        start = Table(ctx, g, z3.IntVal(0), S(''))
        default = T._split_delimiters_default_delimiters_bytes_cache if kind == 'bytes' else T._split_delimiters_default_delimiters_cache
        end = M.Opaque('the pieces')
        if not custom:
            ctx.assume(n == 0)

        def tables(ctx, pairs, is_bytes):
            ctx.prove('the tables are made for the given delimiters', isinstance(pairs, Items) and pairs.d is delims)
            ctx.prove('and the type of the text', is_bytes is (kind == 'bytes'))
            return (start, tokens)
        ctx.overrides[T._delimiters_to_state_and_tokens] = tables
        ctx.overrides[T._iterate_over_bytes] = lambda ctx, o: o
        ctx.ghost['empty'] = lambda ctx, what: g if what == 'list' else None
        called = []

        def scanner(ctx, s, all_tokens, current, stack, empty, laden, convert):
            called.append(1)
            ctx.prove('the text is scanned', M.term(s) == text.t)
            ctx.prove('the stack holds the marks of the state', stack is g)
            ctx.prove('with texts of its type', M.kind_of(empty) == kind and len(empty) == 0 and M.kind_of(laden) == kind and len(laden) == 1 and convert is (str if kind == 'str' else bytes))
            if custom:
                ctx.prove('at the tokens of the given delimiters', all_tokens is tokens)
                ctx.prove('in the state asked for', isinstance(current, Table))
                ctx.prove('in the state asked for', z3.And(g.n == n, current.depth == n, z3.Implies(n > 0, current.mark == MARKS(n - 1))))
            else:
                ctx.prove('with the tables of the default delimiters', all_tokens is default[1] and current is default[0])
            return end
        ctx.overrides[T._split_delimiters] = scanner

        def cands(st):
            cur = st['current']
            out = [('one saved for each mark', g.n == st.k), ('length', g.n >= 0)]
            if isinstance(cur, Table):
                out += [('the innermost mark', z3.And(cur.depth == g.n, z3.Implies(g.n > 0, z3.And(cur.mark == MARKS(g.n - 1), cur.mark == g.marks[g.n]))))]
            return out

        def make(st, path):
            if path[0] == 'local' and len(path) == 2 and path[1] in st and isinstance(st[path[1]], Table):
                return lambda ctx, st: Table(ctx, g, ctx.fresh(IntS, 'depth'), ctx.fresh(StringS, 'mark'))
        ctx.loops[('*', '*')] = LoopSpec(lambda st: [], cands, make=make)
        args = [text] + ([delims] if custom else [])
        k, r = I.outcome(lambda: I.call(T.split_delimiters, args, {'state': MarksOf(ctx, n, kind)} if custom else {}))
        if k == 'raise':
            ctx.prove('only ValueError is raised', r.cls is ValueError)
            ctx.cover('refused')
            bad = ctx.ghost.get('refused') or custom and ctx.holds(z3.Or(delims.n <= 0, delims.slash))
            ctx.prove('ValueError means no delimiters, a backslash among them, or a mark of the state that does not open', bool(bad))
            return
        ctx.prove('the pieces of the scanner are handed out', r is end and len(called) == 1)
        if custom:
            ctx.prove('delimiters that are not valid are refused', z3.And(delims.n > 0, z3.Not(delims.slash)))
        ctx.cover('scanned')
    PROOFS.append(enter)


entry('str')
entry('bytes')
