"""merge_columns: any number of columns of any number of lines; one arbitrary line of every column is followed through the bookkeeping of overflows."""
import ast
import sys
import z3
from pydv.framework import proof
from pydv.ctx import Unsupported
from pydv.values import *
from pydv import models as M
from pydv.models import Hook
from pydv.interp import LoopSpec
import big.text as T

NOTE = ('merge_columns is under contract for any number of columns, lines, widths, any separator and any overflow margins, for each strategy: which lines are held is decided for one arbitrary line, '
        'the rows by a recursion over rows and columns; RAISE raises OverflowError exactly when a line is too long')
ASSUMPTIONS = ['a column has fewer than sys.maxsize lines, none of them contains a line break', 'the margins around overflows and the widths are not negative',
               'str.rstrip, str.split and str.join do what the Python documentation says']
PROOFS = []
TextS = z3.DeclareSort('Text')
CAT, PAD = z3.Function('cat', TextS, TextS, TextS), z3.Function('ljust', TextS, IntS, TextS)
BLANKS = z3.Function('blanks', IntS, TextS)
LITERAL = {'': z3.Const('empty text', TextS), ' ': z3.Const('blank', TextS), '\n': z3.Const('line break', TextS)}
AI, AS = z3.ArraySort(IntS, IntS), z3.ArraySort(IntS, TextS)
F = z3.Function
NLINES, WIDTH = F('lines', IntS, IntS), F('width', IntS, IntS)
RS, HELD = F('line without trailing whitespace', IntS, IntS, TextS), F('held', IntS, IntS, BoolS)
LEN = F('length of the line', IntS, IntS, IntS)
LASTO, RUN, FLUSHED, HIT = F('last overflow', IntS, IntS, IntS), F('start of the run', IntS, IntS, IntS), F('last overflow before the run', IntS, IntS, IntS), F('near an overflow', IntS, IntS, BoolS)
QB = F('positions in the row', IntS, IntS, AI)
TEXT = F('row so far', IntS, IntS, TextS)
ANY, STOP = F('some column goes on', IntS, IntS, BoolS), F('the rest is held', IntS, IntS, BoolS)
ROWS = F('rows joined', IntS, TextS)
RSTRIP = F('rstrip', TextS, TextS)
START = z3.K(IntS, z3.IntVal(0))
FIELDS = {'n': IntS, 'A': AI, 'B': AI, 'm': IntS, 'arr': AS, 'J': TextS, 'NL': TextS, 'p': IntS, 'dry': BoolS, 'pos': AI, 'row': IntS}


class Text(Hook):
    """a text whose characters do not matter"""
    methods = ('rstrip', 'ljust')

    def __init__(self, ctx, w, t, n=None):
        self.serial = ctx.next_serial()
        self.w, self.t, self.n = w, t, n
        self.pytype = w.pytype

    def length(self, ctx):
        return SInt(self.n) if self.n is not None else ctx.int('length', 0)

    def contains(self, ctx, x):
        if x in ('\n', b'\n') and not isinstance(x, SV) and self.n is not None:
            return False
        raise Unsupported('in a text')

    def m_rstrip(self, ctx):
        return Text(ctx, self.w, RSTRIP(self.t))

    def m_ljust(self, ctx, n, *fill):
        if fill not in ((), (' ',), (b' ',)):
            raise Unsupported('ljust')
        return Text(ctx, self.w, PAD(self.t, M.numterm(n)))


def is_text(v):
    return isinstance(v, (Text, str, bytes))


def text(v):
    if isinstance(v, Text):
        return v.t
    v = v if isinstance(v, str) else v.decode('latin-1')
    if v not in LITERAL:
        raise Unsupported('a literal text')
    return LITERAL[v]


class World:
    def __init__(self, ctx, kind, strategy):
        self.kind, self.strategy = kind, strategy
        self.pytype = str if kind == 'str' else bytes
        self.phase, self.c = 0, None
        self.L = ctx.fresh(IntS, 'some line')
        self.N = ctx.int('columns', 1).t
        self.before, self.after = ctx.int('before', 0), ctx.int('after', 0)
        self.sep = Text(ctx, self, ctx.fresh(TextS, 'separator'))
        ctx.assume(self.L >= 0)

    def over(self, c, k):
        return LEN(c, k) > WIDTH(c)

    def overp(self, c, k):
        return z3.And(k > 0, self.over(c, k - 1))

    def cell(self, c, k):
        return z3.If(HELD(c, k), RS(c, k), PAD(RS(c, k), WIDTH(c)))

    def base(self, ctx, c):
        """the state before the first line of column c"""
        ctx.assume(z3.And(LASTO(c, 0) == -1, FLUSHED(c, 0) == -1, z3.Not(HIT(c, 0)), NLINES(c) >= 0, NLINES(c) < sys.maxsize, WIDTH(c) >= 0))
        n, L = NLINES(c), self.L
        near = HIT(c, n) if self.strategy != 'delay' else z3.And(LASTO(c, n) >= 0, L <= LASTO(c, n) + self.after.t)
        ctx.assume(HELD(c, L) == near)

    def step(self, ctx, c, k):
        o, op, L = self.over(c, k), self.overp(c, k), self.L
        ctx.assume(LASTO(c, k + 1) == z3.If(o, k, LASTO(c, k)))
        ctx.assume(z3.Implies(o, RUN(c, k + 1) == z3.If(op, RUN(c, k), k)))
        ctx.assume(FLUSHED(c, k + 1) == z3.If(z3.And(o, op), FLUSHED(c, k), LASTO(c, k)))
        ctx.assume(HIT(c, k + 1) == z3.Or(HIT(c, k), z3.And(o, L - self.after.t <= k, k <= L + self.before.t)))


def free(t):
    """a number that is not measured from a text"""
    return not (z3.is_app(t) and (t.decl().kind() == z3.Z3_OP_SEQ_LENGTH or t.decl().name() in ('width', 'minimum', 'length of the line') or not all(free(x) for x in t.children())))


def max0(x):
    return z3.If(x > 0, x, z3.IntVal(0))


class List(Hook):
    """a list that starts empty, in all the roles the function has lists for"""
    pytype = list
    methods = ('append', 'pop', 'clear', 'reverse', 'extend')

    def __init__(self, ctx, w, key):
        self.serial = ctx.next_serial()
        self.w, self.key, self.born = w, key, w.phase
        for x, s in FIELDS.items():
            setattr(self, x, ctx.fresh(s, 'list ' + x))
        self.n, self.m, self.p, self.dry, self.J, self.NL, self.pos, self.row = z3.IntVal(0), z3.IntVal(0), z3.IntVal(0), z3.BoolVal(False), LITERAL[''], LITERAL[''], START, z3.IntVal(-1)
        self.rev = False

    def havoc(self, ctx):
        for x, s in FIELDS.items():
            if not self.rev or x in ('p', 'dry'):       # of a reversed list, intervals are only taken
                setattr(self, x, ctx.fresh(s, 'list ' + x))
        ctx.assume(z3.And(0 <= self.p, self.p <= self.n))
        if not self.rev:
            self.p, self.dry = z3.IntVal(0), z3.BoolVal(False)
        self.facts(ctx, self.p, self.p - 1, self.p - 2, self.n - 1, self.n - 2, self.m)

    def facts(self, ctx, *js):
        """what every change of the intervals has been shown to keep"""
        L = self.w.L
        if 'pairs' not in self.known():
            return
        ctx.assume(z3.And(0 <= self.m, self.m <= self.n))
        for j in js:
            ctx.assume(z3.Implies(z3.And(0 <= j, j < self.n), z3.And(
                0 <= self.A[j], self.A[j] <= self.B[j], (j < self.m) == (self.B[j] < L), z3.Implies(j > self.m, self.A[j] > L), z3.Implies(j + 1 < self.n, self.B[j] + 1 < self.A[j + 1]))))

    def holds(self):
        """does an interval contain the line?"""
        return z3.And(self.m < self.n, self.A[self.m] <= self.w.L)

    def role(self, r):
        self.w.kinds.setdefault(self.key, set()).add(r)

    def known(self):
        return self.w.kinds.get(self.key, set())

    def m_append(self, ctx, v):
        w = self.w
        c = w.c
        if self.rev is None:
            raise Unsupported('some list of an earlier round')
        if w.phase == 2:
            if isinstance(v, Iter):
                self.role('iterators')
                ctx.prove('an iterator for every column, in order', v.c == self.n)
                self.pos = z3.Store(self.pos, v.c, 0)
            elif is_text(v):
                self.role('texts')
                t = text(v)
                self.J = CAT(self.J, t)
                self.NL = z3.If(self.n == 0, t, CAT(CAT(self.NL, LITERAL['\n']), t))
            else:
                raise Unsupported('a list of these')
        elif isinstance(v, tuple) and len(v) == 2 and is_text(v[0]):
            self.role('cells')
            ctx.prove('the cells are made in order', z3.Implies(self.n == w.L, self.n < NLINES(c)))
            ctx.prove('a line is held where an overflow is near', z3.Implies(self.n == w.L, M.term(v[1]) == HELD(c, w.L)))
            ctx.prove('a cell is the line, padded unless it is held', z3.Implies(self.n == w.L, text(v[0]) == w.cell(c, w.L)))
        elif isinstance(v, tuple) and len(v) == 2:
            self.role('pairs')
            if self.rev:
                raise Unsupported('append to a reversed list')
            a, b = M.numterm(v[0]), M.numterm(v[1])
            self.facts(ctx, self.n - 1)
            ctx.prove('an interval is not empty', z3.And(0 <= a, a <= b))
            ctx.prove('the intervals are in order and apart', z3.Implies(self.n > 0, self.B[self.n - 1] + 1 < a))
            m = z3.If(z3.And(b < w.L, self.m == self.n), self.n + 1, self.m)
            ctx.touched(self)
            self.A, self.B, self.m = z3.Store(self.A, self.n, a), z3.Store(self.B, self.n, b), m
        elif isinstance(v, List):
            self.role('columns')
            ctx.prove('a column for each of the given', z3.And(self.n == c, z3.BoolVal('cells' in v.known() or ctx.holds(v.n == 0))))
            ctx.prove('a column has all its lines', v.n == NLINES(c))
            if w.strategy == 'raise':
                ctx.prove('with RAISE, no line is too long', LASTO(c, NLINES(c)) == -1)
        elif is_text(v):
            self.role('texts')
            if self.born == 0:
                ctx.prove('what stands for a column that ended', z3.And(self.n == c, text(v) == BLANKS(WIDTH(c))))
            self.arr = z3.Store(self.arr, self.n, text(v))
        else:
            raise Unsupported('a list of these')
        ctx.touched(self)
        self.n = self.n + 1

    def m_pop(self, ctx, *i):
        if i and i != (-1,):
            raise Unsupported('pop from inside')
        if not self.truth(ctx):
            ctx.interp.throw(IndexError, 'pop from empty list')
        ctx.touched(self)
        if self.rev:
            j = self.p
            self.p = self.p + 1
        else:
            j = self.n - 1
            self.m = z3.If(self.m > j, j, self.m)
            self.n = j
        return (SInt(self.A[j]), SInt(self.B[j]))

    def m_clear(self, ctx):
        ctx.touched(self)
        if self.rev:
            raise Unsupported('clear of a reversed list')
        self.__init__(ctx, self.w, self.key)

    def m_reverse(self, ctx):
        ctx.touched(self)
        if self.rev is not False:
            raise Unsupported('reversed again')
        self.rev = True

    def getitem(self, ctx, i):
        if isinstance(i, slice):
            if i.start not in (None, 0) or i.step not in (None, 1) or 'texts' not in self.known():
                raise Unsupported('slice of a list')
            stop = M.numterm(i.stop)
            ctx.prove('the slice ends where it may', stop >= 0)
            r = List(ctx, self.w, self.key)
            r.born, r.arr, r.n = self.born, self.arr, z3.If(stop < self.n, stop, self.n)
            return r
        if i in (-1, 0) and self.rev is False and 'pairs' in self.known():
            if not ctx.branch(self.n > 0):
                ctx.interp.throw(IndexError, 'list index out of range')
            j = self.n - 1 if i == -1 else z3.IntVal(0)
            self.facts(ctx, j, j - 1)
            return (SInt(self.A[j]), SInt(self.B[j]))
        raise Unsupported('item of a list')

    def length(self, ctx):
        return SInt(self.n - self.p)

    def truth(self, ctx):
        self.facts(ctx, self.p, self.p - 1, self.n - 1)
        if ctx.branch(self.n > self.p):
            return True
        if self.rev is None:
            raise Unsupported('some list of an earlier round')
        if self.rev:
            ctx.touched(self)
            self.dry = z3.BoolVal(True)
        return False

    def iterate(self, ctx):
        w = self.w
        known = self.known()
        if self.rev is None:
            raise Unsupported('some list of an earlier round')
        if 'columns' in known:
            w.phase, w.view = 2, 'list'
            return IterView(self.n, lambda ctx, k: Column(ctx, w, k))
        if 'iterators' in known:
            g = self
            w.view = 'iterators'
            ctx.touched(g)
            ctx.assume(g.row >= -1)
            r = g.row = w.now = g.row + 1
            e = LITERAL['']
            ctx.assume(z3.And(TEXT(r, 0) == e, z3.Not(ANY(r, 0)), z3.Not(STOP(r, 0)), QB(r, 0) == z3.If(r > 0, QB(r - 1, w.N), START)))
            ctx.assume(z3.And(ROWS(0) == e, ROWS(r + 1) == z3.If(r == 0, RSTRIP(TEXT(r, w.N)), CAT(CAT(ROWS(r), LITERAL['\n']), RSTRIP(TEXT(r, w.N))))))

            def get(ctx, k):
                w.col = k
                P = QB(r, k)
                at = P[k]
                ctx.assume(z3.And(0 <= at, NLINES(k) >= 0))
                has = at < NLINES(k)
                cell = z3.If(has, w.cell(k, at), BLANKS(WIDTH(k)))
                stop = z3.And(has, HELD(k, at))
                text = CAT(z3.If(k > 0, CAT(TEXT(r, k), w.sep.t), TEXT(r, k)), cell)
                ctx.assume(z3.Implies(z3.Not(STOP(r, k)), z3.And(TEXT(r, k + 1) == text, ANY(r, k + 1) == z3.Or(ANY(r, k), has), STOP(r, k + 1) == stop,
                                                               QB(r, k + 1) == z3.If(has, z3.Store(P, k, at + 1), P))))
                # columns to the right of a held line take no part in the row
                ctx.assume(z3.Implies(STOP(r, k + 1), z3.And(TEXT(r, w.N) == TEXT(r, k + 1), ANY(r, w.N) == ANY(r, k + 1), QB(r, w.N) == QB(r, k + 1))))
                return Iter(ctx, w, k, g)
            return IterView(self.n, get)
        if self.born == 0 and 'texts' in known:
            return IterView(self.n, lambda ctx, k: Text(ctx, w, BLANKS(WIDTH(k))))
        arr = self.arr
        w.view = 'list'
        return IterView(self.n, lambda ctx, k: Text(ctx, w, arr[k]))


class Column(Hook):
    pytype = list

    def __init__(self, ctx, w, c):
        self.serial = ctx.next_serial()
        self.w, self.c = w, c


class Iter(Hook):
    """an iterator over the cells of a column: where it is is kept for all columns at once"""
    def __init__(self, ctx, w, c, at=None):
        self.serial = ctx.next_serial()
        self.w, self.c, self.at = w, c, at

    def next(self, ctx, *d):
        w, g, c = self.w, self.at, self.c
        if g is None:
            raise Unsupported('an iterator that is not in a list')
        at = g.pos[c]
        if not ctx.branch(at < NLINES(c)):
            if d:
                return d[0]
            ctx.interp.throw(StopIteration)
        ctx.touched(g)
        g.pos = z3.Store(g.pos, c, at + 1)
        return (Text(ctx, w, w.cell(c, at)), SBool(HELD(c, at)))


class Given(Hook):
    """the columns as given"""
    pytype = tuple

    def __init__(self, ctx, w):
        self.serial = ctx.next_serial()
        self.w = w

    def length(self, ctx):
        return SInt(self.w.N)

    def truth(self, ctx):
        return True

    def at(self, ctx, c):
        w = self.w
        return (Source(ctx, w, c, ctx.choose(2)), SInt(F('minimum', IntS, IntS)(c)), SInt(WIDTH(c)))

    def getitem(self, ctx, i):
        if i == 0:
            return (Source(ctx, self.w, z3.IntVal(0), False), SInt(F('minimum', IntS, IntS)(0)), SInt(WIDTH(0)))
        raise Unsupported('one of the columns')

    def iterate(self, ctx):
        def get(ctx, c):
            w = self.w
            w.phase, w.c = 1, c
            w.base(ctx, c)
            return self.at(ctx, c)
        return IterView(self.w.N, get)


class Source(Hook):
    """a text, or the list of its lines"""
    methods = ('rstrip', 'split')

    def __init__(self, ctx, w, c, listed, stripped=False):
        self.serial = ctx.next_serial()
        self.w, self.c, self.listed, self.stripped = w, c, listed, stripped
        self.pytype = list if listed else str if w.kind == 'str' else bytes

    def m_rstrip(self, ctx):
        return Source(ctx, self.w, self.c, False, True)

    def m_split(self, ctx, sep=None):
        w = self.w
        ctx.prove('a text is cut into lines', sep in ('\n', b'\n') and not isinstance(sep, SV))
        ctx.prove('trailing whitespace of a text is dropped', self.stripped)
        return Source(ctx, w, self.c, True)

    def length(self, ctx):
        if not self.listed:
            raise Unsupported('length of a text')
        return SInt(NLINES(self.c))

    def iterate(self, ctx):
        w, c = self.w, self.c
        if not self.listed:
            raise Unsupported('characters of a text')
        w.view = 'scan'

        def get(ctx, k):
            w.step(ctx, c, k)
            ctx.ghost['line'] = k
            return Line(ctx, w, c, k)
        return IterView(NLINES(c), get)


class Line(Hook):
    methods = ('rstrip',)

    def __init__(self, ctx, w, c, k):
        self.serial = ctx.next_serial()
        self.w, self.c, self.k = w, c, k
        self.pytype = w.pytype

    def m_rstrip(self, ctx):
        ctx.assume(LEN(self.c, self.k) >= 0)
        return Text(ctx, self.w, RS(self.c, self.k), LEN(self.c, self.k))


def make(kind, strategy):
    kinds = {}

    @proof(f'{kind}, {strategy}', ['text.merge_columns'], budget=360)
    def merge(ctx, I):
        w = World(ctx, kind, strategy)
        w.kinds = kinds
        w.made, w.roles, w.view = {}, {}, None
        w.rows = None
        given = Given(ctx, w)

        def empty(ctx, what):
            if what != 'list':
                return None
            i = w.made[w.phase] = w.made.get(w.phase, 0) + 1
            return List(ctx, w, (w.phase, i))
        ctx.assume(ROWS(0) == LITERAL[''])
        ctx.ghost['empty'] = empty
        ctx.ghost['comprehensions are loops'] = True

        def it(ctx, o):
            if isinstance(o, Column):
                return Iter(ctx, w, o.c)
        ctx.ghost['iter'] = it

        def join(ctx, sep, l):
            if isinstance(l, List) and 'texts' in l.known() and not isinstance(sep, SV):
                if sep in ('', b''):
                    return Text(ctx, w, l.J)
                if sep in ('\n', b'\n'):
                    return Text(ctx, w, l.NL)
        ctx.ghost['join'] = join

        def repeat(ctx, x, n):
            if x in (' ', b' ') and not isinstance(x, SV):
                return Text(ctx, w, BLANKS(M.numterm(n)))
        ctx.ghost['repeat'] = repeat

        def make(st, path):
            if path[0] == 'local' and len(path) == 2 and path[1] in st and isinstance(st[path[1]], List):
                o = st[path[1]]

                def fresh(ctx, st):
                    r = List(ctx, w, o.key)
                    r.born, r.rev = o.born, None        # which list it is is not known: it is not to be used before it is made anew
                    r.havoc(ctx)
                    return r
                return fresh
            if path[0] == 'local' and len(path) == 2 and path[1] not in st and st.view is not None:
                # an index the loop counts with: it has a value as soon as the loop ran
                t, e = st.node.target, getattr(st.node, 'iter', None)
                if isinstance(t, ast.Tuple) and isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'enumerate' and len(e.args) == 1 and isinstance(t.elts[0], ast.Name) and t.elts[0].id == path[1]:
                    return lambda ctx, st: SInt(st.k - 1) if ctx.branch(st.k > 0) else M.UNBOUND

        def cands(st):
            out = []
            k, c, L = st.k, w.c, w.L
            f = sorted(st.frame.locals.items())
            lists = [(x, v) for x, v in f if isinstance(v, List)]
            if id(st.node) not in w.roles:
                w.roles[id(st.node)], w.view = w.view, None
            role = w.roles[id(st.node)]
            for x, v in lists:
                out.append((x + ' length', v.n >= 0))
                if k is not None:
                    out.append((x + ' has one for each', v.n == k))
                if v.born == 0 or 'iterators' in v.known():
                    out.append((x + ' has one for each column', v.n == w.N))
            if w.phase == 1:
                for x, v in lists:
                    if v.born and 'texts' in v.known():
                        out.append((x + ' has every line', v.n >= NLINES(c)))
                        out.append((x + ' has the line', z3.Implies(z3.And(L < v.n, L < NLINES(c)), v.arr[L] == RS(c, L))))
            if role == 'scan':
                o = w.overp(c, k)
                begin = max0(RUN(c, k) - w.before.t)
                out += [('flushed', z3.And(-1 <= FLUSHED(c, k), FLUSHED(c, k) <= LASTO(c, k), LASTO(c, k) < k)),
                        ('in a run', z3.Implies(o, z3.And(FLUSHED(c, k) < RUN(c, k), 0 <= RUN(c, k), RUN(c, k) < k, LASTO(c, k) == k - 1))),
                        ('outside', z3.Implies(z3.Not(o), FLUSHED(c, k) == LASTO(c, k)))]
                if w.strategy == 'raise':
                    out += [('nothing is too long', z3.And(LASTO(c, k) == -1, z3.Not(HIT(c, k)))), ('no line before was too long', z3.Not(o))]
                for x, v in lists:
                    if v.born and 'pairs' in v.known():
                        last = v.B[v.n - 1]
                        out += [(x + ' holds what is near', HIT(c, k) == z3.Or(v.holds(), z3.And(o, begin <= L, L <= k - 1 + w.after.t))),
                                (x + ' ends after the last overflow', z3.And((v.n > 0) == (FLUSHED(c, k) >= 0), z3.Implies(v.n > 0, z3.And(last == FLUSHED(c, k) + w.after.t, v.A[v.n - 1] <= max0(FLUSHED(c, k) - w.before.t)))))]
                for x, v in f:
                    if isinstance(v, (bool, SBool)):
                        out.append((x + ' overflow', M.term(v) == o))
                    elif v is None or isinstance(v, (int, SInt)) and free(M.numterm(v)):
                        is_ = (lambda t: z3.BoolVal(False)) if v is None else (lambda t: M.numterm(v) == t)
                        out += [(x + ' starts the run', z3.Implies(o, is_(begin))), (x + ' ends the last run', z3.Implies(FLUSHED(c, k) >= 0, is_(FLUSHED(c, k) + w.after.t)))]
            elif role == 'list' and w.phase == 1:
                for x, v in lists:
                    if v.rev:
                        out += [(x + ' the intervals before are over', z3.And(z3.Implies(v.p >= 2, v.B[v.p - 2] < k), z3.Implies(v.dry, z3.And(v.p == v.n, z3.Implies(v.p >= 1, v.B[v.p - 1] < k))), z3.Implies(z3.Not(v.dry), v.p >= 1))),
                                (x + ' the interval is not over', z3.Or(v.dry, v.B[v.p - 1] >= k - 1))]
                        for y, b in f:
                            if isinstance(b, (bool, SBool)):
                                out.append((y + ' in ' + x, M.term(b) == z3.And(z3.Not(v.dry), v.A[v.p - 1] <= k - 1)))
                            elif isinstance(b, (int, SInt)) and free(M.numterm(b)):
                                t = M.numterm(b)
                                out += [(y + ' begins in ' + x, t == z3.If(v.dry, sys.maxsize, v.A[v.p - 1])), (y + ' ends in ' + x, t == z3.If(v.dry, sys.maxsize, v.B[v.p - 1]))]
            if w.phase == 2:
                g = w.rows = next((v for x, v in lists if 'iterators' in v.known()), w.rows)
            if w.phase == 2 and g is not None:
                r = g.row
                out += [('row', r >= -1), ('positions', g.pos == z3.If(r >= 0, QB(r, w.N), START)), ('all start', z3.And(r == -1, g.pos == START))]
                for x, v in lists:
                    if v.born and 'texts' in v.known():
                        out += [(x + ' collects the rows', z3.And(v.NL == ROWS(v.n), v.n == r + 1)), (x + ' collects the rows before', z3.And(v.NL == ROWS(v.n), v.n == r))]
                if role == 'iterators':
                    out += [('the row', r == w.now), ('positions in the row', g.pos == QB(r, k)), ('nothing is held yet', z3.Not(STOP(r, k)))]
                    for x, v in lists:
                        if v.born and 'texts' in v.known():
                            out.append((x + ' collects the row', v.J == TEXT(r, k)))
                    for x, v in f:
                        if isinstance(v, (bool, SBool)):
                            b = M.term(v)
                            out += [(x + ' is false', z3.Not(b)), (x + ' not the first', b == (k > 0)), (x + ' the first', b == (k == 0)), (x + ' some', b == ANY(r, k)), (x + ' none', b == z3.Not(ANY(r, k)))]
            return out
        ctx.loops[('*', '*')] = LoopSpec(lambda st: [], cands, make=make)
        kw = {'overflow_strategy': dict(zip(('raise', 'intrude', 'delay'), (T.OverflowStrategy.RAISE, T.OverflowStrategy.INTRUDE_ALL, T.OverflowStrategy.DELAY_ALL)))[strategy],
              'overflow_before': w.before, 'overflow_after': w.after}
        if ctx.choose(2):
            kw['column_separator'] = w.sep
        else:
            ctx.assume(w.sep.t == LITERAL[' '])
        k, r = I.outcome(lambda: I.call(T.merge_columns, [M.StarArgs(given)], kw))
        if k == 'raise':
            ctx.prove(f'only OverflowError, only with RAISE, not {r.cls.__name__}' if r.cls is not OverflowError else 'only OverflowError, only with RAISE', r.cls is OverflowError and strategy == 'raise')
            ctx.cover('too long')
            c = w.c
            some = ctx.ghost.get('line')
            ctx.prove('OverflowError means a line is too long', some is not None and w.over(c, some))
            return
        g = w.rows
        if g is None:
            raise Unsupported('no rows')
        ctx.prove('the rows, without trailing whitespace', text(r) == RSTRIP(ROWS(g.row)))
        ctx.prove('the rows end where every column has ended', z3.Not(ANY(g.row, w.N)))
        ctx.prove('a text of the same type', r.pytype is w.pytype)
        ctx.cover('merged')
    PROOFS.append(merge)


for kind in ('str', 'bytes'):
    for strategy in ('raise', 'intrude', 'delay'):
        make(kind, strategy)
