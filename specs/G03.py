"""Cycle detection: peeling off the nodes without predecessors, then a depth first walk over the rest."""
from specs.graphlib import *
from specs import G02 as EDITS

NOTE = 'cycle is under contract for any graph: no cycle is reported only if no set of nodes has a predecessor in the set for each of its nodes, and what is reported is a closed walk along edges; the dirty flag is part of the class invariant (kept by add and remove)'
ASSUMPTIONS = FACTS + ['in a finite set of nodes that is not empty one was finished last', 'termination of the walk is not part of the contract']


class Facts:
    """numbers of predecessors outside a set, for the sets met on a path"""
    def __init__(self, ctx, w):
        self.ctx, self.w = ctx, w
        self.seen = []

    def of(self, arr):
        for x, op in self.seen:
            if not callable(x) and x.eq(arr):
                return op
        return self.make(arr, lambda n: arr[n])

    def make(self, key, holds, op=None, zero=True):
        ctx, w = self.ctx, self.w
        new = op is None
        if new:
            op = ctx.fresh(CntS, 'predecessors outside')
        for c in counted(w.N, w.E, holds, lambda n: op[n]):
            ctx.assume(c)
        if new:
            for c in self.least(holds, op):
                ctx.assume(c)
        for x, o in self.seen:
            h = x if callable(x) else (lambda x: lambda n: x[n])(x)
            ctx.assume(z3.Implies(all_(lambda n: h(n) == holds(n)), all_(lambda n: o[n] == op[n])))
        self.seen.append((key, op))
        return op

    def least(self, holds, op):
        u = z3.Function(self.ctx.name('a predecessor outside'), Obj, Obj)
        return [all_(lambda n: z3.Implies(op[n] > 0, z3.And(self.w.E(u(n), n), z3.Not(holds(u(n))))))]


class Path(Hook):
    """a list that never holds a node twice: next to its length, who is in it, where, and after whom"""
    pytype = list
    methods = ('append', 'pop', 'index')

    def __init__(self, ctx, owner=None):
        self.serial = ctx.next_serial()
        self.owner = owner or self
        self.n, self.mem, self.top = z3.IntVal(0), NONE, ctx.fresh(Obj, 'top')
        self.par, self.pos = ctx.fresh(z3.ArraySort(Obj, Obj), 'before'), ctx.fresh(CntS, 'position')
        self.fin, self.rank, self.t = NONE, ctx.fresh(CntS, 'rank'), z3.IntVal(0)

    def havoc(self, ctx):
        for x, s in (('n', IntS), ('mem', SetS), ('top', Obj), ('par', z3.ArraySort(Obj, Obj)), ('pos', CntS), ('fin', SetS), ('rank', CntS), ('t', IntS)):
            setattr(self, x, ctx.fresh(s, 'path ' + x))

    def wf(self):
        return [('length', self.n >= 0), ('positions', all_(lambda x: z3.Implies(self.mem[x], z3.And(0 <= self.pos[x], self.pos[x] < self.n)))),
                ('one at each position', all2(lambda x, y: z3.Implies(z3.And(self.mem[x], self.mem[y], self.pos[x] == self.pos[y]), x == y))),
                ('the last one', z3.Implies(self.n > 0, z3.And(self.mem[self.top], self.pos[self.top] == self.n - 1))),
                ('neighbours', all_(lambda x: z3.Implies(z3.And(self.mem[x], self.pos[x] > 0), z3.And(self.mem[self.par[x]], self.pos[self.par[x]] == self.pos[x] - 1))))]

    def m_append(self, ctx, v):
        x = M.term(v)
        ctx.prove('no node is put on the path twice', z3.Not(self.mem[x]))
        ctx.touched(self.owner)
        self.mem, self.par, self.pos = z3.Store(self.mem, x, True), z3.Store(self.par, x, self.top), z3.Store(self.pos, x, self.n)
        self.top, self.n = x, self.n + 1

    def m_pop(self, ctx, *i):
        if i and i != (-1,):
            raise Unsupported('pop from inside the path')
        if not ctx.branch(self.n > 0):
            ctx.interp.throw(IndexError, 'pop from empty list')
        ctx.touched(self.owner)
        x = self.top
        self.mem, self.top, self.n = z3.Store(self.mem, x, False), self.par[x], self.n - 1
        fin = self.fin[x]
        self.fin, self.rank = z3.Store(self.fin, x, True), z3.Store(self.rank, x, z3.If(fin, self.rank[x], self.t))
        self.t = self.t + 1
        return SObj(x)

    def m_index(self, ctx, v):
        x = M.term(v)
        if not ctx.branch(self.mem[x]):
            ctx.interp.throw(ValueError, 'not in list')
        return SInt(self.pos[x])

    def getitem(self, ctx, i):
        if isinstance(i, slice) and i.stop is None and i.step is None and isinstance(i.start, SInt):
            return Part(ctx, self, i.start.t)
        if i == -1:
            if not ctx.branch(self.n > 0):
                ctx.interp.throw(IndexError, 'list index out of range')
            return SObj(self.top)
        raise Unsupported('item of the path')

    def length(self, ctx):
        return SInt(self.n)

    def truth(self, ctx):
        return ctx.branch(self.n > 0)


class Part(Hook):
    """the end of the path as it was"""
    pytype = list

    def __init__(self, ctx, p, start, pytype=list):
        self.serial = ctx.next_serial()
        self.n, self.mem, self.top, self.par, self.pos, self.start = p.n, p.mem, p.top, p.par, p.pos, start
        self.pytype = pytype

    def to_tuple(self, ctx):
        return Part(ctx, self, self.start, tuple)

    def truth(self, ctx):
        return ctx.branch(self.n > self.start)


class NodesLeft(Hook):
    """an iterator over some nodes nothing was taken from yet"""
    def __init__(self, ctx, key, arr):
        self.serial = ctx.next_serial()
        self.key, self.arr = key, arr

    def iterate(self, ctx):
        raise Unsupported('iterating an iterator')


class Stack(Hook):
    """a list of iterators: one over the nodes to start from, then those over the successors of nodes, never of one node twice"""
    pytype = list
    methods = ('append', 'pop')

    def __init__(self, ctx, first):
        self.serial = ctx.next_serial()
        self.path = Path(ctx, self)
        self.left0, self.left = first, ctx.fresh(RelS, 'left')
        self.root, self.version = z3.BoolVal(True), 0

    def havoc(self, ctx):
        self.path.havoc(ctx)
        self.left0, self.left, self.root = ctx.fresh(SetS, 'left to start from'), ctx.fresh(RelS, 'left'), ctx.fresh(BoolS, 'root')
        self.version += 1

    def some(self):
        return z3.Or(self.root, self.path.n > 0)

    def truth(self, ctx):
        return ctx.branch(self.some())

    def m_append(self, ctx, v):
        if not isinstance(v, NodesLeft) or v.key is None:
            raise Unsupported('this on the stack')
        ctx.touched(self)
        self.version += 1
        self.left = z3.Store(self.left, v.key, v.arr)
        self.path.m_append(ctx, SObj(v.key))

    def m_pop(self, ctx, *i):
        if i and i != (-1,):
            raise Unsupported('pop from inside the stack')
        if not ctx.branch(self.some()):
            ctx.interp.throw(IndexError, 'pop from empty list')
        ctx.touched(self)
        self.version += 1
        if ctx.branch(self.path.n > 0):
            self.path.m_pop(ctx)
        else:
            self.root = z3.BoolVal(False)

    def getitem(self, ctx, i):
        if i != -1:
            raise Unsupported('item of the stack')
        if not ctx.branch(self.some()):
            ctx.interp.throw(IndexError, 'list index out of range')
        return Top(ctx, self, self.version)


class Top(Hook):
    """the iterator on top of the stack"""
    def __init__(self, ctx, stack, version):
        self.serial = ctx.next_serial()
        self.stack, self.version = stack, version

    def next(self, ctx, *d):
        s = self.stack
        if s is None or s.version != self.version:
            raise Unsupported('an iterator that is not on top any more')
        x = ctx.fresh(Obj, 'next')
        inner = ctx.branch(s.path.n > 0)
        left = s.left[s.path.top] if inner else s.left0
        if ctx.choose(2, [left[x], all_(lambda n: z3.Not(left[n]))]):
            if d:
                return d[0]
            ctx.interp.throw(StopIteration)
        ctx.touched(s)
        if inner:
            s.left = z3.Store(s.left, s.path.top, z3.Store(left, x, False))
        else:
            s.left0 = z3.Store(left, x, False)
        return SObj(x)


def setup(ctx, I):
    w = World(ctx, I)
    facts = Facts(ctx, w)
    ctx.ghost['comprehensions are loops'] = ctx.ghost['named sets'] = True
    bad = ctx.fresh(SetS, 'a set of nodes, each with a predecessor in it')
    pr = z3.Function('predecessor in it', Obj, Obj)
    ctx.assume(all_(lambda n: z3.Implies(bad[n], z3.And(w.N(n), bad[pr(n)], w.E(pr(n), n)))))
    ctx.assume(z3.Implies(z3.Not(M.term(w.dirty)), all_(lambda n: z3.Not(bad[n]))))       # the class invariant
    none = facts.of(NONE)
    ctx.assume(all_(lambda n: z3.Implies(w.N(n), none[n] == w.CNT0[n])))

    def empty(ctx, kind):
        if kind == 'dict':
            return Counts(ctx, NONE, ctx.fresh(CntS, 'no counts'))
        if kind == 'set':
            return SSet(ctx, NONE)
        if kind == 'list':
            return Path(ctx)
    ctx.ghost['empty'] = empty

    def it(ctx, o):
        if isinstance(o, Succs):
            return NodesLeft(ctx, o.key, o.arr)
        if isinstance(o, SSet):
            return NodesLeft(ctx, None, o.arr)
    ctx.ghost['iter'] = it

    def stack(ctx, elts):
        if len(elts) == 1 and isinstance(elts[0], NodesLeft) and elts[0].key is None:
            return Stack(ctx, elts[0].arr)
    ctx.ghost['list of'] = stack
    sized = []

    def card(ctx, v):
        x = v.arr if isinstance(v, SSet) else v.dom
        for y in sized:
            for p, q in ((x, y), (y, x)):
                ctx.assume(z3.Implies(z3.And(all_(lambda n: z3.Implies(p[n], q[n])), CARD(p) == CARD(q)), all_(lambda n: p[n] == q[n])))
            ctx.assume(z3.Implies(all_(lambda n: x[n] == y[n]), CARD(x) == CARD(y)))
        sized.append(x)
        return SInt(CARD(x))
    ctx.ghost['card'] = card
    sized.append(w.N0)
    return w, facts, bad


@proof('cycle', ['graph.TopologicalSorter.cycle'], budget=300)
def cycle(ctx, I):
    w, facts, bad = setup(ctx, I)
    N, E = w.N, w.E

    def local(st, t, *names):
        L = st.frame.locals
        for n in names:
            if isinstance(L.get(n), t):
                return L[n]
        raise Unsupported('a local that is not there')

    def peel(st):
        """between two rounds"""
        D, R, C = local(st, SSet, 'done'), local(st, SSet, '_ready', 'ready'), local(st, Counts, 'counts')
        op = facts.of(D.arr)
        ctx.ghost['head'] = D.arr
        return [('counted nodes', all_(lambda n: C.dom[n] == N(n))), ('peeled nodes are nodes', all_(lambda n: z3.Implies(z3.Or(D.arr[n], R.arr[n]), N(n)))),
                ('the next are not peeled yet', all_(lambda n: z3.Not(z3.And(D.arr[n], R.arr[n])))),
                ('counts', all_(lambda n: z3.Implies(N(n), C.val[n] == op[n]))),
                ('the next have no predecessors left', all_(lambda n: z3.Implies(z3.And(N(n), z3.Not(D.arr[n])), R.arr[n] == (op[n] == 0)))),
                ('peeled nodes have none left', all_(lambda n: z3.Implies(D.arr[n], op[n] == 0))),
                ('none of them is on a cycle', all_(lambda n: z3.Not(z3.And(D.arr[n], bad[n]))))]

    def a_round(st):
        v, k = st.view, st.k
        D, C = local(st, SSet, 'done'), local(st, Counts, 'counts')
        others = [x for x in st.frame.locals.values() if isinstance(x, SSet) and x is not D and x is not v.source]
        if not hasattr(v, 'ok'):
            X, arr = D.arr, v.arr
            v.ok = z3.Function(ctx.name('predecessors outside'), IntS, CntS)
            v.X = X
            part = lambda k: lambda n: z3.Or(z3.And(X[n], z3.Not(arr[n])), v.vis(k)[n])
            facts.of(X)
            facts.make(part(z3.IntVal(0)), part(z3.IntVal(0)), v.ok(0))
            facts.make(part(v.n), part(v.n), v.ok(v.n))
            g = v.get

            def get(ctx, k):
                r = g(ctx, k)
                x = v.el(k)
                for j in (k, k + 1):
                    for c in counted(w.N, w.E, part(j), lambda n: v.ok(j)[n]):
                        ctx.assume(c)
                ctx.assume(all_(lambda n: v.ok(k + 1)[n] == v.ok(k)[n] - num(E(x, n))))
                return r
            v.get = get
        if len(others) != 1:
            raise Unsupported('the set of the next nodes')
        R2, X, ok = others[0], v.X, v.ok(k)
        return [('counted nodes', all_(lambda n: C.dom[n] == N(n))), ('counts', all_(lambda n: z3.Implies(N(n), C.val[n] == ok[n]))), ('the next nodes', all_(lambda n: R2.arr[n] == z3.And(N(n), z3.Not(X[n]), ok[n] == 0))),
                ('peeled nodes have no predecessors left', all_(lambda n: z3.Implies(X[n], ok[n] == 0)))]

    def successors(st):
        v, k = st.view, st.k
        C = local(st, Counts, 'counts')
        sets = {n: x for n, x in st.frame.locals.items() if isinstance(x, SSet)}
        if not hasattr(st, 'base'):
            st.base = (C.dom, C.val, {n: x.arr for n, x in sets.items()})
        dom, val, arrs = st.base
        seen = v.vis(k)
        out = [('counted nodes', all_(lambda n: C.dom[n] == dom[n])), ('counts', all_(lambda n: C.val[n] == val[n] - num(seen[n])))]
        for nm, x in sets.items():
            if not x.arr.eq(arrs[nm]):
                out.append(('the next nodes', all_(lambda n: x.arr[n] == z3.Or(arrs[nm][n], z3.And(seen[n], C.val[n] == 0)))))
        return out

    def walk(st):
        S = next(x for x in st.frame.locals.values() if isinstance(x, Stack))
        P = local(st, Path, 'cycle', 'path')
        D, seen = local(st, SSet, 'done'), local(st, SSet, 'seen')
        T = lambda n: z3.And(N(n), z3.Not(D.arr[n]))
        p = S.path
        out = [('path ' + n, f) for n, f in P.wf()]
        out += [('the stack belongs to the path', z3.And(S.root, p.n == P.n, z3.Implies(P.n > 0, p.top == P.top), all_(lambda x: z3.And(p.mem[x] == P.mem[x], z3.Implies(P.mem[x], p.pos[x] == P.pos[x]), z3.Implies(z3.And(P.mem[x], P.pos[x] > 0), p.par[x] == P.par[x]))))),
                ('the path is seen', all_(lambda x: seen.arr[x] == P.mem[x])), ('the path is in the rest', all_(lambda x: z3.Implies(P.mem[x], T(x)))),
                ('the path goes along edges', all_(lambda x: z3.Implies(z3.And(P.mem[x], P.pos[x] > 0), E(P.par[x], x)))),
                ('starts are in the rest', all_(lambda x: z3.Implies(S.left0[x], T(x)))),
                ('successors are left', all2(lambda x, y: z3.Implies(z3.And(P.mem[x], S.left[x][y]), E(x, y)))),
                ('starts are finished', all_(lambda x: z3.Implies(z3.And(T(x), z3.Not(S.left0[x])), z3.Or(P.fin[x], z3.And(P.mem[x], P.pos[x] == 0))))),
                ('successors are finished', all2(lambda x, y: z3.Implies(z3.And(P.mem[x], E(x, y), z3.Not(S.left[x][y])), z3.Or(P.fin[y], z3.And(P.mem[y], P.pos[y] == P.pos[x] + 1))))),
                ('finished after the successors', all2(lambda x, y: z3.Implies(z3.And(P.fin[x], E(x, y)), z3.And(P.fin[y], P.rank[y] < P.rank[x])))),
                ('finished before now', all_(lambda x: z3.Implies(P.fin[x], z3.And(P.rank[x] < P.t, T(x)))))]
        last = ctx.fresh(Obj, 'the one finished last')
        ctx.assume(z3.Implies(z3.Exists([a], T(a)), z3.And(T(last), all_(lambda x: z3.Implies(T(x), P.rank[x] <= P.rank[last])))))
        return out

    def inv(st):
        v = st.view
        L = st.frame.locals
        comp = next((x for n, x in L.items() if n.startswith('$comp')), None)
        if v is None:
            return walk(st) if any(isinstance(x, Stack) for x in L.values()) else peel(st)
        if isinstance(comp, Counts):
            return [('counted so far', all_(lambda n: comp.dom[n] == v.vis(st.k)[n])), ('counts so far', all_(lambda n: z3.Implies(comp.dom[n], comp.val[n] == w.CNT0[n])))]
        if isinstance(comp, SSet):
            return [('without predecessors so far', all_(lambda n: comp.arr[n] == z3.And(v.vis(st.k)[n], w.CNT0[n] == 0)))]
        if getattr(v, 'succs', None) is not None:
            return successors(st)
        if isinstance(getattr(v, 'source', None), SSet):
            return a_round(st)
        raise Unsupported('this loop')

    def make(st, path):
        if path[0] == 'local' and len(path) == 2 and path[1] in st:
            if isinstance(st[path[1]], (Top, NodesLeft)):
                return lambda ctx, st: Top(ctx, None, 0)
            if isinstance(st[path[1]], SSet):
                return lambda ctx, st: SSet(ctx, ctx.fresh(SetS, 'nodes'))
            return parts(w)(st, path)
    ctx.loops[('*', '*')] = LoopSpec(inv, make=make)
    k, r = I.outcome(lambda: I.call(I.getattr(w.graph, 'cycle'), []))
    ctx.prove('cycle never fails', k == 'return')
    ctx.prove('the graph is not changed', z3.And(w.nodes.N == w.N0, w.nodes.E == w.E0, w.nodes.CNT == w.CNT0))
    if r is None:
        ctx.prove('None is only returned for a graph without cycles', all_(lambda n: z3.Not(bad[n])))
        ctx.cover('none')
        return
    if not isinstance(r, Part):
        raise Unsupported('the cycle returned')
    ctx.prove('the cycle is a tuple', r.pytype is tuple)
    ctx.prove('the cycle is not empty', z3.And(0 <= r.start, r.start < r.n))
    ctx.prove('each node has an edge to the next', all_(lambda x: z3.Implies(z3.And(r.mem[x], r.pos[x] > r.start), E(r.par[x], x))))
    ctx.prove('the last node has an edge to the first', all_(lambda x: z3.Implies(z3.And(r.mem[x], r.pos[x] == r.start), E(r.top, x))))
    ctx.prove('a graph with a cycle stays unchecked', dirty(w))
    ctx.cover('cycle')


def cycle_contract(ctx, w, bad):
    found = ctx.ghost['found'] = []

    def cycle(ctx, g):
        ctx.prove('the graph is the one checked', g is w.graph)
        d = dirty(w)
        if ctx.choose(2):
            # a cycle: only in a graph that may have one
            ctx.assume(d)
            w.graph.attrs['dirty'] = True
            t = PObj(ctx, CycleFound, {})
            found.append(t)
            return t
        ctx.assume(all_(lambda n: z3.Not(bad[n])))
        w.graph.attrs['dirty'] = False
        return None
    ctx.contracts['graph.TopologicalSorter.cycle'] = cycle
    return found


class CycleFound:
    """some tuple that is not empty"""


def reported(ctx, found, r):
    ctx.prove('a cycle was found', len(found) > 0)
    ctx.prove('it is raised as a CycleError', r.cls is CycleError)
    ctx.prove('the error carries the cycle', len(found) > 0 and any(x is found[-1] for x in r.args))


@proof('check for cycles', ['graph.TopologicalSorter.check_for_cycles'])
def check(ctx, I):
    w, facts, bad = setup(ctx, I)
    found = cycle_contract(ctx, w, bad)
    k, r = I.outcome(lambda: I.call(I.getattr(w.graph, 'check_for_cycles'), []))
    if k == 'raise':
        ctx.cover('cyclic')
        return reported(ctx, found, r)
    ctx.prove('no cycle was found', not found)
    ctx.prove('a graph without cycles', all_(lambda n: z3.Not(bad[n])))
    ctx.cover('acyclic')


@proof('ready refuses a cyclic graph', ['graph.TopologicalSorter.View.ready', 'graph.TopologicalSorter.check_for_cycles'])
def ready(ctx, I):
    w, facts, bad = setup(ctx, I)
    found = cycle_contract(ctx, w, bad)
    v, s, op = w.view()
    loops(ctx, v)
    for n in ('comprehensions are loops', 'named sets', 'empty', 'iter', 'list of'):
        ctx.ghost.pop(n)
    k, r = I.outcome(lambda: I.call(I.getattr(v, 'ready'), []))
    prove_all(ctx, [])
    if k == 'raise':
        prove_all(ctx, State(v).same(s))
        if r.cls is RuntimeError:
            ctx.prove('only a conflict raises RuntimeError', w.conflicted(s))
            return
        ctx.cover('cyclic')
        return reported(ctx, found, r)
    ctx.prove('no cycle was found', not found)
    ctx.prove('nodes are only returned for a graph without cycles', all_(lambda n: z3.Not(bad[n])))
    ctx.cover('acyclic')


PROOFS = [EDITS.add, EDITS.remove]
