"""Copies, new views, reset and close: what they hold, and that nothing is shared."""
from collections import defaultdict
from specs.graphlib import *

ASSUMPTIONS = FACTS + ['the view new views are copied from never returns a node: nothing but new views and reset uses it']
PROOFS = []
V = 'graph.TopologicalSorter.View.'
HOLDS = ('_predecessors', '_ready', '_yielded', '_done', '_conflicts', '_reverse_conflicts')


def same_state(ctx, t, s):
    for n, x, y in (('returned nodes', t.Y, s.Y), ('done nodes', t.D, s.D), ('ready nodes', t.R, s.R), ('counted nodes', t.PD, s.PD), ('nodes in conflict', t.CD, s.CD), ('nodes in reverse conflict', t.RD, s.RD)):
        ctx.prove('the ' + n + ' are the same', all_(lambda n: x[n] == y[n]))
    ctx.prove('the counters are the same', all_(lambda n: z3.Implies(s.PD[n], t.PV[n] == s.PV[n])))
    ctx.prove('the conflicts are the same', all2(lambda p, n: t.C[p][n] == s.C[p][n]))
    ctx.prove('the reverse conflicts are the same', all2(lambda p, n: t.RC[p][n] == s.RC[p][n]))


def making(ctx, I):
    """the containers a view is made with"""
    ctx.overrides[defaultdict] = lambda ctx, *a: Rel(ctx, NONE, NOREL)

    def empty(ctx, kind):
        if kind == 'dict':
            return Counts(ctx, NONE, z3.K(Obj, z3.IntVal(0)))
        if kind == 'set':
            return SSet(ctx, NONE)
        r = Bag(ctx, z3.K(Obj, z3.IntVal(0)))
        r.distinct = True
        return r
    ctx.ghost['empty'] = empty

    def inv(st):
        src = getattr(st.view, 'source', None)
        if not isinstance(src, Rel):
            return []
        me = st['self']
        seen = st.view.vis(st.k)
        if not hasattr(st, 'base'):
            st.base = State(me)
        b, t = st.base, State(me)
        first = src.name == '_conflicts'
        d, v, od, ov = (t.CD, t.C, t.RD, t.RC) if first else (t.RD, t.RC, t.CD, t.C)
        bd, bv = (b.RD, b.RC) if first else (b.CD, b.C)
        return [('kept', all_(lambda n: d[n] == seen[n])), ('values', all2(lambda p, n: v[p][n] == z3.And(seen[p], src.val[p][n]))),
                ('the others stay', z3.And(all_(lambda n: od[n] == bd[n]), all2(lambda p, n: ov[p][n] == bv[p][n])))]
    ctx.loops[('*', '*')] = LoopSpec(inv)


def named(v):
    for n in ('_conflicts', '_reverse_conflicts'):
        v.attrs[n].name = n


def apart(ctx, new, old):
    for n in HOLDS:
        ctx.prove(f'{n} is not shared', new.attrs[n] is not old.attrs[n])


@proof('a view is copied', [V + 'copy', V + '__init__'])
def copy(ctx, I):
    w = World(ctx, I)
    making(ctx, I)
    v, s, op = w.view()
    named(v)
    k, r = I.outcome(lambda: I.call(I.getattr(v, 'copy'), []))
    ctx.prove('views can always be copied', k == 'return')
    ctx.prove('a view', isinstance(r, PObj) and r.cls is View and r is not v)
    ctx.prove('of the same graph', r.attrs['graph'] is w.graph)
    ctx.prove('the graph knows it, and no other new one', len(w.views.log) == 1 and w.views.log[0][0] == 'append' and w.views.log[0][1] is r)
    same_state(ctx, State(r), s)
    same_state(ctx, State(v), s)
    apart(ctx, r, v)
    ctx.cover('copied')


@proof('a view is made', [V + '__init__'])
def make(ctx, I):
    w = World(ctx, I)
    making(ctx, I)
    which = ctx.choose(2)
    g = w.graph if which else ctx.obj('no graph')
    if not which:
        ctx.ghost['isinstance'] = lambda ctx, o, c: False if o is g else None
    k, r = I.outcome(lambda: I.call(View, [g], {}))
    if not which:
        ctx.prove('only graphs have views', k == 'raise' and r.cls is ValueError)
        return
    ctx.prove('graphs can have views', k == 'return')
    t = State(r)
    ctx.prove('the graph knows it, and no other new one', r.attrs['graph'] is w.graph and len(w.views.log) == 1 and w.views.log[0][0] == 'append' and w.views.log[0][1] is r)
    ctx.prove('of an empty graph', all_(lambda n: z3.And(z3.Not(t.Y[n]), z3.Not(t.D[n]), t.R[n] == 0, z3.Not(t.PD[n]), z3.Not(t.CD[n]), z3.Not(t.RD[n]))))
    ctx.cover('made')


@proof('a view is reset', [V + 'reset'])
def reset(ctx, I):
    w = World(ctx, I)
    loops(ctx, None)
    v, s, op = w.view()
    stock, ss, sop = w.view('stock', fresh=True)
    w.graph.attrs['_stock_view'] = stock
    k, r = I.outcome(lambda: I.call(I.getattr(v, 'reset'), []))
    ctx.prove('views can always be reset', k == 'return')
    prove_all(ctx, invariant(State(v), w.N, w.E, lambda n: sop[n]))
    t = State(v)
    ctx.prove('no node counts as returned or done', all_(lambda n: z3.And(z3.Not(t.Y[n]), z3.Not(t.D[n]))))
    prove_all(ctx, State(stock).same(ss))
    apart(ctx, v, stock)
    ctx.prove('no view comes or goes', not w.views.log)
    ctx.cover('reset')


@proof('a view is closed', [V + 'close'])
def close(ctx, I):
    w = World(ctx, I)
    v, s, op = w.view()
    other, so, oop = w.view('other')
    k, r = I.outcome(lambda: I.call(I.getattr(v, 'close'), []))
    ctx.prove('views can always be closed', k == 'return')
    ctx.prove('the graph forgets it, and no other', len(w.views.log) == 1 and w.views.log[0][0] == 'remove' and w.views.log[0][1] is v)
    ctx.prove('closed', v.attrs['graph'] is None)
    prove_all(ctx, State(other).same(so))
    ctx.prove('the graph stays', z3.And(w.nodes.N == w.N0, w.nodes.E == w.E0, w.nodes.CNT == w.CNT0))
    ctx.cover('closed')


@proof('a closed view does nothing', [V + 'close', V + 'reset', V + 'ready', V + 'done', V + '__bool__'])
def closed(ctx, I):
    name = ('close', 'reset', 'ready', 'done', '__bool__')[ctx.choose(5)]
    v = PObj(ctx, View, dict(graph=None))
    args = [M.StarArgs(Given(ctx, ctx.fresh(SetS, 'given'), False))] if name == 'done' else []
    k, r = I.outcome(lambda: I.call(I.getattr(v, name), args))
    ctx.prove('an error', k == 'raise' and r.cls is ValueError)


@proof('a graph gets a view', ['graph.TopologicalSorter.view', V + 'copy', V + '__init__'])
def view(ctx, I):
    w = World(ctx, I)
    making(ctx, I)
    stock, s, op = w.view('stock', fresh=True)
    named(stock)
    w.graph.attrs['_stock_view'] = stock
    k, r = I.outcome(lambda: I.call(I.getattr(w.graph, 'view'), []))
    ctx.prove('graphs can always be viewed', k == 'return')
    ctx.prove('a new view', isinstance(r, PObj) and r.cls is View and r is not stock)
    t = State(r)
    prove_all(ctx, invariant(t, w.N, w.E, lambda n: op[n]))
    ctx.prove('no node counts as returned or done', all_(lambda n: z3.And(z3.Not(t.Y[n]), z3.Not(t.D[n]))))
    ctx.prove('the graph knows it, and no other new one', r.attrs['graph'] is w.graph and len(w.views.log) == 1 and w.views.log[0][0] == 'append' and w.views.log[0][1] is r)
    apart(ctx, r, stock)
    ctx.cover('viewed')


@proof('a graph is copied', ['graph.TopologicalSorter.copy', 'graph.TopologicalSorter.__init__'])
def copied(ctx, I):
    w = World(ctx, I)
    mine = [PObj(ctx, View, dict(graph=w.graph)) for _ in range(2)]
    w.graph.attrs['_default_view'], w.graph.attrs['_stock_view'] = mine
    made = []

    def init(ctx, self, graph, *, original=None):
        self.attrs['graph'] = graph
        self.attrs['original'] = original
        views = graph.attrs['views']
        ctx.prove('the views of the original stay', views is not w.views)
        I.call(I.getattr(views, 'append'), [self])
    ctx.contracts[V + '__init__'] = init

    def empty(ctx, kind):
        if kind == 'dict':
            n = Nodes(ctx, NONE, NOREL, z3.K(Obj, z3.IntVal(0)))
            made.append(n)
            return n
    ctx.ghost['empty'] = empty

    def inv(st):
        n = made[-1]
        seen = st.view.vis(st.k)
        return [('nodes', all_(lambda x: n.N[x] == seen[x])), ('edges', all2(lambda x, y: n.E[x][y] == z3.And(seen[x], w.E(x, y)))), ('counts', all_(lambda x: z3.Implies(seen[x], n.CNT[x] == w.CNT0[x])))]
    ctx.loops[('*', '*')] = LoopSpec(inv, make=parts(w))
    k, r = I.outcome(lambda: I.call(I.getattr(w.graph, 'copy'), []))
    ctx.prove('graphs can always be copied', k == 'return')
    ctx.prove('a new graph', isinstance(r, PObj) and r.cls is TopologicalSorter and r is not w.graph)
    n = r.attrs['nodes']
    ctx.prove('with its own nodes', isinstance(n, Nodes) and n is not w.nodes)
    ctx.prove('the same nodes', all_(lambda x: n.N[x] == w.N(x)))
    ctx.prove('the same edges', all2(lambda x, y: n.E[x][y] == w.E(x, y)))
    ctx.prove('the same counts', all_(lambda x: z3.Implies(w.N(x), n.CNT[x] == w.CNT0[x])))
    ctx.prove('checked as far as the original', dirty2(r) == M.term(w.dirty))
    d, s = r.attrs['_default_view'], r.attrs['_stock_view']
    ctx.prove('progress copied', d.attrs['original'] is mine[0] and s.attrs['original'] is mine[1] and d.attrs['graph'] is r and s.attrs['graph'] is r)
    vs = r.attrs['views']
    ctx.prove('it knows its two views', isinstance(vs, PList) and vs.prefix is None and len(vs.items) == 2 and {id(x) for x in vs.items} == {id(d), id(s)})
    ctx.prove('the original stays', z3.And(w.nodes.N == w.N0, w.nodes.E == w.E0, w.nodes.CNT == w.CNT0, dirty(w) == M.term(w.dirty), z3.BoolVal(w.graph.attrs['_default_view'] is mine[0] and w.graph.attrs['_stock_view'] is mine[1] and w.graph.attrs['views'] is w.views and not w.views.log)))
    ctx.cover('copied')


def dirty2(g):
    d = g.attrs['dirty']
    return M.term(d) if isinstance(d, SV) else z3.BoolVal(bool(d))
