"""Edits of the graph: every view stays coherent (the class invariant over the edited graph)."""
from specs.graphlib import *

ASSUMPTIONS = FACTS
PROOFS = []


def finish(ctx, v, N, E, OPEN, all_done=True):
    t = State(v)
    for c in counted(N, E, lambda n: t.D[n], OPEN):
        ctx.assume(c)
    prove_all(ctx, invariant(t, N, E, OPEN))
    return t


@proof('nodes are added to a view', ['graph.TopologicalSorter.View._add_nodes'])
def add_nodes(ctx, I):
    w = World(ctx, I)
    v, s, op = w.view()
    loops(ctx, v)
    new = Given(ctx, ctx.fresh(SetS, 'new'), True, 'new nodes')
    ctx.assume(all_(lambda n: z3.Implies(new.arr[n], z3.Not(w.N(n)))))
    k, r = I.outcome(lambda: I.call(I.getattr(v, '_add_nodes'), [new]))
    ctx.prove('nodes can always be added', k == 'return')
    t = finish(ctx, v, lambda n: z3.Or(w.N(n), new.arr[n]), w.E, lambda n: z3.If(new.arr[n], z3.IntVal(0), op[n]))
    ctx.prove('what was returned stays returned', z3.And(t.Y == s.Y, t.D == s.D))
    ctx.cover('added')


@proof('an edge is added to a view', ['graph.TopologicalSorter.View._add_successor'])
def add_successor(ctx, I):
    w = World(ctx, I)
    v, s, op = w.view()
    loops(ctx, v)
    p, n = ctx.obj('predecessor'), ctx.obj('successor')
    ctx.assume(z3.And(w.N(p.t), w.N(n.t), z3.Not(w.E(p.t, n.t))))
    k, r = I.outcome(lambda: I.call(I.getattr(v, '_add_successor'), [p, n]))
    ctx.prove('edges can always be added', k == 'return')
    t = finish(ctx, v, w.N, lambda x, y: z3.Or(w.E(x, y), z3.And(x == p.t, y == n.t)), lambda x: op[x] + num(z3.And(x == n.t, z3.Not(s.D[p.t]))))
    ctx.prove('what was returned stays returned', z3.And(t.Y == s.Y, t.D == s.D))
    ctx.cover('added')


@proof('a node is removed from a view', ['graph.TopologicalSorter.View._remove_node', 'graph.TopologicalSorter.View._mark_node_done'], budget=300)
def remove_node(ctx, I):
    w = World(ctx, I)
    v, s, op = w.view()
    loops(ctx, v)
    x = ctx.obj('node')
    ctx.assume(w.N(x.t))
    succ = Succs(ctx, None, None)
    succ.own = z3.Store(w.E0[x.t], x.t, False)
    k, r = I.outcome(lambda: I.call(I.getattr(v, '_remove_node'), [x, succ]))
    ctx.prove('nodes can always be removed', k == 'return')
    t = finish(ctx, v, lambda n: z3.And(w.N(n), n != x.t), lambda p, n: z3.And(w.E(p, n), p != x.t, n != x.t), lambda n: op[n] - num(z3.And(w.E(x.t, n), z3.Not(s.D[x.t]))))
    ctx.prove('the other nodes keep their progress', all_(lambda n: z3.And(t.Y[n] == z3.And(s.Y[n], n != x.t), t.D[n] == z3.And(s.D[n], n != x.t))))
    ctx.cover('removed')


def edited(ctx, I):
    w = World(ctx, I)
    views = AllViews(ctx, w)
    listing(ctx)
    return w, views, views.told


@proof('nodes and edges are added', ['graph.TopologicalSorter.add'], budget=300)
def add(ctx, I):
    w, views, told = edited(ctx, I)
    x = ctx.obj('node')
    deps = Given(ctx, ctx.fresh(SetS, 'dependencies'), False)
    new = z3.Function('new edges from the first', IntS, IntS)
    fresh = lambda d: z3.And(deps.arr[d], z3.Not(w.E(d, x.t)))

    def enumerated(ctx, v):
        ctx.assume(new(0) == 0)
        g = v.get

        def get(ctx, k):
            d = g(ctx, k)
            ctx.assume(new(k + 1) == new(k) + num(z3.And(z3.Not(v.vis(k)[d.t]), z3.Not(w.E(d.t, x.t)))))
            return d
        v.get = get
        ctx.ghost['n'] = v.n
    ctx.ghost['enumerated'] = enumerated

    def add_nodes(ctx, v, nodes):
        if views.watched(ctx, v):
            s = nodes_in(ctx, nodes)
            ctx.prove('nodes a view is told of are new', all_(lambda n: z3.Implies(s(n), z3.Not(told.N[n]))))
            N = ctx.fresh(SetS, 'told nodes')
            ctx.assume(all_(lambda n: N[n] == z3.Or(told.N[n], s(n))))
            ctx.touched(told)
            told.N = N

    def add_successor(ctx, v, p, n):
        if views.watched(ctx, v):
            p, n = M.term(p), M.term(n)
            ctx.prove('an edge a view is told of is new and between known nodes', z3.And(told.N[p], told.N[n], z3.Not(told.E[p][n])))
            ctx.touched(told)
            told.E = z3.Store(told.E, p, z3.Store(told.E[p], n, True))
    ctx.contracts['graph.TopologicalSorter.View._add_nodes'] = add_nodes
    ctx.contracts['graph.TopologicalSorter.View._add_successor'] = add_successor
    start = z3.If(w.N(x.t), w.CNT0[x.t], 0)
    G = w.nodes
    newN = lambda n, seen: z3.Or(w.N(n), n == x.t, seen(n))
    newE = lambda p, n, seen: z3.Or(w.E(p, n), z3.And(n == x.t, seen(p)))

    def inv(st):
        v, k = st.view, st.k
        if not hasattr(st, 'base'):
            st.base = (told.N, told.E)
        tN, tE = st.base
        out = []
        if getattr(v, 'given', None) is not None:
            seen = lambda n: v.vis(k)[n]
            out += [('nodes', all_(lambda n: G.N[n] == newN(n, seen))), ('edges', all2(lambda p, n: G.E[p][n] == newE(p, n, seen))),
                    ('counts of the others', all_(lambda n: z3.Implies(z3.And(G.N[n], n != x.t), G.CNT[n] == z3.If(w.N(n), w.CNT0[n], 0)))),
                    ('new edges make the graph unchecked', z3.And(z3.Implies(M.term(w.dirty), dirty(w)), all_(lambda d: z3.Implies(z3.And(v.vis(k)[d], z3.Not(w.E(d, x.t))), dirty(w)))))]
        elif hasattr(v, 'views'):
            out += [('not told yet', z3.Implies(k <= views.J, z3.And(all_(lambda n: told.N[n] == tN[n]), all2(lambda p, n: told.E[p][n] == tE[p][n]))))]
        elif isinstance(getattr(v, 'source', None), Bag):
            here = views.at == views.J
            out += [('edges told', all2(lambda p, n: told.E[p][n] == z3.Or(tE[p][n], z3.And(here, n == x.t, v.vis(k)[p])))), ('nodes told', all_(lambda n: told.N[n] == tN[n]))]
        return out

    def cands(st):
        v, k = st.view, st.k
        out = []
        if getattr(v, 'given', None) is not None:
            out += [('count kept', G.CNT[x.t] == start), ('count grows', G.CNT[x.t] == start + new(k))]
            for nm, y in st.frame.locals.items():
                if isinstance(y, (SInt, int)) and not isinstance(y, bool):
                    out += [(nm + ' counts', M.numterm(y) == start + new(k)), (nm + ' counts the new', M.numterm(y) == new(k))]
                if isinstance(y, Bag):
                    s = v.vis(k)
                    out += [(nm + ' new nodes', all_(lambda n: y.cnt[n] == num(z3.And(z3.Not(w.N(n)), z3.Or(n == x.t, s[n]))))), (nm + ' new predecessors', all_(lambda d: y.cnt[d] == num(z3.And(s[d], z3.Not(w.E(d, x.t))))))]
        elif hasattr(v, 'views'):
            tN, tE = st.base
            past = k > views.J
            out += [('told the nodes', z3.Implies(past, all_(lambda n: told.N[n] == G.N[n]))), ('not told nodes', all_(lambda n: told.N[n] == tN[n])), ('told the edges', z3.Implies(past, all2(lambda p, n: told.E[p][n] == G.E[p][n]))), ('not told edges', all2(lambda p, n: told.E[p][n] == tE[p][n]))]
        return out
    ctx.loops[('*', '*')] = LoopSpec(inv, cands, make=parts(w))
    k, r = I.outcome(lambda: I.call(I.getattr(w.graph, 'add'), [x, M.StarArgs(deps)]))
    ctx.prove('nodes and edges can always be added', k == 'return')
    seen = lambda n: deps.arr[n]
    ctx.prove('the nodes are added', all_(lambda n: G.N[n] == newN(n, seen)))
    ctx.prove('the edges are added', all2(lambda p, n: G.E[p][n] == newE(p, n, seen)))
    ctx.prove('predecessors are counted', all_(lambda n: z3.Implies(G.N[n], G.CNT[n] == z3.If(n == x.t, start + new(ctx.ghost['n']), z3.If(w.N(n), w.CNT0[n], 0)))))
    ctx.prove('a graph with new edges is unchecked', z3.And(z3.Implies(M.term(w.dirty), dirty(w)), all_(lambda d: z3.Implies(fresh(d), dirty(w)))))
    ctx.prove('every view is told of the nodes', all_(lambda n: told.N[n] == G.N[n]))
    ctx.prove('every view is told of the edges', all2(lambda p, n: told.E[p][n] == G.E[p][n]))
    ctx.cover('added')


@proof('a node is removed', ['graph.TopologicalSorter.remove'], budget=300)
def remove(ctx, I):
    w, views, told = edited(ctx, I)
    x = ctx.obj('node')
    G = w.nodes
    total = w.CNT0[x.t]
    ctx.assume(z3.Implies(w.N(x.t), z3.And(total >= 0, z3.Implies(total == 0, all_(lambda p: z3.Not(w.E(p, x.t)))))))
    calls = ctx.fresh(BoolS, 'not told yet')
    told.calls = calls

    def enumerated(ctx, v):
        # of the predecessors among the first k nodes there are as many as counted; all of them once that is the total
        cnt = z3.Function(ctx.name('predecessors among the first'), IntS, IntS)
        ctx.assume(z3.And(cnt(0) == 0, cnt(v.n) == total))
        g = v.get

        def get(ctx, k):
            r = g(ctx, k)
            ctx.assume(cnt(k + 1) == cnt(k) + num(w.E(v.el(k), x.t)))
            ctx.assume(z3.Implies(cnt(k + 1) == total, all_(lambda p: z3.Implies(w.E(p, x.t), v.vis(k + 1)[p]))))
            return r
        v.get, v.cnt = get, cnt
    ctx.ghost['all nodes'] = enumerated

    def remove_node(ctx, v, n, successors):
        if views.watched(ctx, v):
            s = nodes_in(ctx, successors)
            n = M.term(n)
            ctx.prove('the view has the node', told.N[n])
            ctx.prove('the successors are those of the node', all_(lambda y: s(y) == z3.And(told.E[n][y], y != n)))
            N, E = ctx.fresh(SetS, 'told nodes'), ctx.fresh(RelS, 'told edges')
            ctx.assume(all_(lambda y: N[y] == z3.And(told.N[y], y != n)))
            ctx.assume(all2(lambda p, y: E[p][y] == z3.And(told.E[p][y], p != n, y != n)))
            ctx.touched(told)
            told.N, told.E = N, E
    ctx.contracts['graph.TopologicalSorter.View._remove_node'] = remove_node

    def inv(st):
        v, k = st.view, st.k
        if not hasattr(st, 'base'):
            st.base = (told.N, told.E, G.N, G.E, G.CNT)
        tN, tE, gN, gE, gC = st.base
        out = []
        if hasattr(v, 'cnt'):
            pass
        elif hasattr(v, 'views'):
            out += [('not told yet', z3.Implies(k <= views.J, z3.And(all_(lambda n: told.N[n] == tN[n]), all2(lambda p, n: told.E[p][n] == tE[p][n])))),
                    ('told', z3.Implies(k > views.J, z3.And(all_(lambda n: told.N[n] == z3.And(tN[n], n != x.t)), all2(lambda p, n: told.E[p][n] == z3.And(tE[p][n], p != x.t, n != x.t)))))]
        elif getattr(v, 'succs', None) is not None:
            out += [('counts', all_(lambda n: G.CNT[n] == gC[n] - num(v.vis(k)[n]))), ('nodes', all_(lambda n: G.N[n] == gN[n])), ('edges', all2(lambda p, n: G.E[p][n] == gE[p][n]))]
        elif isinstance(getattr(v, 'source', None), Bag):
            out += [('edges', all2(lambda p, n: G.E[p][n] == z3.And(gE[p][n], z3.Not(z3.And(v.vis(k)[p], n == x.t))))), ('nodes', all_(lambda n: G.N[n] == gN[n])), ('counts', all_(lambda n: G.CNT[n] == gC[n]))]
        return out

    def cands(st):
        v, k = st.view, st.k
        out = []
        if hasattr(v, 'cnt'):
            for nm, y in st.frame.locals.items():
                if isinstance(y, (SInt, int)) and not isinstance(y, bool):
                    out += [(nm + ' counts down', M.numterm(y) == total - v.cnt(k)), (nm + ' counts', M.numterm(y) == v.cnt(k)), (nm + ' is positive', M.numterm(y) > 0)]
                if isinstance(y, Bag):
                    out.append((nm + ' predecessors', all_(lambda p: y.cnt[p] == num(z3.And(v.vis(k)[p], w.E(p, x.t))))))
            out += [('the graph stays', z3.And(all_(lambda n: G.N[n] == w.N(n)), all2(lambda p, n: G.E[p][n] == w.E(p, n)))), ('the edges go', all2(lambda p, n: G.E[p][n] == z3.And(w.E(p, n), z3.Not(z3.And(v.vis(k)[p], n == x.t)))))]
        return out
    ctx.loops[('*', '*')] = LoopSpec(inv, cands, make=parts(w))
    k, r = I.outcome(lambda: I.call(I.getattr(w.graph, 'remove'), [x]))
    if k == 'raise':
        ctx.prove('only a node that is not there cannot be removed', z3.And(r.cls is ValueError, z3.Not(w.N(x.t))))
        ctx.prove('nothing was changed', z3.And(G.N == w.N0, G.E == w.E0, G.CNT == w.CNT0, told.N == w.N0, told.E == w.E0))
        return
    ctx.prove('a node that is there was removed', w.N(x.t))
    ctx.prove('the node is gone', all_(lambda n: G.N[n] == z3.And(w.N(n), n != x.t)))
    ctx.prove('its edges are gone, no others', all2(lambda p, n: z3.Implies(G.N[p], G.E[p][n] == z3.And(w.E(p, n), n != x.t))))
    ctx.prove('predecessors are counted', all_(lambda n: z3.Implies(G.N[n], G.CNT[n] == w.CNT0[n] - num(w.E(x.t, n)))))
    ctx.prove('a graph that was not checked stays so', z3.Implies(M.term(w.dirty), dirty(w)))
    ctx.prove('every view is told', z3.And(all_(lambda n: told.N[n] == G.N[n]), all2(lambda p, n: told.E[p][n] == z3.And(w.E(p, n), p != x.t, n != x.t))))
    ctx.cover('removed')
