"""Progress of a view: ready, done, truth, by the class invariant of the view."""
from specs.graphlib import *

ASSUMPTIONS = FACTS
PROOFS = []


def world(ctx, I):
    w = World(ctx, I)
    v, s, op = w.view()
    loops(ctx, v)
    return w, v, s, op


@proof('ready', ['graph.TopologicalSorter.View.ready'])
def ready(ctx, I):
    w, v, s, op = world(ctx, I)

    def check(ctx, g):
        ctx.prove('the graph of the view is checked', g is w.graph)
        if ctx.choose(2):
            raise PyExc(ExcV(CycleError))
        w.graph.attrs['dirty'] = False
    ctx.contracts['graph.TopologicalSorter.check_for_cycles'] = check
    dirty = w.graph.attrs['dirty'].t
    k, r = I.outcome(lambda: I.call(I.getattr(v, 'ready'), []))
    t = State(v)
    if k == 'raise':
        prove_all(ctx, t.same(s))
        ctx.prove('only a conflict or a cycle raises', r.cls is RuntimeError or r.cls is CycleError)
        ctx.prove('RuntimeError means a conflict', z3.Or(r.cls is not RuntimeError, w.conflicted(s)))
        ctx.prove('CycleError means an unchecked graph', z3.Or(r.cls is not CycleError, dirty))
        return
    ctx.prove('no conflict', z3.Not(w.conflicted(s)))
    ctx.prove('the graph was checked', z3.Or(z3.Not(dirty), z3.BoolVal(w.graph.attrs['dirty'] is False)))
    ctx.prove('a collection', isinstance(r, Bag))
    ctx.prove('exactly the nodes without undone predecessors that were not returned, once', all_(lambda n: r.cnt[n] == num(z3.And(w.N(n), z3.Not(s.Y[n]), z3.Not(s.D[n]), op[n] == 0))))
    ctx.prove('they count as returned now', all_(lambda n: t.Y[n] == z3.Or(s.Y[n], r.cnt[n] > 0)))
    ctx.prove('nothing else changes', t.D == s.D)
    ctx.cover('ready')
    prove_all(ctx, invariant(t, w.N, w.E, lambda n: op[n]))


@proof('done', ['graph.TopologicalSorter.View.done', 'graph.TopologicalSorter.View._mark_node_done'], budget=200)
def done(ctx, I):
    w, v, s, op = world(ctx, I)
    given = Given(ctx, ctx.fresh(SetS, 'given'), False)
    gone = ctx.fresh(CntS, 'predecessors among them')

    def fromkeys(ctx, x, *value):
        ctx.prove('the given nodes', isinstance(x, Given))
        return Given(ctx, x.arr, True)
    ctx.overrides[dict.fromkeys] = fromkeys

    def enumerated(ctx, view):
        if not view.given.distinct:
            return
        dec = z3.Function(ctx.name('predecessors among the first'), IntS, CntS)
        ctx.assume(z3.And(dec(0) == z3.K(Obj, z3.IntVal(0)), dec(view.n) == gone))
        ctx.assume(all_(lambda n: z3.And(gone[n] >= 0, gone[n] <= op[n], z3.Implies(gone[n] > 0, w.N(n)))))
        g = view.get

        def get(ctx, k):
            x = g(ctx, k)
            ctx.assume(all_(lambda n: dec(k + 1)[n] == dec(k)[n] + num(w.E(x.t, n))))
            # those not done yet are among all that are not done
            ctx.assume(all_(lambda n: z3.And(dec(k)[n] >= 0, dec(k + 1)[n] <= op[n])))
            return x
        view.get, view.dec = get, dec
    ctx.ghost['enumerated'] = enumerated
    k, r = I.outcome(lambda: I.call(I.getattr(v, 'done'), [M.StarArgs(given)]))
    t = State(v)
    if k == 'raise':
        prove_all(ctx, t.same(s))
        ctx.prove('only a conflict or a wrong node raises', r.cls in (RuntimeError, ValueError))
        ctx.prove('RuntimeError means a conflict', z3.Or(r.cls is not RuntimeError, w.conflicted(s)))
        ctx.prove('ValueError means a node that was not returned or is done', z3.Or(r.cls is not ValueError, z3.Exists([a], z3.And(given.arr[a], z3.Not(s.Y[a])))))
        return
    ctx.prove('no conflict', z3.Not(w.conflicted(s)))
    ctx.prove('every given node was returned and not done', all_(lambda n: z3.Implies(given.arr[n], s.Y[n])))
    ctx.prove('they are done now', all_(lambda n: t.D[n] == z3.Or(s.D[n], given.arr[n])))
    ctx.prove('and no longer merely returned', all_(lambda n: t.Y[n] == z3.And(s.Y[n], z3.Not(given.arr[n]))))
    left = lambda n: op[n] - gone[n]
    for c in counted(w.N, w.E, lambda n: t.D[n], left):
        ctx.assume(c)
    ctx.cover('done')
    prove_all(ctx, invariant(t, w.N, w.E, left))


@proof('truth', ['graph.TopologicalSorter.View.__bool__'])
def truth(ctx, I):
    w, v, s, op = world(ctx, I)
    k, r = I.outcome(lambda: I.call(I.getattr(v, '__bool__'), []))
    prove_all(ctx, State(v).same(s))
    left = z3.Exists([a], z3.And(w.N(a), z3.Not(s.D[a])))
    if k == 'raise':
        ctx.prove('only a conflict raises', r.cls is RuntimeError)
        ctx.prove('only a conflict raises', w.conflicted(s))
        return
    ctx.prove('no conflict', z3.Not(w.conflicted(s)))
    ctx.prove('true iff some node is not done', M.term(r) == left if isinstance(r, SV) else z3.BoolVal(r) == left)
    ctx.cover('truth')


class FreshView(Hook):
    """a view nothing was returned from yet, by the contracts of ready, done and the truth value"""
    methods = ('ready', 'done', 'get_ready', 'close')

    def __init__(self, ctx, w):
        self.serial = ctx.next_serial()
        self.w, self.Y, self.D = w, NONE, NONE

    def havoc(self, ctx):
        self.Y, self.D = ctx.fresh(SetS, 'returned'), ctx.fresh(SetS, 'done')

    def m_ready(self, ctx):
        w, Y, D = self.w, self.Y, self.D
        if ctx.choose(2):
            raise PyExc(ExcV(CycleError))
        r = Bag(ctx, ctx.fresh(CntS, 'ready'))
        r.distinct = True
        u = z3.Function(ctx.name('an undone predecessor'), Obj, Obj)
        ctx.assume(all_(lambda n: z3.And(0 <= r.cnt[n], r.cnt[n] <= 1, z3.Implies(r.cnt[n] > 0, z3.And(w.N(n), z3.Not(Y[n]), z3.Not(D[n]))))))
        ctx.assume(all2(lambda p, n: z3.Implies(z3.And(r.cnt[n] > 0, w.E(p, n)), D[p])))
        Y2 = ctx.fresh(SetS, 'returned')
        ctx.assume(all_(lambda n: Y2[n] == z3.Or(Y[n], r.cnt[n] > 0)))
        ctx.touched(self)
        self.Y = Y2
        return r

    m_get_ready = m_ready

    def m_done(self, ctx, *nodes):
        if len(nodes) == 1 and isinstance(nodes[0], M.StarView) and getattr(nodes[0].view, 'source', None) is not None:
            s = nodes_in(ctx, nodes[0].view.source)
        elif all(isinstance(x, SObj) for x in nodes):
            s = lambda n: z3.Or(*[n == x.t for x in nodes])
        else:
            raise Unsupported('done with these nodes')
        Y, D = self.Y, self.D
        ctx.prove('only returned nodes are marked done', all_(lambda n: z3.Implies(s(n), Y[n])))
        Y2, D2 = ctx.fresh(SetS, 'returned'), ctx.fresh(SetS, 'done')
        ctx.assume(all_(lambda n: z3.And(Y2[n] == z3.And(Y[n], z3.Not(s(n))), D2[n] == z3.Or(D[n], s(n)))))
        ctx.touched(self)
        self.Y, self.D = Y2, D2

    def m_close(self, ctx):
        pass

    def truth(self, ctx):
        return ctx.branch(z3.Exists([a], z3.And(self.w.N(a), z3.Not(self.D[a]))))


class Out(Hook):
    """what was yielded so far"""
    def __init__(self, ctx):
        self.serial = ctx.next_serial()
        self.arr = NONE

    def havoc(self, ctx):
        self.arr = ctx.fresh(SetS, 'yielded')


@proof('static order', ['graph.TopologicalSorter.static_order'])
def static_order(ctx, I):
    w = World(ctx, I)
    views = []
    out = Out(ctx)
    w.graph.attrs['what was yielded'] = out

    def view(ctx, g):
        v = FreshView(ctx, w)
        views.append(v)
        w.graph.attrs['the fresh view'] = v
        return v
    ctx.contracts['graph.TopologicalSorter.view'] = view

    def batch(ctx, s):
        ctx.prove('no node is listed twice', all_(lambda n: z3.Not(z3.And(s(n), out.arr[n]))))
        ctx.prove('only nodes are listed', all_(lambda n: z3.Implies(s(n), w.N(n))))
        ctx.prove('all predecessors come first', all2(lambda p, n: z3.Implies(z3.And(s(n), w.E(p, n)), out.arr[p])))
        o = ctx.fresh(SetS, 'yielded')
        ctx.assume(all_(lambda n: o[n] == z3.Or(out.arr[n], s(n))))
        ctx.touched(out)
        out.arr = o
        ctx.cover('nodes listed')
    Q = 'graph.TopologicalSorter.static_order'
    ctx.ghost[('yield from', Q)] = lambda ctx, f, v: batch(ctx, nodes_in(ctx, v))
    ctx.ghost[('yield', Q)] = lambda ctx, f, v: batch(ctx, lambda n: n == M.term(v))

    def inv(st):
        if st.view is None:
            v = views[-1]
            return [('only nodes are listed', all_(lambda n: z3.Implies(out.arr[n], w.N(n)))), ('nothing is waiting', all_(lambda n: z3.Not(v.Y[n]))), ('what is done was listed', all_(lambda n: v.D[n] == out.arr[n]))]
        if not hasattr(st, 'base'):
            st.base = out.arr
        vis = st.view.vis(st.k)
        return [('listed so far', all_(lambda n: out.arr[n] == z3.Or(st.base[n], vis[n])))]

    def make(st, path):
        if path[0] == 'local' and len(path) == 2 and path[1] in st and isinstance(st[path[1]], Bag):
            return lambda ctx, st: Bag(ctx, ctx.fresh(CntS, 'some nodes'))
    ctx.loops[('*', '*')] = LoopSpec(inv, make=make)

    def run():
        return I.collect(I.call(I.getattr(w.graph, 'static_order'), []))
    k, r = I.outcome(run)
    if k == 'raise':
        return ctx.prove('only a cyclic graph has no order', r.cls is CycleError)
    ctx.prove('every node is listed', all_(lambda n: out.arr[n] == w.N(n)))
    ctx.cover('all listed')
