"""The class invariant of a view over a graph, and models of the containers it is kept in."""
import weakref
import z3
from pydv.framework import proof
from pydv.ctx import Unsupported
from pydv.values import *
from pydv import models as M
from pydv.models import Hook
from pydv.interp import LoopSpec, PyExc
from big.graph import TopologicalSorter, CycleError
View = TopologicalSorter.View

SetS = z3.ArraySort(Obj, BoolS)
RelS = z3.ArraySort(Obj, SetS)
CntS = z3.ArraySort(Obj, IntS)
NONE = z3.K(Obj, z3.BoolVal(False))
NOREL = z3.K(Obj, NONE)
CARD = z3.Function('size', SetS, IntS)
a, b = z3.Consts('a b', Obj)
FACTS = ['the size of a set grows by one when an element is added to it: the number of predecessors of a node that are not done goes up by one with a new edge from such a node, down by one for every one marked done or removed, and is 0 iff there is none',
         'the size of a subset is at most that of the set, and equal only if they are the same',
         'nodes compare and hash like themselves; Python\'s list, set, dict and defaultdict behave as documented and iterate over every element once']


def all_(f):
    return z3.ForAll([a], f(a))


def all2(f):
    return z3.ForAll([a, b], f(a, b))


def num(c):
    return z3.If(c, z3.IntVal(1), z3.IntVal(0))


class Row(SSet):
    """the set a relation holds for a key; gone from the relation, it keeps what it held"""
    def __init__(self, ctx, rel, key):
        self.rel, self.key, self.own = rel, key, None
        self.ctx = ctx
        self.sort, self.wrap = Obj, SObj
        self.serial = ctx.next_serial()
        rel.rows.append(weakref.ref(self))

    @property
    def arr(self):
        return self.own if self.own is not None else z3.Select(self.rel.val, self.key)

    @arr.setter
    def arr(self, v):
        if self.own is not None:
            self.own = v
        else:
            self.ctx.touched(self.rel)
            self.rel.val = z3.Store(self.rel.val, self.key, v)


class Rel(SMap):
    """defaultdict(set)"""
    def __init__(self, ctx, dom, val):
        self.rows = []
        self.ctx = ctx

        def row(ctx, t, o, k):
            for r in o.held():
                if r.own is None and r.key.eq(k):
                    return r
            return Row(ctx, o, k)

        def unwrap(v):
            if isinstance(v, Row) and v.own is None:
                ctx.prove('no set is shared', False)
            if isinstance(v, PSet) and not v.s:
                return NONE
            return v.arr
        SMap.__init__(self, ctx, dom, val, row, unwrap, Obj, lambda ctx: SSet(ctx, NONE))

    @property
    def dom(self):
        return self._dom

    @dom.setter
    def dom(self, v):
        old = getattr(self, '_dom', None)
        self._dom = v
        if old is None or z3.is_const(v):       # made, or any after some iterations
            if old is not None and any(r.own is None for r in self.held()):
                raise Unsupported('a set held while the relation changes in a loop')
            return
        if z3.is_store(v) and z3.is_false(v.arg(2)):
            # an entry taken out: a set handed out before keeps what it held
            k = v.arg(1)
            for r in self.held():
                if r.own is None and (r.key.eq(k) or self.ctx.branch(r.key == k)):
                    r.own = z3.Select(self.val, r.key)
            self.val = z3.Store(self.val, k, NONE)
        elif not z3.is_store(v):
            for r in self.held():
                if r.own is None:
                    r.own = z3.Select(self.val, r.key)
            self.val = NOREL

    def held(self):
        return [r for r in (w() for w in self.rows) if r is not None]


class Counts(SMap):
    def __init__(self, ctx, dom, val):
        SMap.__init__(self, ctx, dom, val, lambda ctx, t, o, k: SInt(t), lambda v: M.numterm(v), Obj)


class Succs(Hook):
    """the successors of a node: a dictionary used as an ordered set"""
    pytype = dict
    methods = ('copy', 'pop', 'keys')

    def __init__(self, ctx, nodes, key):
        self.serial = ctx.next_serial()
        self.nodes, self.key = nodes, key
        self.own = None

    @property
    def arr(self):
        return self.own if self.own is not None else z3.Select(self.nodes.E, self.key)

    def put(self, ctx, v):
        if self.own is not None:
            ctx.touched(self)
            self.own = v
        else:
            ctx.touched(self.nodes)
            self.nodes.E = z3.Store(self.nodes.E, self.key, v)

    def contains(self, ctx, x):
        return z3.Select(self.arr, M.term(x))

    def setitem(self, ctx, k, v):
        self.put(ctx, z3.Store(self.arr, M.term(k), True))

    def delitem(self, ctx, k):
        if not ctx.branch(z3.Select(self.arr, M.term(k))):
            ctx.interp.throw(KeyError, k)
        self.put(ctx, z3.Store(self.arr, M.term(k), False))

    def m_pop(self, ctx, k, *d):
        if not ctx.branch(z3.Select(self.arr, M.term(k))):
            if d:
                return d[0]
            ctx.interp.throw(KeyError, k)
        self.put(ctx, z3.Store(self.arr, M.term(k), False))

    def m_copy(self, ctx):
        r = Succs(ctx, None, None)
        r.own = self.arr
        return r

    def m_keys(self, ctx):
        return self

    def iterate(self, ctx):
        v = M.set_view(ctx.interp, self.arr, Obj, SObj)
        v.succs = self
        return v

    def to_set(self, I):
        return SSet(I.ctx, self.arr)

    def truth(self, ctx):
        return ctx.branch(z3.Exists([a], self.arr[a]))


class Given(Hook):
    """some nodes, maybe repeated: an argument tuple, or (distinct) a collection without repetitions"""
    pytype = tuple

    def __init__(self, ctx, arr, distinct, name='nodes'):
        self.serial = ctx.next_serial()
        self.arr, self.distinct, self.name = arr, distinct, name

    def iterate(self, ctx):
        if self.distinct:
            v = M.set_view(ctx.interp, self.arr, Obj, SObj)
        else:
            n = ctx.fresh(IntS, 'n')
            vis = z3.Function(ctx.name('given'), IntS, SetS)
            el = z3.Function(ctx.name('node'), IntS, Obj)
            ctx.assume(z3.And(n >= 0, vis(0) == NONE, vis(n) == self.arr))

            def get(ctx, k):
                ctx.assume(z3.And(vis(k + 1) == z3.Store(vis(k), el(k), True), self.arr[el(k)]))
                return SObj(el(k))
            v = IterView(n, get)
            v.vis, v.el = vis, el
        v.given = self
        h = ctx.ghost.get('enumerated')
        if h:
            h(ctx, v)
        return v

    def to_tuple(self, ctx):
        return self

    to_list = to_tuple

    def to_set(self, I):
        return SSet(I.ctx, self.arr)

    def contains(self, ctx, x):
        return z3.Select(self.arr, M.term(x))


class Pair(Hook):
    """[number of predecessors, successors] of a node"""
    pytype = list

    def __init__(self, ctx, nodes, key):
        self.serial = ctx.next_serial()
        self.nodes, self.key = nodes, key

    def getitem(self, ctx, i):
        if i == 0:
            return SInt(z3.Select(self.nodes.CNT, self.key))
        if i == 1:
            return Succs(ctx, self.nodes, self.key)
        ctx.interp.throw(IndexError, i)

    def setitem(self, ctx, i, v):
        if i == 0:
            ctx.touched(self.nodes)
            self.nodes.CNT = z3.Store(self.nodes.CNT, self.key, M.numterm(v))
            return
        raise Unsupported('replacing the successors')

    def iterate(self, ctx):
        return [self.getitem(ctx, 0), self.getitem(ctx, 1)]

    def length(self, ctx):
        return 2


class Nodes(Hook):
    """the dictionary of nodes"""
    pytype = dict
    methods = ('items', 'keys', 'get', 'values', 'clear', 'copy', 'pop')

    def __init__(self, ctx, N, E, CNT):
        self.serial = ctx.next_serial()
        self.N, self.E, self.CNT = N, E, CNT

    def havoc(self, ctx):
        self.N, self.E, self.CNT = ctx.fresh(SetS, 'nodes'), ctx.fresh(RelS, 'edges'), ctx.fresh(CntS, 'counts')

    def contains(self, ctx, x):
        return z3.Select(self.N, M.term(x))

    def getitem(self, ctx, k):
        if not ctx.branch(z3.Select(self.N, M.term(k))):
            ctx.interp.throw(KeyError, k)
        return Pair(ctx, self, M.term(k))

    def m_get(self, ctx, k, d=None):
        return Pair(ctx, self, M.term(k)) if ctx.branch(z3.Select(self.N, M.term(k))) else d

    def setitem(self, ctx, k, v):
        c, s = M.must_list(ctx.interp, v)
        ctx.touched(self)
        t = M.term(k)
        if isinstance(s, Succs):
            ctx.prove('no dictionary is shared', s.own is not None)
            arr = s.own
            s.nodes, s.key, s.own = self, t, None
        elif isinstance(s, PDict) and not s.d:
            arr = NONE
        else:
            raise Unsupported('successors')
        self.N = z3.Store(self.N, t, True)
        self.CNT = z3.Store(self.CNT, t, M.numterm(c))
        self.E = z3.Store(self.E, t, arr)

    def delitem(self, ctx, k):
        t = M.term(k)
        if not ctx.branch(z3.Select(self.N, t)):
            ctx.interp.throw(KeyError, k)
        ctx.touched(self)
        self.N = z3.Store(self.N, t, False)

    def iterate(self, ctx):
        v = M.set_view(ctx.interp, self.N, Obj, SObj)
        h = ctx.ghost.get('all nodes')
        if h:
            h(ctx, v)
        return v

    m_keys = iterate

    def m_items(self, ctx):
        v = M.set_view(ctx.interp, self.N, Obj, SObj, lambda ctx, x: Pair(ctx, self, x))
        h = ctx.ghost.get('all nodes')
        if h:
            h(ctx, v)
        return v

    def length(self, ctx):
        return SInt(CARD(self.N))

    def truth(self, ctx):
        return ctx.branch(z3.Exists([a], self.N[a]))

    def to_set(self, I):
        return SSet(I.ctx, self.N)


class State:
    """what a view holds"""
    def __init__(self, v):
        g = v.attrs
        self.Y, self.D, self.R = g['_yielded'].arr, g['_done'].arr, g['_ready'].cnt
        self.PD, self.PV = g['_predecessors'].dom, g['_predecessors'].val
        self.CD, self.C = g['_conflicts'].dom, g['_conflicts'].val
        self.RD, self.RC = g['_reverse_conflicts'].dom, g['_reverse_conflicts'].val

    def same(self, o):
        return [('the ' + n + ' stay as they are', getattr(self, x) == getattr(o, x)) for n, x in (('returned nodes', 'Y'), ('done nodes', 'D'), ('ready nodes', 'R'), ('counters', 'PV'), ('counted nodes', 'PD'), ('conflicts', 'C'), ('nodes in conflict', 'CD'), ('reverse conflicts', 'RC'), ('nodes in reverse conflict', 'RD'))]


def invariant(s, N, E, OPEN):
    """of the view s over the graph N, E; OPEN counts the predecessors that are not done"""
    live = lambda n: z3.And(N(n), z3.Not(s.D[n]), z3.Not(s.Y[n]))
    return [('returned and done nodes are nodes', all_(lambda n: z3.And(z3.Implies(s.D[n], N(n)), z3.Implies(s.Y[n], N(n))))),
            ('no node is both returned and done', all_(lambda n: z3.Not(z3.And(s.Y[n], s.D[n])))),
            ('every node not done is counted', all_(lambda n: z3.Implies(z3.And(N(n), z3.Not(s.D[n])), s.PD[n]))),
            ('the counter is the number of predecessors not done', all_(lambda n: z3.Implies(live(n), s.PV[n] == OPEN(n)))),
            ('ready are the nodes without such predecessors, once', all_(lambda n: s.R[n] == num(z3.And(live(n), OPEN(n) == 0)))),
            ('the conflicts are the edges against the order', all2(lambda p, n: s.C[p][n] == z3.And(E(p, n), z3.Not(s.D[p]), z3.Or(s.Y[n], s.D[n])))),
            ('the reverse conflicts mirror them', all2(lambda p, n: s.RC[n][p] == s.C[p][n])),
            ('nodes in conflict are kept as such', all2(lambda p, n: z3.Implies(s.C[p][n], s.CD[p]))),
            ('nodes in reverse conflict are kept as such', all2(lambda p, n: z3.Implies(s.RC[p][n], s.RD[p]))),
            ('only nodes in conflict are kept as such', z3.ForAll([a], z3.Exists([b], z3.Implies(s.CD[a], s.C[a][b])))),
            ('only nodes in reverse conflict are kept as such', z3.ForAll([a], z3.Exists([b], z3.Implies(s.RD[a], s.RC[a][b]))))]


def counted(N, E, D, OPEN):
    """what the number of predecessors not done is worth"""
    return [all_(lambda n: OPEN(n) >= 0), all2(lambda p, n: z3.Implies(z3.And(E(p, n), z3.Not(D(p))), OPEN(n) > 0))]


def least(N, E, D, OPEN):
    """... and, a node that has none has no such predecessor"""
    w = z3.Function('an undone predecessor', Obj, Obj)
    return [all_(lambda n: z3.Implies(z3.And(OPEN(n) > 0), z3.And(E(w(n), n), z3.Not(D(w(n))))))]


class World:
    def __init__(self, ctx, I, closed=False):
        self.ctx, self.I = ctx, I
        self.nodes = Nodes(ctx, ctx.fresh(SetS, 'N'), ctx.fresh(RelS, 'E'), ctx.fresh(CntS, 'CNT'))
        self.views = Views(ctx)
        self.graph = PObj(ctx, TopologicalSorter, dict(nodes=self.nodes, dirty=SBool(ctx.fresh(BoolS, 'dirty')), views=self.views))
        self.dirty = self.graph.attrs['dirty']
        self.N0, self.E0, self.CNT0 = self.nodes.N, self.nodes.E, self.nodes.CNT
        ctx.assume(all2(lambda p, n: z3.Implies(self.E0[p][n], z3.And(self.N0[p], self.N0[n]))))
        self.N, self.E = (lambda n: self.N0[n]), (lambda p, n: self.E0[p][n])
        ctx.ghost['card'] = lambda ctx, v: SInt(CARD(v.arr if isinstance(v, SSet) else v.dom))

    def view(self, name='view', fresh=False):
        """a view in any state the class invariant allows"""
        ctx = self.ctx
        f = lambda s, n: ctx.fresh(s, name + ' ' + n)
        ready = Bag(ctx, f(CntS, 'ready'))
        ready.distinct = True
        v = PObj(ctx, View, dict(graph=self.graph, _predecessors=Counts(ctx, f(SetS, 'counted'), f(CntS, 'counters')), _ready=ready, _yielded=SSet(ctx, NONE if fresh else f(SetS, 'yielded')), _done=SSet(ctx, NONE if fresh else f(SetS, 'done')),
                                 _conflicts=Rel(ctx, NONE if fresh else f(SetS, 'in conflict'), NOREL if fresh else f(RelS, 'conflicts')), _reverse_conflicts=Rel(ctx, NONE if fresh else f(SetS, 'in reverse conflict'), NOREL if fresh else f(RelS, 'reverse conflicts'))))
        s = State(v)
        op = f(CntS, 'open predecessors')
        for _, c in invariant(s, self.N, self.E, lambda n: op[n]):
            ctx.assume(c)
        for c in counted(self.N, self.E, lambda n: s.D[n], lambda n: op[n]):
            ctx.assume(c)
        ctx.assume(z3.Implies(CARD(s.D) == CARD(self.N0), all_(lambda n: s.D[n] == self.N0[n])))
        ctx.assume(z3.And(CARD(s.D) <= CARD(self.N0), z3.Implies(all_(lambda n: s.D[n] == self.N0[n]), CARD(s.D) == CARD(self.N0))))
        self.views.known.append(v)
        return v, s, op

    def conflicted(self, s):
        return z3.Exists([a], s.CD[a])


class Views(Hook):
    """the views of the graph: the known ones and any others"""
    pytype = list
    methods = ('append', 'remove', 'clear')

    def __init__(self, ctx):
        self.serial = ctx.next_serial()
        self.known, self.log = [], []

    def m_append(self, ctx, v):
        ctx.touched(self)
        self.log.append(('append', v))
        self.known.append(v)

    def m_remove(self, ctx, v):
        ctx.touched(self)
        self.log.append(('remove', v))
        self.known.remove(v)


def prove_all(ctx, facts):
    for n, f in facts:
        ctx.prove(n, f)


def loops(ctx, view):
    """invariants of the loops over successors, given nodes and conflict sets; what they change is told by the containers themselves"""
    def inv(st):
        w = st.view
        if not hasattr(st, 'base'):
            st.base = State(view)
        p, s = st.base, State(view)
        k = st.k
        out = []
        live = lambda n: z3.And(z3.Not(p.D[n]), z3.Not(p.Y[n]))
        g = getattr(w, 'given', None)
        if getattr(w, 'succs', None) is not None:
            seen = w.vis(k)
            hit = lambda n: z3.And(seen[n], live(n))
            out += [('counters', all_(lambda n: s.PV[n] == p.PV[n] - num(hit(n)))), ('ready', all_(lambda n: s.R[n] == p.R[n] + num(z3.And(hit(n), s.PV[n] == 0)))), ('counted', s.PD == p.PD)]
        elif isinstance(getattr(w, 'source', None), Row):
            seen, x = w.vis(k), w.source.key
            other = ('RC', 'RD') if w.source.rel is view.attrs['_conflicts'] else ('C', 'CD')
            old, new, olddom, dom = (getattr(o, f) for f in other for o in (p, s))
            out += [('entries', all2(lambda v, q: new[v][q] == z3.And(old[v][q], z3.Not(z3.And(seen[v], q == x))))),
                    ('nodes with entries are kept', all2(lambda v, q: z3.Implies(new[v][q], dom[v]))),
                    ('only nodes with entries are kept', z3.ForAll([a], z3.Exists([b], z3.Implies(dom[a], new[a][b])))),
                    ('no nodes are added', all_(lambda v: z3.Implies(dom[v], olddom[v])))]
            out += [(l, f) for l, f in s.same(p) if not any(z3.eq(f.arg(0), y) for y in (new, dom))]
        elif g is not None and g.name == 'new nodes':
            seen = w.vis(k)
            out += [('counters', all_(lambda n: s.PV[n] == z3.If(seen[n], z3.IntVal(0), p.PV[n]))), ('counted', all_(lambda n: s.PD[n] == z3.Or(p.PD[n], seen[n]))), ('ready', all_(lambda n: s.R[n] == p.R[n] + num(seen[n])))]
        elif g is not None:
            out.append(('all of them were returned', all_(lambda n: z3.Implies(w.vis(k)[n], p.Y[n]))))
            dec = getattr(w, 'dec', None)
            if dec is not None:
                d = dec(k)
                changed = z3.And(all_(lambda n: s.PV[n] == p.PV[n] - z3.If(live(n), d[n], z3.IntVal(0))), all_(lambda n: s.R[n] == p.R[n] + num(z3.And(live(n), d[n] > 0, s.PV[n] == 0))))
                out += [('counted', s.PD == p.PD), ('counters and ready nodes', z3.BoolVal(True) if p.PV.eq(s.PV) and p.R.eq(s.R) else changed)]
        return out
    ctx.loops[('*', '*')] = LoopSpec(inv=inv)


class Listed(Bag):
    """a list of nodes, in any order"""
    @property
    def distinct(self):
        ctx = self.ctx
        ctx.prove('no node is listed twice', all_(lambda n: self.cnt[n] <= 1))
        return True


def listing(ctx):
    """the lists made are lists of nodes"""
    def empty(ctx, kind):
        if kind == 'list':
            r = Listed(ctx, z3.K(Obj, z3.IntVal(0)))
            r.ctx = ctx
            return r
    ctx.ghost['empty'] = empty


class Ghost(Hook):
    """the graph as one of the views was told of"""
    def __init__(self, ctx, N, E):
        self.serial = ctx.next_serial()
        self.N, self.E = N, E

    def havoc(self, ctx):
        self.N, self.E = ctx.fresh(SetS, 'told nodes'), ctx.fresh(RelS, 'told edges')


class AllViews(Hook):
    """the views of a graph, any number; the one at J is watched"""
    pytype = list

    def __init__(self, ctx, w):
        self.serial = ctx.next_serial()
        self.n, self.J = ctx.fresh(IntS, 'views'), ctx.fresh(IntS, 'J')
        ctx.assume(z3.And(0 <= self.J, self.J < self.n))
        self.w = w
        self.told = Ghost(ctx, w.N0, w.E0)
        self.at = self.J - 1
        w.graph.attrs['views'] = self
        w.graph.attrs['what the view was told'] = self.told

    def iterate(self, ctx):
        def get(ctx, k):
            self.at = k
            return PObj(ctx, View, dict(graph=self.w.graph, index=SInt(k)))
        v = IterView(self.n, get)
        v.views = self
        return v

    def length(self, ctx):
        return SInt(self.n)

    def watched(self, ctx, v):
        return ctx.branch(v.attrs['index'].t == self.J)


def nodes_in(ctx, x):
    """the set of the nodes given, none of them twice"""
    if isinstance(x, Bag):
        ctx.prove('no node twice', all_(lambda n: x.cnt[n] <= 1))
        return lambda n: x.cnt[n] > 0
    if isinstance(x, SSet) or isinstance(x, Given) and x.distinct or isinstance(x, Succs):
        return lambda n: x.arr[n]
    if isinstance(x, PList) and x.prefix is None and len(x.items) == 1:
        return lambda n: n == M.term(x.items[0])
    raise Unsupported('these nodes')


def dirty(w):
    """the graph counts as unchecked"""
    d = w.graph.attrs['dirty']
    return M.term(d) if isinstance(d, SV) else z3.BoolVal(bool(d))


def parts(w):
    """locals that hold a part of the nodes: any"""
    def make(st, path):
        if path[0] == 'local' and len(path) == 2 and path[1] in st:
            v = st[path[1]]
            if isinstance(v, Pair) or isinstance(v, Succs) and v.own is None:
                return lambda ctx, st: type(v)(ctx, w.nodes, ctx.fresh(Obj, 'some node'))
    return make
