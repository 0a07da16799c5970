"""Model of TopologicalSorter and its views; each property selects the operations and the comparisons that are its own."""
import itertools
from big.all import TopologicalSorter, CycleError

NODES = [0, 'a', None, (), 'b', 5, frozenset(), -1, 'c', (1,)]


class Bad(Exception):
    pass


class V:
    def __init__(self, real, g, y=(), d=()):
        self.real, self.g, self.y, self.d = real, g, set(y), set(d)
        self.closed = False


class G:
    def __init__(self, real):
        self.real = real
        self.nodes = {}
        self.edges = set()     # (pred, succ)
        self.views = []

    def preds(self, n):
        return {a for a, b in self.edges if b == n}

    def cyclic(self):
        left = set(self.nodes)
        while True:
            free = {n for n in left if not (self.preds(n) & left)}
            if not free:
                return bool(left)
            left -= free


class Default:
    """the sorter's own view"""

    def __init__(self, g):
        self.g = g

    def ready(self):
        return self.g.ready()

    def done(self, *n):
        return self.g.done(*n)

    def reset(self):
        return self.g.reset()

    def __bool__(self):
        return bool(self.g)


def conflicts(v):
    return {(a, b) for a, b in v.g.edges if a not in v.d and (b in v.y or b in v.d)}


def readyset(v):
    return {n for n in v.g.nodes if n not in v.y and n not in v.d and v.g.preds(n) <= v.d}


class M:
    def __init__(self, on):
        self.on = on        # set of comparisons this property makes
        self.graphs = []

    def new(self, init=None):
        if init is None:
            g = G(TopologicalSorter())
        else:
            g = G(TopologicalSorter(init))
            for n, deps in init.items():
                self.madd(g, n, deps)
        g.views.append(V(Default(g.real), g))
        self.graphs.append(g)
        return g

    def madd(self, g, n, deps):
        g.nodes.setdefault(n)
        for d in deps:
            g.nodes.setdefault(d)
            g.edges.add((d, n))

    def fail(self, on, msg):
        if on in self.on:
            raise Bad(msg)
        raise Skip

    def call(self, f, *a):
        try:
            return 'ok', f(*a)
        except RecursionError:
            raise
        except Exception as e:
            return type(e), e

    def ready(self, v, what='ready'):
        k, r = self.call(v.real.ready)
        c = conflicts(v)
        if v.closed:
            if k is not ValueError:
                self.fail('close', f'{what} on a closed view gave {k} {r!r}')
            return
        if c:
            if k is not RuntimeError:
                self.fail('conflict', f'{what} gave {k} {r!r} although the view is in conflict: {c}')
            for a, b in c:
                pass
            return
        if v.g.cyclic():
            if k is not CycleError:
                self.fail('cycle', f'{what} gave {k} {r!r} on a cyclic graph')
            self.checkcycle(v.g, r.args[1] if len(r.args) > 1 else None)
            return
        if k != 'ok':
            self.fail('cycle' if k is CycleError else 'conflict' if k is RuntimeError else 'ready', f'{what} raised {k.__name__}: {r} without a reason')
        want = readyset(v)
        got = list(r)
        if len(got) != len(set(got)) or set(got) != want:
            self.fail('ready', f'{what} returned {got}, expected exactly {want}')
        v.y |= want

    def done(self, v, nodes, what='done'):
        k, r = self.call(v.real.done, *nodes)
        if v.closed:
            if k is not ValueError:
                self.fail('close', f'{what} on a closed view gave {k}')
            return
        if conflicts(v):
            if k is not RuntimeError:
                self.fail('conflict', f'{what} gave {k} in a conflict')
            return
        if all(n in v.g.nodes and n in v.y for n in nodes):
            if k != 'ok':
                self.fail('conflict' if k is RuntimeError else 'done', f'{what}{tuple(nodes)} raised {k.__name__}: {r}')
            v.y -= set(nodes)
            v.d |= set(nodes)
        elif k is not ValueError:
            self.fail('done', f'{what}{tuple(nodes)} gave {k}, not all of them had been returned')

    def bool(self, v):
        k, r = self.call(bool, v.real)
        if v.closed:
            if k is not ValueError:
                self.fail('close', f'truth of a closed view gave {k}')
            return
        if conflicts(v):
            if k is not RuntimeError:
                self.fail('conflict', f'truth of a conflicting view gave {k} {r}')
            return
        if k != 'ok':
            self.fail('conflict', f'truth raised {k.__name__}: {r}, but there is no conflict')
        want = any(n not in v.d for n in v.g.nodes)
        if r is not want:
            self.fail('bool', f'truth is {r}, {len(v.d)} of {len(v.g.nodes)} nodes are done')

    def checkcycle(self, g, c):
        if not isinstance(c, (tuple, list)) or not c:
            self.fail('cycle', f'reported cycle {c!r}')
        c = list(c)
        if len(c) > 1 and c[0] == c[-1]:
            c = c[:-1]
        e = list(zip(c, c[1:] + c[:1]))
        if not all(x in g.edges for x in e):
            self.fail('cycle', f'reported cycle {c} is not a cycle of the graph')

    def cycle(self, g):
        k, r = self.call(g.real.cycle)
        if k != 'ok':
            self.fail('cycle', f'cycle() raised {k.__name__}: {r}')
        if g.cyclic():
            if r is None:
                self.fail('cycle', 'cycle() found no cycle in a cyclic graph')
            self.checkcycle(g, r)
        elif r is not None:
            self.fail('cycle', f'cycle() reports {r} in an acyclic graph')

    def order(self, g):
        k, r = self.call(lambda: list(g.real.static_order()))
        if g.cyclic():
            if k is not CycleError:
                self.fail('cycle', f'static_order gave {k} on a cyclic graph')
            return
        if k != 'ok':
            self.fail('cycle' if k is CycleError else 'order', f'static_order raised {k.__name__}: {r}')
        if len(r) != len(g.nodes) or set(r) != set(g.nodes):
            self.fail('order', f'static_order gave {r} for the nodes {list(g.nodes)}')
        pos = {n: i for i, n in enumerate(r)}
        if any(pos[a] > pos[b] for a, b in g.edges):
            self.fail('order', f'static_order {r} breaks the edges {g.edges}')

    def drain(self, v, rng=None):
        """to the end of the pass, or until conflict or cycle stops it"""
        for i in range(3 * len(v.g.nodes) + 3):
            self.bool(v)
            if v.closed or conflicts(v):
                self.ready(v)
                return
            y = sorted(v.y, key=lambda n: NODES.index(n) if n in NODES else 99)
            if not v.g.cyclic() and not any(n not in v.d for n in v.g.nodes):
                self.ready(v)
                return
            self.ready(v)
            if v.g.cyclic():
                return
            y = sorted(v.y, key=lambda n: NODES.index(n) if n in NODES else 99)
            if not y:
                return
            self.done(v, y[:1 + i % 2])

    def run(self, case):
        ops = case
        for op in ops:
            k = op[0]
            g = self.graphs[(op[1] if len(op) > 1 else 0) % len(self.graphs)] if self.graphs else None
            if k == 'new':
                self.new({NODES[n]: [NODES[d] for d in deps] for n, deps in op[1]} if op[1] is not None else None)
            elif k == 'add':
                n, deps = NODES[op[2]], [NODES[d] for d in op[3]]
                g.real.add(n, *deps)
                self.madd(g, n, deps)
                if len(g.real) != len(g.nodes):
                    self.fail('edit', f'{len(g.real)} nodes after add, expected {len(g.nodes)}')
            elif k == 'rm':
                n = NODES[op[2]]
                kk, r = self.call(g.real.remove, n)
                if n not in g.nodes:
                    if kk is not ValueError:
                        self.fail('edit', f'removing an unknown node gave {kk}')
                else:
                    if kk != 'ok':
                        self.fail('edit', f'remove({n!r}) raised {kk.__name__}: {r}')
                    del g.nodes[n]
                    g.edges = {e for e in g.edges if n not in e}
                    for v in g.views:
                        v.y.discard(n)
                        v.d.discard(n)
                if len(g.real) != len(g.nodes):
                    self.fail('edit', f'{len(g.real)} nodes after remove, expected {len(g.nodes)}')
            elif k == 'view':
                g.views.append(V(g.real.view(), g))
            elif k == 'gcopy':
                c = G(g.real.copy())
                c.nodes = dict(g.nodes)
                c.edges = set(g.edges)
                c.views.append(V(Default(c.real), c, g.views[0].y, g.views[0].d))
                self.graphs.append(c)
            elif k == 'cycle':
                self.cycle(g)
            elif k == 'order':
                self.order(g)
            else:
                v = g.views[op[2] % len(g.views)]
                if k == 'ready':
                    self.ready(v)
                elif k == 'done':
                    y = sorted(v.y, key=NODES.index)
                    self.done(v, [y[i % len(y)] for i in op[3]] if y else [])
                elif k == 'doneraw':
                    self.done(v, [NODES[i] for i in op[3]])
                elif k == 'bool':
                    self.bool(v)
                elif k == 'vcopy':
                    if isinstance(v.real, Default) or v.closed:
                        continue
                    g.views.append(V(v.real.copy(), g, v.y, v.d))
                elif k == 'reset':
                    kk, r = self.call(v.real.reset)
                    if v.closed:
                        if kk is not ValueError:
                            self.fail('close', f'reset of a closed view gave {kk}')
                    elif kk != 'ok':
                        self.fail('copy', f'reset raised {kk.__name__}: {r}')
                    else:
                        v.y, v.d = set(), set()
                elif k == 'close':
                    if isinstance(v.real, Default):
                        continue
                    kk, r = self.call(v.real.close)
                    if v.closed:
                        if kk is not ValueError:
                            self.fail('close', f'closing twice gave {kk}')
                    elif kk != 'ok':
                        self.fail('close', f'close raised {kk.__name__}')
                    v.closed = True
                elif k == 'drain':
                    self.drain(v)
        for g in self.graphs:
            if 'cycle' in self.on:
                self.cycle(g)
                fresh = TopologicalSorter()
                for n in g.nodes:
                    fresh.add(n, *g.preds(n))
                if (fresh.cycle() is None) != (g.real.cycle() is None):
                    self.fail('cycle', 'cycle detection disagrees with a freshly built identical graph')
            if 'order' in self.on:
                self.order(g)
        for g in self.graphs:
            for v in g.views:
                self.bool(v)
                self.drain(v)


class Skip(Exception):
    pass


def run(case, on):
    try:
        M(set(on)).run(case)
    except Bad as e:
        return str(e)
    except Skip:
        return None
    return None


ARITY = {'new': 2, 'add': 4, 'rm': 3, 'view': 2, 'gcopy': 2, 'cycle': 2, 'order': 2, 'ready': 3, 'done': 4, 'doneraw': 4, 'bool': 3, 'vcopy': 3, 'reset': 3, 'close': 3, 'drain': 3}


def valid(case):
    return (isinstance(case, list) and bool(case) and case[0][:1] == ('new',) and
            all(isinstance(o, tuple) and o and ARITY.get(o[0]) == len(o) for o in case) and
            all(o[0] != 'new' or o[1] is None or all(isinstance(x, tuple) and len(x) == 2 for x in o[1]) for o in case))


def shrink(case):
    for i in range(1, len(case)):
        yield case[:i] + case[i + 1:]
    for i, o in enumerate(case):
        if o[0] in ('add', 'done', 'doneraw'):
            for j in range(len(o[3])):
                yield case[:i] + [o[:3] + (o[3][:j] + o[3][j + 1:],)] + case[i + 1:]
        if o[0] == 'new' and o[1]:
            for j in range(len(o[1])):
                yield case[:i] + [('new', o[1][:j] + o[1][j + 1:])] + case[i + 1:]


def digraphs(n, acyclic=True):
    """graphs over nodes 0..n-1 as initialisers"""
    pairs = [(a, b) for a in range(n) for b in range(n) if (a < b if acyclic else True)]
    for bits in range(1 << len(pairs)):
        d = {i: [] for i in range(n)}
        for i, (a, b) in enumerate(pairs):
            if bits >> i & 1:
                d[b].append(a)
        yield d


def init(d, order=None):
    return ('new', [(k, tuple(d[k])) for k in (order or d)])


def rand_graph(rng, n, acyclic=True):
    p = rng.choice([.15, .3, .5, .8])
    perm = list(range(n))
    rng.shuffle(perm)
    d = {i: [] for i in perm}
    for i in range(n):
        for j in range(n):
            if (i < j if acyclic else True) and rng.random() < p:
                d[perm[j]].append(perm[i])
    for k in d:
        rng.shuffle(d[k])
    return d


def rand_op(rng, kinds, n, g=1):
    k = rng.choice(kinds)
    gi = rng.randrange(g)
    if k == 'new':
        return ('new', None)
    if k == 'add':
        return ('add', gi, rng.randrange(n), tuple(rng.randrange(n) for _ in range(rng.choice([0, 1, 1, 2, 3]))))
    if k == 'up':      # acyclic by construction: dependencies have smaller index
        x = rng.randrange(n)
        return ('add', gi, x, tuple(rng.randrange(x) for _ in range(rng.choice([0, 1, 1, 2, 3]))) if x else ())
    if k == 'rm':
        return ('rm', gi, rng.randrange(n))
    if k in ('view', 'gcopy', 'cycle', 'order'):
        return (k, gi)
    if k == 'done':
        return ('done', gi, rng.randrange(4), tuple(rng.randrange(6) for _ in range(rng.choice([1, 1, 2, 3]))))
    if k == 'doneraw':
        return ('doneraw', gi, rng.randrange(4), tuple(rng.randrange(n) for _ in range(rng.choice([1, 2]))))
    return (k, gi, rng.randrange(4))
