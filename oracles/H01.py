import random
from big.all import Heap

RULE = 'operation histories over heaps with duplicates, compared step by step with a sorted-list model; non-trivial: at least one removal'
OPS = ['append', 'popleft', 'remove', 'aap', 'paa', 'extend', 'clear', 'copy', 'swap', 'dup']
SECONDS = 12


def enumerate_cases(tier):
    import itertools
    inits = [None, [], [1], [3, 1, 2], [2, 2, 1], [5, 4, 3, 2, 1, 0]]
    ops = [('append', 0), ('append', 2), ('popleft',), ('remove', 2), ('remove', 1), ('aap', 1), ('aap', 9), ('paa', 0), ('paa', 7),
           ('extend', [3, 0]), ('extend', []), ('clear',), ('copy',), ('swap',)]
    for k in range(4 if tier == 'quick' else 5):
        for seq in itertools.product(ops, repeat=k):
            for init in inits:
                yield (init, list(seq))


def random_case(rng):
    hi = rng.choice([3, 8, 100])
    vals = lambda n: [rng.randrange(hi) for _ in range(n)]
    ops = []
    for _ in range(rng.randrange(40)):
        o = rng.choice(OPS)
        if o in ('append', 'remove', 'aap', 'paa'):
            ops.append((o, rng.randrange(hi)))
        elif o == 'extend':
            ops.append((o, vals(rng.randrange(12))))
        else:
            ops.append((o,))
    return (rng.choice([None, vals(rng.randrange(20))]), ops)


def nontrivial(c):
    return any(o[0] in ('popleft', 'remove', 'aap', 'paa') for o in c[1])


def drain(h):
    """the content, destroying the heap"""
    out = []
    while h:
        out.append(h.popleft())
    return out


class V:
    """values equal by rank only: tells whether the same objects come back"""

    def __init__(self, n):
        self.n = n

    def __lt__(self, o):
        return self.n < o.n

    def __eq__(self, o):
        return isinstance(o, V) and self.n == o.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return f'V{self.n}'


def check(case):
    for wrap in (int, V):
        for kind in (list, tuple, iter):
            r = check1(case, wrap, kind)
            if r:
                return f'{wrap.__name__}/{kind.__name__}: {r}'
    return None


def check1(case, wrap, kind):
    init, ops = case
    ids = {}

    def mk(n):
        v = wrap(n)
        ids[id(v)] = v
        return v
    if init is None:
        h, model, src = Heap(), [], None
    else:
        src = [mk(n) for n in init]
        keep = list(src)
        h = Heap(kind(src))
        model = sorted(init)
        if len(src) != len(keep) or any(a is not b for a, b in zip(src, keep)):
            return 'the constructor changed its argument'
    others = []      # (heap, model)
    num = lambda v: v if wrap is int else v.n

    def state(h, m, what):
        if len(h) != len(m):
            return f'{what}: {len(h)} values, expected {m}'
        if [num(v) for v in drain(h.copy())] != m:
            return f'{what}: content differs from {m}'
        return None
    for n, op in enumerate(ops):
        name = f'op {n} {op}'
        o = op[0]
        if o == 'append':
            if h.append(mk(op[1])) is not None:
                return name + ': returns something'
            model = sorted(model + [op[1]])
        elif o == 'extend':
            l = [mk(v) for v in op[1]]
            keep = list(l)
            h.extend(kind(l))
            if len(l) != len(keep) or any(a is not b for a, b in zip(l, keep)):
                return name + ': changed its argument'
            model = sorted(model + op[1])
        elif o == 'clear':
            h.clear()
            model = []
        elif o == 'copy':
            others.append((h.copy(), list(model)))
        elif o == 'swap':
            if others:
                g, m = others.pop(0)
                others.append((h, model))
                h, model = g, m
        elif o == 'dup':
            h.append(mk(model[0]) if model else mk(0))
            model = sorted(model + [model[0] if model else 0])
        elif o == 'remove':
            try:
                h.remove(wrap(op[1]))
                got = True
            except ValueError:
                got = False
            if got != (op[1] in model):
                return name + f': removed={got}, content {model}'
            if got:
                model.remove(op[1])
        else:
            if o == 'aap':
                model = sorted(model + [op[1]])
            want = model[0] if model else None
            try:
                if o == 'popleft':
                    v = h.popleft()
                elif o == 'aap':
                    v = h.append_and_popleft(mk(op[1]))
                else:
                    v = h.popleft_and_append(mk(op[1]))
            except IndexError:
                if want is not None:
                    return name + ': IndexError on a non-empty heap'
                v = None
            else:
                if want is None:
                    return name + f': returned {v} from an empty heap'
                if num(v) != want:
                    return name + f': returned {v}, the smallest is {want}'
                if wrap is V and id(v) not in ids:
                    return name + ': returned an object that was never added'
                model = model[1:]
                if o == 'paa':
                    model = sorted(model + [op[1]])
        r = state(h, model, name)
        if r:
            return r
        for g, m in others:
            r = state(g, m, name + ' (other copy)')
            if r:
                return r
    if [num(v) for v in drain(h)] != model:
        return 'draining gives a different content'
    for g, m in others:
        r = state(g, m, 'copy after draining the original')
        if r:
            return r
    return None
