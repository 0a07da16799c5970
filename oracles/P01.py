import random
from big.all import PushbackIterator

RULE = 'operation histories (push/next/__next__/bool/iteration) over a wrapped iterable; non-trivial: at least one push and one read'
OPS = ['push', 'next', 'nextd', 'bool', 'for1']
DEF = {'nextd': None, 'next0': 0, 'nextN': None, 'nexts': ''}


class Boom(Exception):
    pass


class It:
    """iterator with optional exception at some reads, configurable truthiness"""

    def __init__(self, items, truth=True, exc=()):
        self.items, self.pos, self.truth, self.exc, self.reads = list(items), 0, truth, set(exc), 0

    def __iter__(self):
        return self

    def __next__(self):
        self.reads += 1
        if self.reads in self.exc:
            raise Boom()
        if self.pos >= len(self.items):
            raise StopIteration
        self.pos += 1
        return self.items[self.pos - 1]

    def __bool__(self):
        return self.truth


VALS = [0, None, '', 'a', 7, False]


def enumerate_cases(tier):
    import itertools
    n = 4 if tier == 'quick' else 6
    for kind in ('list', 'iter', 'falsy', 'none', 'exc', 'str', 'gen'):
        for items in ([], [0], [0, 0, None, 1], [None, '', 1]):
            for a in ('next0', 'nextN', 'nexts'):
                for b in ('push', 'next', 'next0', 'nextN', 'bool'):
                    for c in OPS + ['next0', 'nextN']:
                        for d in ('next', 'bool', a):
                            yield (kind, items, [a, b, c, d])
        for items in ([], [0], [None, 1]):
            for k in range(n + 1):
                for ops in itertools.product(OPS, repeat=k):
                    yield (kind, items, list(ops))


def random_case(rng):
    return (rng.choice(['list', 'iter', 'falsy', 'none', 'exc', 'gen']),
            [rng.choice(VALS) for _ in range(rng.randrange(6))],
            [rng.choice(OPS + ['next0', 'nextN', 'nexts']) for _ in range(rng.randrange(25))])


def nontrivial(c):
    return 'push' in c[2] and len(c[2]) > 1


def check(case):
    kind, items, ops = case
    items = list(items)
    exc = set()
    if kind == 'list':
        src = list(items)
    elif kind == 'iter':
        src = iter(list(items))
    elif kind == 'falsy':
        src = It(items, truth=False)
    elif kind == 'exc':
        exc = {2, 4}
        src = It(items, exc=exc)
    elif kind == 'gen':
        src = (x for x in items)
    elif kind == 'str':
        items = ['x', 'y']
        src = 'xy'
    else:
        src = None
        items = []
    p = PushbackIterator(src)
    if iter(p) is not p:
        return 'iter(p) is not p'
    stack = []
    rest = list(items)
    dead = kind == 'none'
    reads = 0
    sentinel = object()

    def read():
        """model: ('item', v) / ('stop',) / ('boom',)"""
        nonlocal reads, dead
        if stack:
            return ('item', stack.pop())
        if dead:
            return ('stop',)
        reads += 1
        if reads in exc:
            return ('boom',)
        if rest:
            return ('item', rest.pop(0))
        dead = True
        return ('stop',)

    for n, op in enumerate(ops):
        if op == 'push':
            v = ('pushed', n) if n % 2 else VALS[n % len(VALS)]
            p.push(v)
            stack.append(v)
            continue
        want = read()
        try:
            if op == 'next':
                got = ('item', next(p))
            elif op == 'nextd':
                v = p.next(sentinel)
                got = ('stop',) if v is sentinel else ('item', v)
            elif op in DEF:
                v = p.next(DEF[op])
                if want[0] == 'stop':
                    want = ('item', DEF[op])
                got = ('item', v)
            elif op == 'for1':
                got = ('stop',)
                for v in p:
                    got = ('item', v)
                    break
            else:
                b = bool(p)
                if want[0] == 'item':
                    stack.append(want[1])
                if want[0] == 'boom':
                    return f'op {n}: bool() swallowed the iterator\'s exception'
                if b is not (want[0] == 'item'):
                    return f'op {n} bool() is {b}, {len(stack) + len(rest)} items left'
                continue
        except StopIteration:
            got = ('stop',)
        except Boom:
            got = ('boom',)
        if got[0] != want[0] or (got[0] == 'item' and (got[1] is not want[1] and got[1] != want[1] or type(got[1]) is not type(want[1]))):
            return f'op {n} ({op}): got {got}, expected {want}'
    return None
