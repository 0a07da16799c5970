from oracles.graphlib import *

RULE = 'arbitrary directed graphs and edits, cycle detection against an independent test; non-trivial: at least two edges'
SECONDS = 12
ON = ('cycle',)


def enumerate_cases(tier):
    for n in (1, 2, 3):
        for d in digraphs(n, False):
            yield [init(d), ('cycle', 0), ('ready', 0, 0), ('cycle', 0), ('order', 0)]
    for d in digraphs(3, False):
        for r in range(3):
            yield [init(d), ('ready', 0, 0), ('rm', 0, r), ('cycle', 0), ('order', 0), ('ready', 0, 0), ('add', 0, r, (0, 1)), ('cycle', 0), ('gcopy', 0), ('cycle', 1)]
    for n in (5, 8):
        ring = {i: [(i + 1) % n] for i in range(n)}
        yield [init(ring), ('cycle', 0), ('rm', 0, 0), ('cycle', 0), ('add', 0, 0, (1,)), ('cycle', 0), ('add', 0, n - 1, (0,)), ('cycle', 0)]
        yield [init({i: list(range(i)) for i in range(n)}), ('cycle', 0), ('add', 0, 0, (n - 1,)), ('cycle', 0), ('cycle', 0)]
        yield [init({i: list(range(i)) for i in range(n)}), ('add', 0, 3, (3,)), ('cycle', 0), ('rm', 0, 3), ('cycle', 0)]


def random_case(rng):
    n = rng.randrange(2, 9)
    acyc = rng.random() < .6
    ops = [rand_op(rng, ['add', 'up', 'up', 'rm', 'cycle', 'cycle', 'ready', 'order', 'gcopy'], n, 1) for _ in range(rng.randrange(14))]
    return [init(rand_graph(rng, n, acyc))] + ops


def nontrivial(c):
    return bool(c[0][1]) and sum(len(d) for _, d in c[0][1]) > 1


def check(case):
    return run(case, ON)
