from oracles.graphlib import *

RULE = 'acyclic graphs driven through ready and done on several views against a model; non-trivial: at least one edge'
SECONDS = 12
ON = ('ready', 'done', 'bool', 'order')


def enumerate_cases(tier):
    for n in (1, 2, 3, 4):
        for i, d in enumerate(digraphs(n)):
            yield [init(d), ('drain', 0, 0)]
            yield [init(d, reversed(list(d))), ('ready', 0, 0), ('doneraw', 0, 0, (n - 1, 0)), ('done', 0, 0, (0, 0)), ('doneraw', 0, 0, (0,)), ('view', 0), ('ready', 0, 1), ('done', 0, 0, (0, 1)),
                   ('ready', 0, 0), ('ready', 0, 0), ('done', 0, 1, (0,)), ('ready', 0, 1), ('bool', 0, 1)]
    yield [('new', None), ('bool', 0, 0), ('ready', 0, 0), ('doneraw', 0, 0, (0,))]
    for n in (5, 6, 8):
        yield [init({i: list(range(i)) for i in range(n)}), ('drain', 0, 0)]
        yield [init({i: [0] if i else [] for i in range(n)}), ('view', 0), ('ready', 0, 1), ('drain', 0, 0)]
        yield [init({**{i: [] for i in range(n)}, n: list(range(n))}), ('view', 0), ('ready', 0, 1), ('drain', 0, 0)]


def random_case(rng):
    n = rng.randrange(2, 10)
    return [init(rand_graph(rng, n))] + [rand_op(rng, ['ready', 'ready', 'done', 'done', 'done', 'doneraw', 'bool', 'view'], n) for _ in range(rng.randrange(25))]


def nontrivial(c):
    return bool(c[0][1]) and any(d for _, d in c[0][1])


def check(case):
    return run(case, ON)
