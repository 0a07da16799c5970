from oracles.graphlib import *

RULE = 'graphs edited while views are in progress, against a model that recomputes everything from the edited graph; non-trivial: at least one edit after progress'
SECONDS = 14
ON = ('ready', 'done', 'bool', 'conflict', 'edit', 'order')


def enumerate_cases(tier):
    prog = [[], [('ready', 0, 0)], [('ready', 0, 0), ('done', 0, 0, (0,))], [('ready', 0, 0), ('done', 0, 0, (0, 1)), ('ready', 0, 0)],
            [('ready', 0, 0), ('done', 0, 0, (0, 1)), ('ready', 0, 0), ('done', 0, 0, (0,))]]
    edits = [[('add', 0, 3, ())], [('add', 0, 0, (3,))], [('add', 0, 3, (0,))], [('add', 0, 2, (1,))], [('add', 0, 1, (0,))], [('rm', 0, 0)], [('rm', 0, 1)], [('rm', 0, 2)],
             [('add', 0, 0, (3,)), ('rm', 0, 3)], [('add', 0, 0, (3, 4)), ('rm', 0, 3)], [('add', 0, 0, (3,)), ('add', 0, 1, (3,)), ('rm', 0, 0)], [('rm', 0, 0), ('add', 0, 0, (1,))],
             [('add', 0, 0, (3,)), ('rm', 0, 0)], [('rm', 0, 1), ('add', 0, 1, ())], [('add', 0, 2, (0, 0, 1, 1))], [('rm', 0, 7)], [('add', 0, 0, (3,)), ('add', 0, 0, (3,)), ('rm', 0, 3)]]
    for d in digraphs(3):
        for p in prog:
            for e in edits:
                yield [init(d)] + p + e + [('bool', 0, 0)]
                yield [init(d), ('view', 0), ('ready', 0, 1)] + p + e + [('ready', 0, 0), ('done', 0, 0, (0,)), ('ready', 0, 1)]


def random_case(rng):
    n = rng.randrange(3, 8)
    kinds = ['ready', 'ready', 'ready', 'done', 'done', 'done', 'up', 'up', 'rm', 'bool', 'view', 'doneraw']
    return [init(rand_graph(rng, rng.randrange(1, n)))] + [rand_op(rng, kinds, n) for _ in range(rng.randrange(3, 30))]


def nontrivial(c):
    k = [o[0] for o in c]
    return 'ready' in k and any(x in ('add', 'rm') for x in k[k.index('ready'):])


def check(case):
    return run(case, ON)
