from oracles.graphlib import *

RULE = 'copies, views, resets and closes taken in the middle of histories of edits and progress; every copy keeps being compared with its own model; non-trivial: a copy, reset or close occurs'
SECONDS = 14
ON = ('ready', 'done', 'bool', 'conflict', 'copy', 'close', 'edit')


def enumerate_cases(tier):
    prog = [[], [('ready', 0, 0)], [('ready', 0, 0), ('done', 0, 0, (0,))], [('ready', 0, 0), ('done', 0, 0, (0,)), ('ready', 0, 0)], [('ready', 0, 0), ('add', 0, 0, (3,))],
            [('ready', 0, 0), ('done', 0, 0, (0,)), ('add', 0, 0, (3, 1))]]
    after = [[], [('add', 1, 2, (4,)), ('ready', 1, 0)], [('rm', 1, 0)], [('rm', 0, 0)], [('rm', 0, 3)], [('rm', 1, 3)], [('ready', 1, 0), ('done', 1, 0, (0, 1)), ('ready', 1, 0)], [('add', 0, 1, (5,)), ('ready', 0, 0)],
             [('reset', 1, 0)], [('reset', 0, 0)], [('reset', 0, 0), ('ready', 0, 0), ('rm', 1, 1)], [('view', 1), ('ready', 1, 1), ('reset', 1, 1)]]
    for d in digraphs(3):
        for p in prog:
            for a in after:
                yield [init(d)] + p + [('gcopy', 0)] + a
            for a in ([('vcopy', 0, 1), ('ready', 0, 1)], [('vcopy', 0, 1), ('ready', 0, 2), ('done', 0, 2, (0,))], [('reset', 0, 1)], [('close', 0, 1), ('close', 0, 1), ('ready', 0, 1), ('reset', 0, 1)],
                      [('vcopy', 0, 1), ('close', 0, 1), ('rm', 0, 0), ('add', 0, 4, (1,))], [('vcopy', 0, 1), ('rm', 0, 3), ('rm', 0, 1)], [('reset', 0, 1), ('add', 0, 4, (0,)), ('ready', 0, 1)],
                      [('reset', 0, 0), ('vcopy', 0, 1), ('rm', 0, 0), ('reset', 0, 1)]):
                q = [(o[0], 0, 1) + o[3:] if o[0] in ('ready', 'done') else o for o in p]
                yield [init(d), ('view', 0)] + q + a


def random_case(rng):
    n = rng.randrange(3, 8)
    kinds = ['ready', 'ready', 'done', 'done', 'up', 'rm', 'bool', 'view', 'vcopy', 'gcopy', 'reset', 'close']
    return [init(rand_graph(rng, rng.randrange(1, n)))] + [rand_op(rng, kinds, n, 3) for _ in range(rng.randrange(3, 30))]


def nontrivial(c):
    return any(o[0] in ('gcopy', 'vcopy', 'reset', 'close') for o in c)


def check(case):
    return run(case, ON)
