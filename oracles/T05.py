import itertools
from big.all import multistrip
from .textlib import *

RULE = 'texts and separator sets: removed ends are concatenations of separators and nothing strippable remains; non-trivial: something was stripped'
SECONDS = 10
SETS = [('a',), ('ab',), ('a', 'ab'), ('ab', 'ba'), ('aba', 'b'), ('aa', 'a'), ('aa',), ('aab', 'ab'), ('a\n',), ('\n',), ('\n', ' '), ('bab', 'ab', 'b'), ('a', 'bb')]


def enumerate_cases(tier):
    for n in range(0, 7):
        for t in itertools.product('abx' if n < 5 else 'ab', repeat=n):
            for seps in SETS[:8] + SETS[11:]:
                for lr in ((True, True), (True, False), (False, True), (False, False)):
                    yield (''.join(t), seps) + lr + ('list',)
    for n in range(0, 5):
        for t in itertools.product('a\n x', repeat=n):
            for seps in SETS[8:11]:
                for lr in ((True, True), (True, False), (False, True)):
                    yield (''.join(t), seps) + lr + ('list',)
    for sp in SPECIAL:
        for t in ('x' + sp + 'y', sp, sp + sp, 'x' + sp, sp + 'y', sp + 'xy' + sp + sp):
            for lr in ((True, True), (True, False), (False, True)):
                yield (t, (sp,)) + lr + ('tuple',)
                yield (t, (sp, 'x')) + lr + ('set',)
    for how in HOWS:
        if how not in ('gen', 'iter'):
            yield ('abxab', ('ab', 'b'), True, True, how)
    for bad in (('x', ()), ('x', 'BYTES'), ('x', ('',)), ('x', (1,)), ('x', 5), ('x', ('a', None))):
        yield ('!bad',) + bad


def random_case(rng):
    seps = tuple(random_seps(rng))
    how = rng.choice(['list', 'tuple', 'set', 'frozenset', 'dict', 'rev', 'dup'])
    if all(len(x) == 1 for x in seps) and rng.random() < .4:
        how = 'str'
    return (random_text(rng, seps, 8), seps, rng.random() < .7, rng.random() < .7, how)


def nontrivial(c):
    return c[0] != '!bad' and any(c[0].startswith(p) or c[0].endswith(p) for p in c[1])


def valid(c):
    return c[0] == '!bad' or (len(c[1]) > 0 and all(c[1]) and c[4] not in ('gen', 'iter') and (c[4] != 'str' or all(len(x) == 1 for x in c[1])))


def check(case):
    if case[0] == '!bad':
        s = case[2] if case[2] != 'BYTES' else b'x'
        for left in (True, False):
            try:
                r = multistrip(case[1], s, left, left)
            except (TypeError, ValueError):
                continue
            return f'multistrip({case[1]!r}, {s!r}) returned {r!r} instead of raising'
        return None
    r = one(*case)
    if r is None and ascii_only(*case[:2]):
        r = one(*enc(case[:2]), *case[2:])
    return r


def one(t, seps, left, right, how):
    r = multistrip(t, container(seps, how), left, right)
    p = strip_problem(t, r, seps, left, right)
    if p:
        return f'multistrip({t!r}, {seps!r}, left={left}, right={right}): {p}'
    if left and right and multistrip(t, container(seps, how)) != r:
        return f'multistrip({t!r}, {seps!r}) differs from left=True, right=True'
    if multistrip(t, container(seps, how), left=left, right=right) != r:
        return f'multistrip({t!r}, {seps!r}) differs with keyword arguments'
    if all(len(x) == 1 for x in seps):
        ch = t[:0].join(seps)
        want = t.strip(ch) if left and right else t.lstrip(ch) if left else t.rstrip(ch) if right else t
        if r != want:
            return f'multistrip({t!r}, {seps!r}, left={left}, right={right}) is {r!r}, the standard strip {want!r}'
    return None
