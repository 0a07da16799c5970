import random
from big.all import Version
from oracles.verlib import *

RULE = 'triples of versions, parsed in variant spellings or built from keywords, against an independent key; non-trivial: the versions differ in spelling or value'
SECONDS = 12


def enumerate_cases(tier):
    rng = random.Random(7)
    for s, t in [('1.0RC1', '1.0rc1'), ('1.0-r3', '1.0.post3'), ('1.0-3', '1.0.post3'), ('1.0post', '1.0.post0'), ('1.0dev', '1.0.dev0'), ('v1', '1'), ('1.0.0', '1'), ('0!1', '1'), ('1.0pre', '1rc'),
                 ('1.0c0', '1.0rc'), ('1.0+A_b-1', '1+a.b.1'), ('1.0ALPHA', '1a0'), ('1.0_beta_2', '1b2'), ('1.0+01', '1.0+1'), ('0.0', '0'), ('00', '0.0.0')]:
        yield [('s', s), ('s', t), ('s', s)]
    for n in (20240101, 2 ** 31, 2 ** 63, 10 ** 20):
        for f in ('1.dev%d', '1a.dev%d', '1.post%d', '1a%d', '1.%d', '1+%d', '%d!1', '1.post0.dev%d'):
            for g in ('1', '1a', '1.0.post0', '1.1', '1+a', '1rc', '1.post1'):
                yield [('s', f % n), ('s', g), ('s', f % (n - 1))]
    for i, c in enumerate(SMALL):
        yield [('k', kw(c)), ('s', spell(rng, c)), ('s', spell(rng, SMALL[(i * 7 + 1) % len(SMALL)]))]
    for i in range(0, len(SMALL), 3):
        for j in range(0, len(SMALL), 17):
            yield [('s', text(norm(*SMALL[i]))), ('k', kw(SMALL[j])), ('k', kw(SMALL[(i + j) % len(SMALL)]))]


def near(rng, c):
    c = list(c)
    i = rng.randrange(7)
    c[i] = rcomp(rng)[i]
    if c[2] == 'final':
        c[3] = 0
    return tuple(c)


def random_case(rng):
    a = rcomp(rng)
    out = []
    for x in (a, near(rng, a), near(rng, near(rng, a))):
        out.append(('k', kw(x, rng)) if rng.random() < .35 else ('s', spell(rng, x)))
    return out


def nontrivial(c):
    return c[0] != c[1]


def comp(c):
    if c[0] == 's':
        return parse(c[1])
    k = c[1]
    l = k.get('release_level') or 'final'
    return norm(k.get('epoch'), k['release'], W.get(l, l), k.get('serial'), k.get('post'), k.get('dev'), k.get('local'))


def valid(case):
    try:
        return all(x[0] in 'sk' and comp(x) is not None for x in case) and len(case) == 3
    except Exception:
        return False


def shrink(c):
    return []


class Other:
    def __eq__(self, o):
        return NotImplemented


def check(case):
    if not valid(case):
        return None
    vs = [Version(c[1]) if c[0] == 's' else Version(**c[1]) for c in case]
    ks = [key(comp(c)) for c in case]
    for a, ka in zip(vs, ks):
        for b, kb in zip(vs, ks):
            for nm, f, want in (('<', lambda: a < b, ka < kb), ('>', lambda: a > b, ka > kb), ('==', lambda: a == b, ka == kb), ('!=', lambda: a != b, ka != kb)):
                got = f()
                if got is not want:
                    return f'{a!r} {nm} {b!r} is {got}, expected {want}'
            if ka == kb and hash(a) != hash(b):
                return f'{a!r} and {b!r} are equal with different hashes'
    if [key(comp(c)) for _, c in sorted(zip(vs, case), key=lambda p: p[0])] != sorted(ks):
        return 'sorting disagrees with the order'
    a = vs[0]
    for o in (str(a), None, 1, a._tuple if hasattr(a, '_tuple') else (), Other(), object()):
        if a == o or o == a or not (a != o):
            return f'{a!r} equals {o!r}'
        for f in (lambda: a < o, lambda: a > o, lambda: o < a, lambda: o > a):
            try:
                f()
            except TypeError:
                continue
            return f'ordering {a!r} and {o!r} does not raise TypeError'
    return None
