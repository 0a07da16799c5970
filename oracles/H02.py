import random
from big.all import Heap

RULE = 'contents x views (index, slice, in, len, eq, iteration with mutation) against the sorted list; non-trivial: at least 2 values'
SECONDS = 12


def enumerate_cases(tier):
    import itertools
    sizes = [0, 1, 2, 3, 5, 9, 10, 11, 12, 25]
    for n in sizes:
        for perm in ('up', 'down', 'mixed', 'dups'):
            vals = list(range(n))
            if perm == 'down':
                vals.reverse()
            elif perm == 'mixed':
                random.Random(n).shuffle(vals)
            elif perm == 'dups':
                vals = [v // 3 for v in vals]
                random.Random(n).shuffle(vals)
            yield ('views', vals)
            yield ('iter', vals)
            bs = [None] + list(range(-n - 2, n + 3)) if n <= 5 else [None, -n - 2, -n - 1, -n, -n + 1, -10, -2, -1, 0, 1, 2, 9, 10, n - 1, n, n + 1, 1000]
            if n > 12:
                bs = [None, -26, -25, -10, -1, 0, 1, 9, 10, 24, 25, 26]
            for a in bs:
                for b in bs:
                    for st in (None, 1, 2, -1, -3, 0):
                        yield ('slice', vals, a, b, st)
    for i in range(5):
        yield ('types', i)


def random_case(rng):
    n = rng.randrange(40)
    vals = [rng.randrange(rng.choice([4, 50])) for _ in range(n)]
    k = rng.randrange(4)
    if k == 0:
        return ('views', vals)
    if k == 1:
        return ('iter', vals)
    f = lambda: rng.choice([None, rng.randrange(-45, 45)])
    return ('slice', vals, f(), f(), rng.choice([None, 1, 1, -1, 2, 3, -2]))


def nontrivial(c):
    return c[0] != 'types' and len(c[1]) > 1


def outcome(f):
    try:
        return ('ok', f())
    except Exception as e:
        return (type(e).__name__,)


def check(case):
    if case[0] == 'types':
        for i in ('a', 1.0, None, (0,), [0], b'x', 0.0, 1.5):
            r = outcome(lambda: Heap([1, 2])[i])
            if r != ('TypeError',):
                return f'index {i!r}: {r}'
        return None
    vals = case[1]
    h = Heap(vals)
    s = sorted(vals)

    def intact(what):
        if len(h) != len(s) or [h.copy().popleft()] != s[:1] if s else len(h):
            return f'{what} changed the heap'
        c = h.copy()
        if [c.popleft() for _ in range(len(s))] != s:
            return f'{what} changed the heap'
        return None
    if case[0] == 'slice':
        sl = slice(*case[2:])
        got, want = outcome(lambda: h[sl]), outcome(lambda: s[sl])
        if got != want:
            return f'{sl}: {got}, expected {want}'
        if got[0] == 'ok' and type(got[1]) is not list:
            return f'{sl}: not a list'
        return intact('slicing')
    if case[0] == 'views':
        if len(h) != len(s) or bool(h) != bool(s):
            return 'len/bool'
        if h.queue != s or type(h.queue) is not list:
            return f'queue is {h.queue}'
        for v in list(range(-1, 60, 1)) + ['x', None]:
            if (v in h) != (v in s):
                return f'{v!r} in heap is {v in h}'
        for i in range(-len(s) - 3, len(s) + 3):
            got, want = outcome(lambda: h[i]), outcome(lambda: s[i])
            if got != want:
                return f'index {i}: {got}, expected {want}'
        r = intact('indexing')
        if r:
            return r
        g = Heap(list(reversed(vals)))
        if not (h == g) or h != g or not h == h.copy():
            return 'heaps with equal content are unequal'
        g.append(7)
        if h == g or not (h != g):
            return 'heaps with different content are equal'
        g.remove(7)
        if not h == g:
            return 'equal again after removal, but unequal'
        if s:
            k = Heap(vals)
            k.popleft()
            if h == k or k == h:
                return 'heaps with different content are equal'
            k.append(s[0] - 1)
            if h == k:
                return 'heaps with different content are equal'
        if h == s or h == None or h == 3:
            return 'equal to something that is not a heap'
        q = h.queue
        q.append(-5)
        if q and s:
            q[0] = 99
        return intact('changing the queue list')
    # iteration
    if [v for v in iter_all(h)] != s:
        return 'iteration order'
    r = intact('iterating')
    if r:
        return r
    a, b = iter(h), iter(h)
    for v in s:
        x = next(a)
        if x != v:
            return 'interleaved iteration'
        if v == s[0]:
            y = next(b) if len(s) == len(set(s)) else None
    muts = [lambda h: h.append(1), lambda h: h.popleft(), lambda h: h.clear(), lambda h: h.extend([4, 5]),
            lambda h: h.remove(s[0]), lambda h: h.append_and_popleft(3), lambda h: h.popleft_and_append(3), lambda h: h.extend([2])]
    for n, m in enumerate(muts):
        for steps in range(min(len(s), 3) + 1):
            g = Heap(vals)
            it = iter(g)
            got = [next(it) for _ in range(steps)]
            if got != s[:steps]:
                return 'iteration prefix'
            try:
                m(g)
            except (IndexError, ValueError):
                continue
            for _ in range(2):
                r = outcome(lambda: next(it))
                if r != ('RuntimeError',):
                    return f'mutation {n} after {steps} steps: next gives {r}'
            if [v for v in iter_all(g)] != sorted(g.queue):
                return 'a new iterator after a mutation is wrong'
    # mutating twice back to the same content still counts
    if s:
        g = Heap(vals)
        it = iter(g)
        v = g.popleft()
        g.append(v)
        if outcome(lambda: next(it)) != ('RuntimeError',):
            return 'two mutations restoring the content are not noticed'
    it = iter(h)
    for v in s:
        next(it)
    for _ in range(3):
        if outcome(lambda: next(it)) != ('StopIteration',):
            return 'no StopIteration at the end'
    return intact('iterating')


def iter_all(h):
    it = iter(h)
    while True:
        try:
            v = next(it)
        except StopIteration:
            return
        yield v
