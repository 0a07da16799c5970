import itertools
import random
import sys
from big.all import Version
from oracles.verlib import *

RULE = 'version strings (valid spellings and near misses) and keyword combinations against an independent grammar; non-trivial: more than a plain release'
SECONDS = 12
BADKW = [('epoch', -1), ('epoch', '1'), ('epoch', 1.0), ('release', ()), ('release', [1, 2]), ('release', (1, -1)), ('release', (-1,)), ('release', ('1',)), ('release', '1.0'), ('release', (1, 2.0)), ('release', (1, None)),
         ('release_level', 'gamma'), ('release_level', 'x'), ('release_level', ''), ('release_level', 3), ('serial', -1), ('serial', '1'), ('serial', 1.5), ('post', -1), ('post', '2'), ('post', 1.5),
         ('dev', -1), ('dev', '2'), ('dev', 0.5), ('local', ()), ('local', 'abc'), ('local', ['a']), ('local', ('',)), ('local', ('a', '')), ('local', ('a b',)), ('local', ('a.b',)), ('local', (1,)), ('local', ('a-b',)), ('local', ('é',)),
         ('local', ('a\n',)), ('local', ('ſ',)), ('release_level', None), ('release', None), ('epoch', ()), ('post', ()), ('dev', '')]
OKNONE = {('release_level', None)}


def enumerate_cases(tier):
    rng = random.Random(3)
    for s in ['', ' ', '1', '1.', '.1', '1..2', 'v', '1!', '!1', '1!1', '1!!1', '1a', '1a1b1', '1.post', '1.post.', '1--1', '1-', '1-1', '1-1-1', '1.dev1.post1', '1.post1.dev1', '1+', '1+a', '1+a..b', '1+-', '1+a+b', '1.0+a_',
              'vv1', 'v 1', '1 0', '1.0 .0', '1.0\n', '\n1.0', '1.0\nx', 'x', '1.x', '1.0rcc', '1.0alpha.1', '1.0alphaa', '1.0 a1', '1.0._a', '1.0.-a1', '1.0a..1', '1.0dev-', '1.0dev-3', '1.0dev_', '-1', '1,0', '1.0+é', '１.0',
              '1.0+ſ', '1.0poſt1', '1.0\x00', '\u00a01.0', '1e5', '0x1', '1.0r', '1.0rev.2', '1.0post-4', '1.0-post', '1.0preview_7', '1.0pre', '1.0c', '001.002', '1.0+001.A', 'V1', '1.0 v']:
        yield ('s', s)
    for c in SMALL:
        yield ('s', text(norm(*c)))
        yield ('s', spell(rng, c))
        yield ('k', kw(c))
    base = [{'release': (1, 2)}, {'release': (1,), 'release_level': 'rc', 'serial': 2, 'post': 1, 'dev': 0, 'local': ('a',), 'epoch': 2}]
    for b in base:
        for k, v in BADKW:
            yield ('bad', {**b, k: v})
    yield ('bad', {'release': (1,), 'serial': 3})
    yield ('bad', {'release': (1,), 'release_level': 'final', 'serial': 1})
    yield ('bad', {})
    yield ('bad', {'epoch': 1})
    for l in ('alpha', 'beta', 'candidate', 'final'):
        for n in (0, 1, 3):
            for t in ((3, 0, 0), (3, 12, 0), (3, 7, 2), (3, 0, 1)):
                if l != 'final' or n == 0:
                    yield ('vi', t + (l, n))
    for k in ('epoch', 'release', 'release_level', 'serial', 'post', 'dev', 'local'):
        yield ('both', '1.0', k)


def random_case(rng):
    r = rng.random()
    c = rcomp(rng)
    if r < .35:
        return ('s', spell(rng, c))
    if r < .7:
        s = list(spell(rng, c))
        for _ in range(rng.randrange(1, 3)):
            i = rng.randrange(len(s) + 1)
            if rng.random() < .4 and s:
                del s[i - 1]
            else:
                s.insert(i, rng.choice('.-_+!0123abrcvpostdev \nx'))
        return ('s', ''.join(s))
    if r < .95:
        return ('k', kw(c, rng))
    k, v = rng.choice(BADKW)
    return ('bad', {**kw(c), k: v})


def nontrivial(c):
    return c[0] != 's' or any(x.isalpha() or x in '!+-' for x in c[1])


def valid(c):
    if c[0] == 's':
        return isinstance(c[1], str)
    return False


FIELDS = ('epoch', 'release', 'release_level', 'serial', 'post', 'dev', 'local')
MISSING = object()


class VI(tuple):
    pass


def badkw(d):
    def num(x):
        return isinstance(x, int) and x >= 0
    try:
        r = d.get('release')
        if not (isinstance(r, tuple) and r and all(num(x) for x in r)):
            return True
        if not (d.get('epoch') is None or num(d['epoch'])):
            return True
        for k in ('post', 'dev', 'serial'):
            if not (d.get(k) is None or num(d[k])):
                return True
        l = d.get('release_level')
        if l is not None and not (isinstance(l, str) and (l in LV or l in W)):
            return True
        if d.get('serial') and (l is None or l == 'final'):
            return True
        loc = d.get('local')
        if loc is not None and not (isinstance(loc, tuple) and loc and all(isinstance(x, str) and x and x.isascii() and x.isalnum() for x in loc)):
            return True
    except Exception:
        return True
    return False


def verify(v, c, what):
    e, r, l, n, p, d, loc = c
    got = (v.epoch or 0, v.release, v.release_level, v.serial or 0, v.post, v.dev, v.local)
    if got != c:
        return f'{what}: components {got}, expected {c}'
    if type(v.release) is not tuple or v.releaselevel != l:
        return f'{what}: release {v.release!r}, releaselevel {v.releaselevel!r}'
    z = r + (0, 0, 0)
    if (v.major, v.minor, v.micro) != z[:3]:
        return f'{what}: major, minor, micro {(v.major, v.minor, v.micro)}'
    s = text(c)
    if str(v) != s:
        return f'{what}: string form {str(v)!r}, expected {s!r}'
    for w, nm in ((Version(str(v)), 'str'), (eval(repr(v), {'Version': Version}), 'repr')):
        if w != v or str(w) != s or hash(w) != hash(v):
            return f'{what}: {nm} does not round-trip: {w!r}'
    k = Version(**kw(c))
    if k != v or str(k) != s:
        return f'{what}: keywords give {k!r}'
    for f in FIELDS + ('major', 'minor', 'micro', 'releaselevel'):
        try:
            setattr(v, f, 1)
        except AttributeError:
            continue
        return f'{what}: {f} can be assigned'
    return None


def check(case):
    k = case[0]
    if k == 's':
        want = parse(case[1])
        try:
            v = Version(case[1])
        except ValueError:
            return f'{case[1]!r} rejected, it is {want}' if want else None
        if want is None:
            return f'{case[1]!r} accepted as {v!r}'
        return verify(v, want, repr(case[1]))
    if k == 'k':
        d = case[1]
        l = d.get('release_level') or 'final'
        return verify(Version(**d), norm(d.get('epoch'), d['release'], W.get(l, l), d.get('serial'), d.get('post'), d.get('dev'), d.get('local')), repr(d))
    if k == 'bad':
        if not badkw(case[1]):
            return None
        try:
            v = Version(**case[1])
        except (ValueError, TypeError):
            return None
        return f'{case[1]} accepted as {v!r}'
    if k == 'both':
        try:
            Version(case[1], **{case[2]: (1,) if case[2] in ('release',) else ('a',) if case[2] == 'local' else 'rc' if case[2] == 'release_level' else 1})
        except (ValueError, TypeError):
            return None
        return f'string and {case[2]} accepted together'
    if k == 'vi':
        if case[1][:3] + case[1][3:] is None:
            return None
        vi = sys.version_info
        import big.version as bv

        class Fake(tuple):
            major, minor, micro, releaselevel, serial = (property(lambda self, i=i: self[i]) for i in range(5))
        real = getattr(bv, '_sys_version_info_type', None)
        lv = {'candidate': 'rc'}.get(case[1][3], case[1][3])
        want = norm(0, case[1][:3], lv, case[1][4], None, None, None)
        a = verify(Version(vi), norm(0, vi[:3], {'candidate': 'rc'}.get(vi[3], vi[3]), vi[4] if vi[3] != 'final' else 0, None, None, None), 'sys.version_info')
        if a or not isinstance(real, type):
            return a
        bv._sys_version_info_type = Fake
        try:
            return verify(Version(Fake(case[1])), want, f'version info {case[1]}')
        finally:
            bv._sys_version_info_type = real
