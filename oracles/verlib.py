import re

W = {'a': 'alpha', 'alpha': 'alpha', 'b': 'beta', 'beta': 'beta', 'c': 'rc', 'rc': 'rc', 'pre': 'rc', 'preview': 'rc'}
LV = {'alpha': 0, 'beta': 1, 'rc': 2, 'final': 3}
SEP = '[-_.]?'
REF = re.compile(r'\s*v?(?:([0-9]+)!)?([0-9]+(?:\.[0-9]+)*)'
                 rf'(?:{SEP}(alpha|preview|beta|pre|rc|a|b|c){SEP}([0-9]+)?)?'
                 rf'(-[0-9]+|{SEP}(?:post|rev|r){SEP}[0-9]*)?'
                 rf'({SEP}dev{SEP}[0-9]*)?'
                 r'(?:\+([a-z0-9]+(?:[-_.][a-z0-9]+)*))?\s*')


def low(s):
    return ''.join(c.lower() if c.isascii() else c for c in s)


def norm(epoch, release, level, serial, post, dev, local):
    r = list(release)
    while len(r) > 1 and r[-1] == 0:
        r.pop()
    return (epoch or 0, tuple(r), level or 'final', serial or 0, post, dev, tuple(x.lower() for x in local) if local else None)


def parse(s):
    """components of an ASCII version string, or None"""
    m = REF.fullmatch(low(s))
    if not m:
        return None
    e, r, l, n, p, d, loc = m.groups()
    num = lambda x: int(re.search(r'\d+', x).group()) if re.search(r'\d', x) else 0
    return norm(int(e or 0), [int(x) for x in r.split('.')], W[l] if l else 'final', int(n) if n else 0,
                None if p is None else num(p), None if d is None else num(d), re.split('[-_.]', loc) if loc else None)


def key(c):
    e, r, l, n, p, d, loc = c
    return (e, r, LV[l], n, -1 if p is None else p, float('inf') if d is None else d, tuple((1, int(x), '') if x.isdigit() else (0, 0, x) for x in loc or ()))


def text(c):
    e, r, l, n, p, d, loc = c
    s = f'{e}!' if e else ''
    s += '.'.join(map(str, r))
    if l != 'final':
        s += {'alpha': 'a', 'beta': 'b', 'rc': 'rc'}[l] + (str(n) if n else '')
    if p is not None:
        s += f'.post{p}'
    if d is not None:
        s += f'.dev{d}'
    if loc:
        s += '+' + '.'.join(loc)
    return s


NUM = [0, 0, 1, 2, 9, 10, 11, 100, 20240131, 10 ** 30]


def rcomp(rng):
    l = rng.choice(['final', 'final', 'alpha', 'beta', 'rc'])
    return (rng.choice([0, 0, 0, 1, 12]), tuple(rng.choice(NUM) for _ in range(rng.randrange(1, 5))), l, rng.choice(NUM) if l != 'final' else 0,
            rng.choice([None, None] + NUM), rng.choice([None, None] + NUM),
            rng.choice([None, None, tuple(rng.choice(['a', 'b', 'ab', '1', '2', '10', '01', 'x1', 'B', '0']) for _ in range(rng.randrange(1, 4)))]))


def spell(rng, c):
    e, r, l, n, p, d, loc = c
    sep = lambda: rng.choice(['', '', '.', '-', '_'])
    s = rng.choice(['', '', 'v', ' ', '\t v'])
    if e or rng.random() < .1:
        s += f'{e}!'
    s += '.'.join(rng.choice(['', '', '0']) + str(x) for x in r)
    if l != 'final':
        s += sep() + rng.choice([k for k in W if W[k] == l])
        if n or rng.random() < .5:
            s += sep() + str(n)
        last_n = s[-1].isdigit()
    if p is not None:
        if rng.random() < .3:
            s += f'-{p}'
        else:
            s += sep() + rng.choice(['post', 'rev', 'r'])
            if p or rng.random() < .5:
                s += sep() + str(p)
    if d is not None:
        s += sep() + 'dev'
        if d or rng.random() < .5:
            s += sep() + str(d)
    if loc:
        s += '+' + loc[0] + ''.join(rng.choice('.-_') + x for x in loc[1:])
    if rng.random() < .3:
        s = ''.join(rng.choice([x.upper(), x]) for x in s)
    return s + rng.choice(['', '', ' ', '\n'])


def kw(c, rng=None):
    e, r, l, n, p, d, loc = c
    k = {'release': tuple(r)}
    if e:
        k['epoch'] = e
    if l != 'final' or (rng and rng.random() < .3):
        k['release_level'] = l if rng is None else rng.choice([x for x in list(W) + ['final'] if W.get(x, x) == l])
    if n:
        k['serial'] = n
    if p is not None:
        k['post'] = p
    if d is not None:
        k['dev'] = d
    if loc:
        k['local'] = tuple(loc)
    return k


SMALL = [(e, r, l, n, p, d, loc) for e in (0, 1) for r in ((0,), (1,), (1, 0), (1, 1), (1, 10), (2,)) for l, n in (('final', 0), ('alpha', 0), ('alpha', 1), ('rc', 0), ('rc', 2))
         for p in (None, 0, 1) for d in (None, 0, 3) for loc in (None, ('a',), ('1',), ('2', 'a'), ('10',))]
