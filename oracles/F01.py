import itertools
from big.all import translate_filename_to_exfat, translate_filename_to_unix

RULE = 'file names over forbidden and allowed characters against a per-character table; non-trivial: at least one forbidden character'
SECONDS = 8
FORB = '/\\:*?"<>|'
MAP = {'/': '-', '\\': '-', '*': '@', '?': '.', '"': "'", '<': '{', '>': '}', '|': '!', '\x00': '@'}
ALPH = list('/\\:*?"<>| .-@\'{}!aZ0_') + ['\x00', '\x01', '\t', '\n', '\x1f', '\x7f', '\x80', 'é', '\u2028', '/', '𝔸', '\ud800', ';', '=']


def enumerate_cases(tier):
    for i in list(range(0x180)) + [0xff0f, 0x2215, 0x10ffff, 0xd800, 0x2028, 0x1f600]:
        yield ('x', chr(i))
        yield ('u', chr(i))
    for n in (2, 3):
        for c in itertools.product(ALPH[:22] if n == 2 else list('/: -.?a\x00'), repeat=n):
            yield ('x', ''.join(c))
            yield ('u', ''.join(c))
    for f in 'xu':
        for bad in ('', b'', b'a', None, 0, 1, [], ['a'], ('a',), {}, True, 3.5):
            yield (f, bad)
    for s in ['a: b: c', ':', '::', ': ', ' :', ':  ', ': : ', 'C:\\dir\\file', 'a' * 5000 + '/' + 'b' * 5000, 'title: sub:title', '...', ' ', 'CON', 'a/b', './..', '~', '/', 'what?!']:
        yield ('x', s)
        yield ('u', s)


def random_case(rng):
    s = ''.join(rng.choice(ALPH) if rng.random() < .8 else chr(rng.choice([rng.randrange(0x20, 0x250), rng.randrange(0x10ffff)])) for _ in range(rng.randrange(1, 14)))
    return (rng.choice('xu'), s)


def nontrivial(c):
    return isinstance(c[1], str) and any(x in FORB or x < ' ' for x in c[1])


def known(case, msg):
    if case[0] == 'x' and isinstance(case[1], str) and any('\x01' <= c <= '\x1f' for c in case[1]) and msg.startswith('[control]'):
        return 'exfat-control'


def check(case):
    f, s = case
    fn = translate_filename_to_exfat if f == 'x' else translate_filename_to_unix
    if not isinstance(s, str) or not s:
        try:
            r = fn(s)
        except ValueError:
            return None
        except Exception as e:
            return f'{s!r} raised {e!r} instead of ValueError'
        return f'{s!r} was accepted: {r!r}'
    r = fn(s)
    if type(r) is not str:
        return f'result is {r!r}'
    if f == 'u':
        want = ''.join({'/': '-', '\x00': '@'}.get(c, c) for c in s)
    else:
        want = ''
        for i, c in enumerate(s):
            if c == ':':
                want += ' -' if s[i + 1:i + 2] == ' ' else '.'
            elif '\x01' <= c <= '\x1f':
                want += '?%02x' % ord(c)
            else:
                want += MAP.get(c, c)
    if r != want:
        return f'{s!r} became {r!r}, expected {want!r}'
    if f == 'u':
        bad = [c for c in r if c in '/\x00']
        safe = not any(c in '/\x00' for c in s)
    else:
        bad = [c for c in r if c in FORB or c < ' ']
        safe = not any(c in FORB or c < ' ' for c in s)
    ctl = '[control] ' if f == 'x' and any('\x01' <= c <= '\x1f' for c in s) else ''
    if safe and r != s:
        return f'{s!r} is legal but became {r!r}'
    if bad and not (ctl and set(bad) != {'?'}):
        return f'{ctl}{s!r} became {r!r}, which contains the forbidden {bad[0]!r}'
    if bad:
        return f'{s!r} became {r!r}, which contains forbidden {bad}'
    if fn(r) != r:
        return f'{ctl}{s!r}: translated twice gives {fn(r)!r}, once {r!r}'
    return None
