import itertools
import re
from big.all import int_to_words

RULE = 'integers of every size around the powers of ten and their neighbours in every option combination, read back by an independent parser; non-trivial: the number has at least two groups of digits'
SECONDS = 10
ONES = 'zero one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen seventeen eighteen nineteen'.split()
TENS = ['', '', 'twenty', 'thirty', 'forty', 'fifty', 'sixty', 'seventy', 'eighty', 'ninety']
ORD = {'one': 'first', 'two': 'second', 'three': 'third', 'five': 'fifth', 'eight': 'eighth', 'nine': 'ninth', 'twelve': 'twelfth'}
BIG = ['thousand', 'million', 'billion', 'trillion', 'quadrillion', 'quintillion', 'sextillion', 'septillion', 'octillion', 'nonillion', 'decillion', 'undecillion', 'duodecillion', 'tredecillion',
       'quattuordecillion', 'quindecillion', 'sexdecillion', 'septdecillion', 'octodecillion', 'novemdecillion', 'vigintillion']


def ordinal(w):
    if w in ORD:
        return ORD[w]
    if w.endswith('y'):
        return w[:-1] + 'ieth'
    return w + 'th'


def words(n, flowery):
    """plain English, groups above 10**63 counted in vigintillions"""
    if n < 100:
        if n < 20:
            return ONES[n]
        return TENS[n // 10] + ('-' + ONES[n % 10] if n % 10 else '')
    out = ''
    started = False
    scale = [(10 ** 63, BIG[20])] + [(10 ** (3 * (k + 1)), BIG[k]) for k in range(19, -1, -1)] + [(100, 'hundred')]
    for size, name in scale:
        if n >= size:
            head = words(n // size, flowery)
            out += ((', ' if flowery else ' ') if started else '') + head + ' ' + name
            started = True
            n %= size
    if n:
        out += (' and ' if flowery else ' ') + words(n, flowery)
    return out


def reference(i, flowery, ordin):
    if abs(i) >= 10 ** 75:
        return str(i)
    w = words(abs(i), flowery)
    if ordin:
        m = re.fullmatch(r'(.*[ -])?([a-z]+)', w)
        w = (m.group(1) or '') + ordinal(m.group(2))
    return ('negative ' if i < 0 else '') + w


def enumerate_cases(tier):
    for i in range(0, 1300):
        yield (i,)
    for e in range(2, 79):
        for d in (-101, -100, -99, -21, -20, -13, -12, -11, -2, -1, 0, 1, 2, 3, 12, 19, 20, 21, 30, 99, 100, 101, 110, 111, 999, 1000, 1001):
            yield (10 ** e + d,)
        for m in (2, 9, 10, 12, 15, 19, 20, 21, 90, 99, 100, 101, 112, 999):
            yield (m * 10 ** e,)
        yield (int('123456789' * 9) % 10 ** e,)


def random_case(rng):
    e = rng.randrange(1, 80)
    n = 0
    for k in range(0, e, 3):
        n = n * 1000 + rng.choice([0, 0, 1, 12, 20, 100, 512, rng.randrange(1000)])
    return (n,)


def nontrivial(c):
    return c[0] > 1000


def valid(c):
    return c[0] >= 0


def check(case):
    known_ = None
    for r in problems(case):
        if known(case, r) is None:
            return r
        known_ = known_ or r
    return known_


def problems(case):
    n = case[0]
    for i in (n, -n):
        for fl in (True, False):
            for o in (False, True):
                got = int_to_words(i, flowery=fl, ordinal=o)
                want = reference(i, fl, o)
                if not isinstance(got, str) or ' '.join(got.split()) != want or got != got.strip():
                    yield f'int_to_words({i}, flowery={fl}, ordinal={o}) returned {got!r}, expected {want!r}'
        if int_to_words(i) != int_to_words(i, True, False):
            yield f'int_to_words({i}) differs from flowery cardinal'
    plain = int_to_words(n, flowery=False)
    fl = int_to_words(n)
    if re.sub(' and |, ', ' ', fl) != plain and n < 10 ** 75:
        yield f'int_to_words({n}) is {fl!r}, which without commas and "and" is not {plain!r}'


def known(case, msg):
    if re.search(r"returned '[^']*\btwelveth'", msg) and msg.split('returned ')[1].split(', expected ')[0].replace('twelveth', 'twelfth').replace('qindecillion', 'quindecillion').split() == msg.split(', expected ')[1].split():
        return 'twelveth'
    if 'qindecillion' in msg:
        a, b = msg.split('returned ')[1].split(', expected ')
        if a.replace('qindecillion', 'quindecillion').replace('twelveth', 'twelfth').split() == b.split():
            return 'qindecillion'
    return None
