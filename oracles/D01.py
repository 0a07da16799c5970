import os
import time
from datetime import datetime, timedelta, timezone, tzinfo
from fractions import Fraction
from zoneinfo import ZoneInfo
import big.time as T

RULE = 'int, float, struct_time (gm and local), naive and aware datetimes in several local time zones against integer calendar arithmetic; non-trivial: a non-UTC zone, a fraction or a year outside 1970-2038'
SECONDS = 12
ZONES = ['UTC', 'America/New_York', 'Asia/Kolkata', 'Pacific/Kiritimati', 'EST5EDT,M3.2.0,M11.1.0', 'XYZ-5:30:15', 'GMT-3', 'Europe/London', 'Australia/Lord_Howe']
ORD = ['int', 'float', 'gm', 'local', 'naive', 'aware', 'zone', 'now']


class Falsy(tzinfo):
    """a zone whose truth value is false"""
    def __init__(self, minutes):
        self.m = minutes

    def utcoffset(self, d):
        return timedelta(minutes=self.m)

    def dst(self, d):
        return timedelta(0)

    def tzname(self, d):
        return 'F'

    def __bool__(self):
        return False

    def __len__(self):
        return 0


class NoOffset(tzinfo):
    def utcoffset(self, d):
        return None

    def dst(self, d):
        return None

    def tzname(self, d):
        return None


class Dst(Falsy):
    """a zone that calls part of its offset daylight saving time"""
    def __init__(self, minutes, dst):
        self.m, self.d = minutes, dst

    def dst(self, d):
        return timedelta(minutes=self.d)

    def __bool__(self):
        return True


DST = {'dst0': Dst(0, 60), 'dst1': Dst(60, 60), 'dst2': Dst(-60, -60), 'dst3': Dst(60, 0)}
FALSY = Falsy(90)
NOOFF = NoOffset()


def tz_of(x):
    if x is None:
        return None
    if x == 'falsy':
        return FALSY
    if x == 'nooff':
        return NOOFF
    if x in DST:
        return DST[x]
    if isinstance(x, str):
        return ZoneInfo(x)
    return timezone(timedelta(seconds=x)) if x != 0 else timezone.utc


def civil(days):
    """proleptic Gregorian date of a day number (0 = 1970-01-01)"""
    z = days + 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    return (y + (m <= 2), m, d)


def days(y, m, d):
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m - 3 if m > 2 else m + 9) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 719468


def fields(sec):
    y, m, d = civil(sec // 86400)
    r = sec % 86400
    return y, m, d, r // 3600, r // 60 % 60, r % 60


def secs(y, mo, d, h, mi, s):
    return days(y, mo, d) * 86400 + h * 3600 + mi * 60 + s


def half_even_us(x):
    """instant in microseconds of a float"""
    return round(Fraction(x) * 1000000)


DT = [(1970, 1, 1, 0, 0, 0, 0), (2024, 2, 29, 23, 59, 59, 999999), (2023, 11, 5, 1, 30, 0, 5), (2023, 3, 12, 2, 30, 0, 0), (1999, 12, 31, 23, 59, 59, 1), (2038, 1, 19, 3, 14, 8, 500000), (2026, 6, 1, 12, 0, 0, 10), (2000, 1, 1, 0, 0, 0, 120000)]
OLD = [(1, 1, 2, 0, 0, 0, 0), (99, 5, 6, 7, 8, 9, 10), (987, 1, 1, 0, 0, 0, 0), (1234, 5, 6, 7, 8, 9, 123456), (9999, 12, 30, 23, 59, 59, 999999)]
AWARE = [0, 3600, -3600, 19800, -43200, 50400, 1, 86399, -86399, 5400, 'falsy', 'dst0', 'dst1', 'dst2', 'dst3', 'America/New_York', 'Europe/London', 'Asia/Kolkata', 'UTC']
SEC = [0, 1, -1, 59, 86399, 86400, 1700000000, 951782400, 951868799, 2147483648, -2208988800, 1699162200, 1699165800, 1678606200, 253402214400, -62135510400 + 86400, 1710000000]
FR = [0.0, 0.5, 0.25, 1e-6, 0.000001499, 0.0000005, 0.0000015, 0.999999, 0.9999999, 0.9999995, 0.123456]
WANT = [None, True, False, 0, 1, 2, '', 'x']


def enumerate_cases(tier):
    for fn in ('3339', 'human'):
        for zone in ZONES:
            for w in (None, True, False):
                for s in SEC[:14]:
                    yield (fn, zone, w, 'int', s)
                    yield (fn, zone, w, 'gm', s)
                    yield (fn, zone, w, 'local', s)
                for s in SEC[:8]:
                    for f in FR:
                        yield (fn, zone, w, 'float', s + f)
                for d in DT:
                    for fold in (0, 1):
                        yield (fn, zone, w, 'naive', (d, fold))
                for d in DT + OLD:
                    for a in AWARE:
                        for fold in (0, 1) if isinstance(a, str) else (0,):
                            yield (fn, zone, w, 'aware', (d, fold, a))
                yield (fn, zone, w, 'now', 0)
                yield (fn, zone, w, 'bool', True)
        for w in WANT:
            for k, v in (('int', 5), ('float', 5.5), ('gm', 7), ('aware', (DT[1], 0, 3600)), ('naive', (DT[1], 0)), ('now', 0)):
                yield (fn, 'UTC', w, k, v)
        for bad in ('abc', b'1', (1, 2), [1], {}, '0', (2024, 1, 1, 0, 0, 0, 0, 1, 0), 'date', 'time', 'delta', 'complex', 'fraction', 'decimal', 'object'):
            yield (fn, 'UTC', None, 'bad', bad)
    for d in DT + OLD:
        for fold in (0, 1):
            for a in [None, 'nooff'] + AWARE:
                for b in [None] + AWARE:
                    yield ('set', 'UTC', None, 'aware', (d, fold, a, b))
                    yield ('ensure', 'UTC', None, 'aware', (d, fold, a, b))
    for d in DT + OLD:
        for us in (None, 6, 3):
            for sfx in ('Z', '', '+00:00', '+05:30', '-08:00'):
                for a in (None, 0, 3600, 'America/New_York', 'falsy'):
                    yield ('parse', 'America/New_York', us, sfx, (d, a))
    for z in ZONES:
        for d in DT + OLD:
            for w in (True, False):
                yield ('round', z, w, 'aware', (d, 0, 0))


def random_case(rng):
    fn = rng.choice(['3339', '3339', 'human', 'set', 'ensure', 'round', 'parse'])
    zone = rng.choice(ZONES)
    w = rng.choice([None, True, False])
    s = rng.choice([rng.randrange(-10**9, 4 * 10**9), rng.randrange(1600000000, 1800000000)])
    big = (rng.randrange(2, 9999), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60), rng.choice([0, rng.randrange(10**6), 1000 * rng.randrange(1000)]))
    mid = (rng.randrange(1971, 2037),) + big[1:]
    a = rng.choice(AWARE + [rng.randrange(-86399, 86400)])
    if fn in ('set', 'ensure'):
        return (fn, zone, None, 'aware', (big, rng.randrange(2), rng.choice([None, a]), rng.choice([None] + AWARE)))
    if fn == 'parse':
        return (fn, zone, rng.choice([None, 6, 3]), rng.choice(['Z', '', '+00:00', '+05:30', '-08:00']), (big, rng.choice([None, a])))
    if fn == 'round':
        return (fn, zone, rng.choice([True, False]), 'aware', (big, 0, a))
    k = rng.choice(['int', 'float', 'gm', 'local', 'naive', 'aware'])
    v = {'int': s, 'gm': s, 'local': s, 'float': s + rng.random() if rng.random() < .7 else float(s), 'naive': (mid, rng.randrange(2)), 'aware': (big if fn == '3339' else mid, rng.randrange(2), a)}[k]
    return (fn, zone, w, k, v)


def nontrivial(c):
    return c[1] != 'UTC' or c[3] in ('float', 'aware')


_zone = None


def setzone(z):
    global _zone
    if _zone != z:
        os.environ['TZ'] = z
        time.tzset()
        _zone = z


def mk(d, fold, a):
    return datetime(*d, tzinfo=tz_of(a), fold=fold)


def instant(d):
    return d.replace(tzinfo=None) - d.utcoffset()


def bad(x):
    import datetime as m
    import decimal
    return {'date': m.date(2024, 1, 1), 'time': m.time(1), 'delta': m.timedelta(1), 'complex': 1j, 'fraction': Fraction(1), 'decimal': decimal.Decimal(1), 'object': object()}.get(x, x) if isinstance(x, str) else x


def off_us(td):
    return (td.days * 86400 + td.seconds) * 1000000 + td.microseconds


def known(case, msg):
    if msg.startswith('[float-default]'):
        return 'float-default'


def check(case):
    try:
        return check1(case)
    except (OverflowError, OSError):
        return None         # out of range of the platform's time functions


def check1(case):
    fn, zone, w, kind, v = case
    setzone(zone)
    if fn in ('set', 'ensure'):
        d, fold, a, b = v
        x = mk(d, fold, a)
        before = (d, fold)
        r = T.datetime_set_timezone(x, tz_of(b)) if fn == 'set' else T.datetime_ensure_timezone(x, tz_of(b))
        want = tz_of(b) if fn == 'set' or a is None else tz_of(a)
        got = (r.year, r.month, r.day, r.hour, r.minute, r.second, r.microsecond)
        if got != d or r.fold != fold:
            return f'{fn} changed {d} fold {fold} into {got} fold {r.fold}'
        if not (r.tzinfo is want or (isinstance(r.tzinfo, timezone) and r.tzinfo == want)):
            return f'{fn}({a}, {b}) gave the zone {r.tzinfo!r}, expected {want!r}'
        if fn == 'ensure' and a is not None and a != 'nooff' and instant(r) != instant(x):
            return f'ensure changed the instant of {x!r} to {r!r}'
        if x.tzinfo is not tz_of(a) and x.tzinfo != tz_of(a):
            return 'input changed'
        return None
    if fn == 'parse':
        if not hasattr(T, 'parse_timestamp_3339Z'):
            return None
        d, a = v
        if d[0] < 1000:
            return None
        us = d[6]
        s = '%04d-%02d-%02dT%02d:%02d:%02d' % d[:6]
        if w == 6:
            s += '.%06d' % us
        elif w == 3:
            us = us // 1000 * 1000
            s += '.%03d' % (us // 1000)
        else:
            us = 0
        s += kind
        r = T.parse_timestamp_3339Z(s, timezone=tz_of(a)) if a is not None else T.parse_timestamp_3339Z(s)
        if (r.year, r.month, r.day, r.hour, r.minute, r.second, r.microsecond) != d[:6] + (us,):
            return f'parsing {s!r} gave {r!r}'
        if kind:
            off = 0 if kind == 'Z' else (1 if kind[0] == '+' else -1) * (int(kind[1:3]) * 60 + int(kind[4:6]))
            if r.utcoffset() != timedelta(minutes=off):
                return f'parsing {s!r} gave the offset {r.utcoffset()}'
        elif not (r.tzinfo is tz_of(a) or (a is not None and isinstance(r.tzinfo, timezone) and r.tzinfo == tz_of(a))):
            return f'parsing {s!r} with timezone={a} gave {r!r}'
        return None
    if fn == 'round':
        d, fold, a = v
        x = mk(d, fold, a)
        s = T.timestamp_3339Z(x, w)
        if not hasattr(T, 'parse_timestamp_3339Z') or s[0] == '0':
            return None
        r = T.parse_timestamp_3339Z(s)
        want = x if w else x - timedelta(microseconds=x.microsecond)
        if r.tzinfo is None or instant(r) != instant(want):
            return f'{x!r} printed as {s!r} parses back as {r!r}'
        return None
    f = T.timestamp_3339Z if fn == '3339' else T.timestamp_human
    us = 0
    naive = None
    if kind == 'bad':
        try:
            r = f(bad(v))
        except TypeError:
            return None
        except Exception as e:
            return f'{v!r} raised {e!r} instead of TypeError'
        return f'{v!r} was accepted: {r!r}'
    if kind == 'now':
        lo = time.time_ns() // 1000
        r = f(want_microseconds=w) if w is not None else f()
        hi = time.time_ns() // 1000
        return check_now(fn, r, lo, hi, w)
    if kind in ('int', 'bool'):
        arg, us = v, int(v) * 1000000
        default = False
    elif kind == 'float':
        arg, us = v, half_even_us(v)
        if abs(Fraction(v) * 1000000 % 1 - Fraction(1, 2)) < Fraction(1, 100):
            return None         # the library's own rounding of a tie is not the subject
        default = True
    elif kind == 'gm':
        arg, us, default = time.gmtime(v), v * 1000000, False
    elif kind == 'local':
        arg, us, default = time.localtime(v), v * 1000000, False
    elif kind == 'naive':
        d, fold = v
        arg = datetime(*d, fold=fold)
        naive = d
        us = int(arg.replace(microsecond=0).timestamp()) * 1000000 + d[6]
        default = True
    else:
        d, fold, a = v
        arg = mk(d, fold, a)
        us = secs(*d[:6]) * 1000000 + d[6] - off_us(arg.utcoffset())
        default = True
    sec, frac = us // 1000000, us % 1000000
    if fn == '3339':
        y, mo, dd, h, mi, s = fields(sec)
        if not 1 <= y <= 9999:
            return None
        base = '%04d-%02d-%02dT%02d:%02d:%02d' % (y, mo, dd, h, mi, s)
        tail = 'Z'
    else:
        if naive:
            y, mo, dd, h, mi, s = naive[:6]
        else:
            lt = time.localtime(sec)
            y, mo, dd, h, mi, s = lt[:6]
        if not 1000 <= y <= 9999:
            return None
        base = '%04d/%02d/%02d %02d:%02d:%02d' % (y, mo, dd, h, mi, s)
        tail = ''
    on = default if w is None else bool(w)
    want = base + ('.%06d' % frac if on else '') + tail
    r = f(arg) if w is None else f(arg, w) if w is True else f(arg, want_microseconds=w)
    if r != want:
        if fn == '3339' and kind == 'float' and w is None and r == base + tail:
            return f'[float-default] timestamp_3339Z({v!r}) is {r!r}, without the documented microseconds'
        return f'{fn} timestamp of {arg!r} (local zone {zone}, want_microseconds={w}) is {r!r}, expected {want!r}'
    return None


def check_now(fn, r, lo, hi, w):
    on = True if w is None else bool(w)
    fmt = '%Y-%m-%dT%H:%M:%S' if fn == '3339' else '%Y/%m/%d %H:%M:%S'
    if on:
        fmt += '.%f'
    if fn == '3339':
        fmt += 'Z'
    try:
        d = datetime.strptime(r, fmt)
    except ValueError:
        return f'current time printed as {r!r}'
    if len(r) != {('3339', True): 27, ('3339', False): 20, ('human', True): 26, ('human', False): 19}[fn, on]:
        return f'current time printed as {r!r}'
    if fn == '3339':
        us = secs(d.year, d.month, d.day, d.hour, d.minute, d.second) * 1000000 + d.microsecond
    else:
        us = int(d.replace(microsecond=0).timestamp()) * 1000000 + d.microsecond
    slack = 2000000 if not on else 50000
    if fn == 'human':
        if min(abs(us - x) for x in (lo, hi)) % 3600000000 > slack and not lo - slack <= us <= hi + slack:
            return f'current time printed as {r!r}, the clock said {lo} to {hi} microseconds'
    elif not lo - slack <= us <= hi + slack:
        return f'current time printed as {r!r}, the clock said {lo} to {hi} microseconds'
    return None


def valid(c):
    return c[0] in ('3339', 'human', 'set', 'ensure', 'parse', 'round') and c[1] in ZONES and c[3] in ('int', 'float', 'gm', 'local', 'naive', 'aware', 'now', 'bool', 'bad', 'Z', '', '+00:00', '+05:30', '-08:00')
