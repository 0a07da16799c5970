"""Time stamps: datetime arithmetic is the library's (uninterpreted field functions of instant and zone); every field of the output is tracked."""
import calendar
import time
from datetime import datetime, timezone
import z3
from pydv.framework import proof
from pydv.ctx import Unsupported
from pydv.values import *
from pydv import models as M
from pydv.models import Hook
from pydv.interp import PyExc
import big.time as T

MOD = 'time.'
ASSUMPTIONS = ['datetime.now, fromtimestamp, astimezone, strftime, calendar.timegm and time.mktime denote the instants and fields the Python documentation says',
               "strftime('%Y') pads to four digits only from the year 1000 on (platform C library), so the human form is stated for those years",
               'dateutil.parser.parse denotes the string it parses: parsing back is checked by the bounded oracle only']
NOTE = 'every function of big/time.py is under contract; the default of want_microseconds for a float in timestamp_3339Z is left open (known finding)'

FIELDS = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')
FIELD = {n: z3.Function('field.' + n, IntS, IntS, IntS) for n in FIELDS}
PAD = z3.Function('pad', IntS, IntS, StringS)           # decimal, zero padded to a width
YEARSTR = z3.Function('strftime.Y', IntS, StringS)
RND = z3.Function('float.microseconds', RealS, IntS)    # round half even of seconds
UTC, LOCAL = z3.IntVal(0), z3.IntVal(1)
DIRECTIVE = {'m': ('month', 2), 'd': ('day', 2), 'H': ('hour', 2), 'M': ('minute', 2), 'S': ('second', 2), 'f': ('microsecond', 6)}


class TZ(Hook):
    """a user tzinfo: its truth value and equality are its own"""

    def __init__(self, ctx, id_):
        self.serial = ctx.next_serial()
        self.id = id_
        self.b = ctx.bool('tz.truth')

    def truth(self, ctx):
        return self.b

    def eq(self, ctx, other):
        if self is other:
            return True
        e = ctx.fresh(BoolS, 'tz.eq')
        oid = zone_id(other)
        if oid is None:
            return False
        i = z3.Int('i')
        ctx.assume(z3.ForAll([i], z3.Implies(e, z3.And([FIELD[n](i, self.id) == FIELD[n](i, oid) for n in FIELDS]))))
        return e


def zone_id(tz):
    if tz is timezone.utc:
        return UTC
    if isinstance(tz, TZ):
        return tz.id
    return None


class DT(Hook):
    pytype = datetime
    methods = ('strftime', 'astimezone', 'replace', 'timestamp', 'utcoffset', 'isoformat')

    def __init__(self, ctx, fields, tz, inst, fold):
        self.serial = ctx.next_serial()
        self.fields, self.tz, self.inst, self.fold = fields, tz, inst, fold

    def getattr(self, ctx, name):
        if name in FIELDS:
            return SInt(self.fields[name])
        if name == 'tzinfo':
            return M.NONE if self.tz is None else self.tz
        if name == 'fold':
            return self.fold
        return super().getattr(ctx, name)

    def m_strftime(self, ctx, f):
        out = []
        for p in pieces(M.term(f)):
            if isinstance(p, str):
                k = 0
                while k < len(p):
                    if p[k] == '%':
                        if k + 1 >= len(p):
                            raise Unsupported('strftime format')
                        c = p[k + 1]
                        k += 2
                        if c == 'Y':
                            out.append(YEARSTR(self.fields['year']))
                        elif c in DIRECTIVE:
                            n, w = DIRECTIVE[c]
                            out.append(PAD(self.fields[n], z3.IntVal(w)))
                        elif c == '%':
                            out.append(z3.StringVal('%'))
                        else:
                            raise Unsupported(f'strftime %{c}')
                    else:
                        e = p.find('%', k)
                        e = len(p) if e < 0 else e
                        out.append(z3.StringVal(p[k:e]))
                        k = e
            else:
                out.append(p)
        return SStr(M.cat(out))

    def m_astimezone(self, ctx, tz=None):
        z = LOCAL if tz is None else zone_id(tz)
        if z is None:
            raise Unsupported('astimezone')
        if tz is None:
            tz = TZ(ctx, LOCAL)
        return DT(ctx, at(self.inst, z), tz, self.inst, ctx.int('fold', 0, 1))

    def m_replace(self, ctx, **kw):
        f = dict(self.fields)
        tz, fold = kw.pop('tzinfo', self.tz), kw.pop('fold', self.fold)
        for n, v in kw.items():
            f[n] = M.term(v)
        return DT(ctx, f, tz, ctx.fresh(IntS, 'instant'), fold)


def pieces(t):
    if z3.is_string_value(t):
        return [t.as_string().encode().decode('unicode_escape')]
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [x for c in t.children() for x in pieces(c)]
    if z3.is_app(t) and t.decl().name() == 'pad':
        return [t]
    raise Unsupported('strftime with an unknown format')


def at(inst, zone):
    return {n: FIELD[n](inst, zone) for n in FIELDS}


class Struct(Hook):
    pytype = time.struct_time
    NAMES = {'tm_year': 'year', 'tm_mon': 'month', 'tm_mday': 'day', 'tm_hour': 'hour', 'tm_min': 'minute', 'tm_sec': 'second'}

    def __init__(self, ctx, gm, zone, off, secs):
        self.serial = ctx.next_serial()
        self.gm, self.zone, self.off, self.secs = gm, zone, off, secs
        self.tm_isdst = 0 if gm else ctx.int('isdst', -1, 1)

    def getattr(self, ctx, name):
        if name in self.NAMES:
            return SInt(FIELD[self.NAMES[name]](1000000 * self.secs, UTC if self.gm else LOCAL))
        r = {'tm_zone': self.zone, 'tm_gmtoff': self.off, 'tm_isdst': self.tm_isdst}
        if name in r:
            return M.NONE if r[name] is None else r[name]
        return super().getattr(ctx, name)


def setup(ctx, I):
    def now(ctx, tz=None):
        i = ctx.fresh(IntS, 'now')
        ctx.ghost['now'].append(i)
        if tz is None:
            return DT(ctx, at(i, LOCAL), None, i, ctx.int('fold', 0, 1))
        return DT(ctx, at(i, zone_id(tz)), tz, i, 0)

    def fromts(ctx, t, tz=None):
        i = 1000000 * t.t if isinstance(t, SInt) else RND(t.t) if isinstance(t, SReal) else None
        if i is None:
            raise Unsupported('fromtimestamp')
        if tz is None:
            return DT(ctx, at(i, LOCAL), None, i, ctx.int('fold', 0, 1))
        return DT(ctx, at(i, zone_id(tz)), tz, i, 0)

    def real(ctx, secs):
        ctx.assume(RND(z3.ToReal(secs)) == 1000000 * secs)
        return SReal(z3.ToReal(secs))

    def timegm(ctx, s):
        if s.gm:
            return SInt(s.secs)
        r = ctx.int('timegm')
        if isinstance(s.off, SInt):
            ctx.assume(r.t == s.secs + s.off.t)
        return r

    def mktime(ctx, s):
        return real(ctx, ctx.fresh(IntS, 'mktime') if s.gm else s.secs)

    def gettime(ctx):
        i = ctx.fresh(IntS, 'now')
        ctx.ghost['now'].append(i)
        r = ctx.real('now')
        ctx.assume(RND(r.t) == i)
        return r

    def make(ctx, year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        f = {n: M.numterm(v) for n, v in zip(FIELDS, (year, month, day, hour, minute, second, microsecond))}
        return DT(ctx, f, tzinfo, ctx.fresh(IntS, 'instant'), fold)

    def fmt_int(ctx, x, spec):
        s = M.concretize(spec)
        if s[:1] == '0' and s[1:].rstrip('d').isdigit():
            return SStr(PAD(x.t, z3.IntVal(int(s[1:].rstrip('d')))))
        return None
    ctx.ghost['now'] = []
    ctx.ghost['fmt_int'] = fmt_int
    ctx.overrides[datetime.now] = now
    ctx.overrides[datetime.fromtimestamp] = fromts
    ctx.overrides[calendar.timegm] = timegm
    ctx.overrides[time.mktime] = mktime
    ctx.overrides[time.time] = gettime
    ctx.overrides[datetime] = make


def argument(ctx):
    """(value, instant, fields if naive, default want_microseconds or None if left open)"""
    k = ctx.choose(7)
    if k == 0:
        return None, None, None, True, 'now'
    if k == 1:
        x = ctx.int('t')
        return x, 1000000 * x.t, None, False, 'int'
    if k == 2:
        x = ctx.real('t')
        return x, RND(x.t), None, True, 'float'
    if k == 3:
        s = ctx.fresh(IntS, 'secs')
        return Struct(ctx, True, 'GMT', 0, s), 1000000 * s, None, False, 'struct'
    if k == 4:
        s = ctx.fresh(IntS, 'secs')
        if ctx.choose(2):
            return Struct(ctx, False, None, None, s), 1000000 * s, None, False, 'struct'
        return Struct(ctx, False, ctx.str('zone'), ctx.int('gmtoff'), s), 1000000 * s, None, False, 'struct'
    i = ctx.fresh(IntS, 'instant')
    if k == 5:
        f = {n: ctx.fresh(IntS, n) for n in FIELDS}
        return DT(ctx, f, None, i, ctx.int('fold', 0, 1)), i, f, True, 'naive'
    tz = timezone.utc if ctx.choose(2) else TZ(ctx, ctx.fresh(IntS, 'zone'))
    return DT(ctx, at(i, zone_id(tz)), tz, i, ctx.int('fold', 0, 1)), i, None, True, 'aware'


def pad(f, n, w=2):
    return PAD(f[n], z3.IntVal(w))


def want_of(ctx):
    k = ctx.choose(3)
    if k == 0:
        return None, None
    b = ctx.bool('want')
    return b, b.t


def text(f, sep, mid):
    L = z3.StringVal
    return [pad(f, 'year', 4), L(sep), pad(f, 'month'), L(sep), pad(f, 'day'), L(mid), pad(f, 'hour'), L(':'), pad(f, 'minute'), L(':'), pad(f, 'second')]


def run(ctx, I, fn, human):
    setup(ctx, I)
    t, inst, naive, default, kind = argument(ctx)
    w, wt = want_of(ctx)
    style = ctx.choose(2)
    k, r = I.outcome(lambda: I.call(fn, [t, w]) if style else I.call(fn, [t], {'want_microseconds': w}))
    ctx.prove('every accepted kind of time value is formatted', k == 'return')
    if k != 'return':
        return
    ctx.cover(f'{kind}')
    if kind == 'now':
        ctx.prove('the current time is read once', len(ctx.ghost['now']) == 1)
        inst = ctx.ghost['now'][0]
    f = (naive or at(inst, LOCAL)) if human else at(inst, UTC)
    if human:
        ctx.assume(f['year'] >= 1000)
    ctx.assume(z3.Implies(f['year'] >= 1000, YEARSTR(f['year']) == PAD(f['year'], z3.IntVal(4))))
    L = z3.StringVal
    base = text(f, '/', ' ') if human else text(f, '-', 'T')
    tail = [] if human else [L('Z')]
    plain, micro = M.cat(base + tail), M.cat(base + [L('.'), pad(f, 'microsecond', 6)] + tail)
    on = z3.BoolVal(default) if wt is None else wt
    what = 'local date and time' if human else 'UTC date and time'
    if wt is None and kind == 'float' and not human:
        ctx.prove(f'{what} of the instant, with or without microseconds', z3.Or(M.term(r) == plain, M.term(r) == micro))
        return
    ctx.prove(f'{what} of the instant, microseconds exactly when requested ({kind})', M.term(r) == z3.If(on, micro, plain))


@proof('timestamp_3339Z', [MOD + 'timestamp_3339Z'])
def rfc(ctx, I):
    run(ctx, I, T.timestamp_3339Z, False)


@proof('timestamp_human', [MOD + 'timestamp_human'])
def human(ctx, I):
    run(ctx, I, T.timestamp_human, True)


@proof('unsupported types', [MOD + 'timestamp_3339Z', MOD + 'timestamp_human'])
def bad(ctx, I):
    setup(ctx, I)
    fn = T.timestamp_human if ctx.choose(2) else T.timestamp_3339Z
    k = ctx.choose(4)
    x = (ctx.obj('x'), ctx.str('x'), ctx.str('x', 'bytes'), PList(ctx, []))[k]
    o, r = I.outcome(lambda: I.call(fn, [x]))
    ctx.prove('an unsupported type raises TypeError', o == 'raise' and r.cls is TypeError)


@proof('datetime_set_timezone / datetime_ensure_timezone', [MOD + 'datetime_set_timezone', MOD + 'datetime_ensure_timezone'])
def setens(ctx, I):
    setup(ctx, I)
    f = {n: ctx.fresh(IntS, n) for n in FIELDS}
    old = None if ctx.choose(2) else TZ(ctx, ctx.fresh(IntS, 'zone'))
    new = (None, timezone.utc, TZ(ctx, ctx.fresh(IntS, 'zone2')))[ctx.choose(3)]
    fold = ctx.int('fold', 0, 1)
    d = DT(ctx, f, old, ctx.fresh(IntS, 'instant'), fold)
    ens = ctx.choose(2)
    k, r = I.outcome(lambda: I.call(T.datetime_ensure_timezone if ens else T.datetime_set_timezone, [d, new]))
    ctx.prove('set/ensure: never raises', k == 'return' and isinstance(r, DT))
    if not isinstance(r, DT):
        return
    for n in FIELDS:
        ctx.prove(f'set/ensure: the {n} is unchanged', r.fields[n] == f[n])
    ctx.prove('set/ensure: fold is unchanged', M.numterm(r.fold) == fold.t)
    ctx.prove('set/ensure: input unchanged', d.fields == f and d.tz is old)
    if ens and old is not None:
        ctx.prove('ensure: a datetime with a time zone keeps it', r.tz is old)
    else:
        ctx.prove('set: the time zone is the one given', r.tz is new)


@proof('parse_timestamp_3339Z', [MOD + 'parse_timestamp_3339Z'])
def parse(ctx, I):
    setup(ctx, I)
    if not hasattr(T, 'parse_timestamp_3339Z'):
        return
    import dateutil.parser
    f = {n: ctx.fresh(IntS, n) for n in FIELDS}
    old = None if ctx.choose(2) else TZ(ctx, ctx.fresh(IntS, 'zone'))
    new = (None, timezone.utc, TZ(ctx, ctx.fresh(IntS, 'zone2')))[ctx.choose(3)]
    fold = ctx.int('fold', 0, 1)
    s = ctx.str('s')
    d = DT(ctx, f, old, ctx.fresh(IntS, 'instant'), fold)
    ctx.overrides[dateutil.parser.parse] = lambda ctx, x: (ctx.prove('parse: the given string is parsed', x is s), d)[1]
    k, r = I.outcome(lambda: I.call(T.parse_timestamp_3339Z, [s], {'timezone': new}))
    ctx.prove('parse: returns what the string says', k == 'return' and isinstance(r, DT) and all(z3.eq(r.fields[n], f[n]) for n in FIELDS))
    if isinstance(r, DT):
        ctx.prove('parse: the time zone argument is used only when the string has none', r.tz is (old if old is not None else new))
