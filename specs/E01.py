"""Log: events is a non-empty list of (time, text, depth); the clock is any integer clock."""
import z3
from pydv.framework import proof
from pydv.values import *
from pydv.models import Hook, fold_of, fresh_list, REP, list_append, term
from pydv.interp import PyExc, LoopSpec
from big.log import Log

NOTE = 'reset, logging, enter, exit, iteration and the printed report are under contract for every history and clock; the padding done by format() specifications is taken by name'
ASSUMPTIONS = ["format(n, '09') style specifications zero-pad to the given width (the specification text itself is checked)",
               'clock readings are integers (nanoseconds), as documented']
T = z3.Function('ev_time', IntS, IntS)
E = z3.Function('ev_text', IntS, StringS)
D = z3.Function('ev_depth', IntS, IntS)
TUP = frozenset([('tuple', (frozenset([('int',)]), frozenset([('str',)]), frozenset([('int',)])))])


def entry(k):
    return (SInt(T(k)), SStr(E(k)), SInt(D(k)))


def abslist(ctx, n, get, elem):
    l = PList(ctx)
    a = Abstract(n, None, None, {}, getter=lambda c, k: get(k))
    a.elem = elem
    a.cache = {}
    l.prefix = a
    return l


def pre(ctx, I):
    now = []

    def clock(c):
        v = c.int('clock')
        now.append(v)
        return v
    n = ctx.fresh(IntS, 'n')
    d = ctx.fresh(IntS, 'depth')
    ctx.assume(z3.And(n >= 1, d >= 0))
    S = z3.Function('open', IntS, StringS)
    events = abslist(ctx, n, entry, TUP)
    stack = abslist(ctx, d, lambda k: SStr(S(k)), frozenset([('str',)]))
    start = ctx.int('start')
    log = PObj(ctx, Log, dict(clock=Native(clock, 'clock'), start=start, stack=stack, events=events,
                              longest_event=ctx.int('longest', lo=0), end=ctx.int('end')))
    ctx.trust('the clock is an arbitrary function returning integers')
    return log, now, n, d, S


def grew(ctx, I, log, n, name, text, depth, start, now):
    ev = log.attrs['events']
    ctx.prove(name + ': exactly one event is added, at the end', isinstance(ev, PList) and ev.prefix is not None and len(ev.items) == 1)
    ctx.prove(name + ': the earlier events are kept', ev.prefix.length == n)
    k = ctx.fresh(IntS, 'k')
    ctx.assume(z3.And(0 <= k, k < n))
    e = ev.prefix.getter(ctx, k)
    ctx.prove(name + ': the earlier events are unchanged', z3.And(term(e[0]) == T(k), term(e[1]) == E(k), term(e[2]) == D(k)))
    t, x, dd = ev.items[0]
    ctx.prove(name + ': the time is the clock reading relative to the start', z3.And(len(now) == 1, term(t) == term(now[-1]) - term(start)))
    ctx.prove(name + ': the text', term(x) == text)
    ctx.prove(name + ': the depth', term(dd) == depth)


@proof('log an event', ['log.Log.__call__'])
def call(ctx, I):
    log, now, n, d, S = pre(ctx, I)
    start = log.attrs['start']
    s = ctx.str('event')
    st = log.attrs['stack']
    I.call(log, [s])
    grew(ctx, I, log, n, 'log', s.t, d, start, now)
    ctx.prove('log: the open subsystems are unchanged', log.attrs['stack'] is st and not st.items and z3.BoolVal(True) and st.prefix.length.eq(d))
    ctx.prove('log: the start is unchanged', log.attrs['start'] is start)
    ctx.prove('log: the longest event covers every event', z3.And(term(log.attrs['longest_event']) >= z3.Length(s.t)))


@proof('enter', ['log.Log.enter', 'log.Log.__call__'])
def enter(ctx, I):
    log, now, n, d, S = pre(ctx, I)
    start = log.attrs['start']
    s = ctx.str('subsystem')
    I.call(Log.enter, [log, s])
    grew(ctx, I, log, n, 'enter', z3.Concat(s.t, z3.StringVal(' start')), d, start, now)
    st = log.attrs['stack']
    ctx.prove('enter: the subsystem is now the innermost open one', st.prefix.length.eq(d) and len(st.items) == 1 and st.items[0] is s)


@proof('exit', ['log.Log.exit', 'log.Log.__call__'])
def exit_(ctx, I):
    log, now, n, d, S = pre(ctx, I)
    start = log.attrs['start']
    st = log.attrs['stack']
    if ctx.choose(2, [d == 0, d > 0]) == 0:
        kind, r = I.outcome(lambda: I.call(Log.exit, [log]))
        ctx.prove('exit: leaving when nothing is open is an error and logs nothing',
                  kind == 'raise' and not log.attrs['events'].items and r.cls is IndexError)
        return
    inner = ctx.str('innermost')
    st.prefix = Abstract(d - 1, None, None, {}, getter=lambda c, k: SStr(S(k)))
    st.prefix.elem = frozenset([('str',)])
    st.prefix.cache = {}
    st.items = [inner]
    I.call(Log.exit, [log])
    grew(ctx, I, log, n, 'exit', z3.Concat(inner.t, z3.StringVal(' end')), d - 1, start, now)
    st = log.attrs['stack']
    ctx.prove('exit: exactly the innermost subsystem is closed', not st.items and st.prefix is not None and z3.simplify(st.prefix.length == d - 1))


@proof('reset and construction', ['log.Log.reset', 'log.Log.__init__'])
def reset(ctx, I):
    now = []

    def clock(c):
        v = c.int('clock')
        now.append(v)
        return v
    if ctx.choose(2):
        log, now, n, d, S = pre(ctx, I)
        I.call(Log.reset, [log])
    else:
        log = I.call(Log, [Native(clock, 'clock')])
    ev = log.attrs['events']
    ctx.prove('reset: one event, the start', ev.prefix is None and len(ev.items) == 1 and ev.items[0] == (0, 'log start', 0))
    ctx.prove('reset: nothing is open', log.attrs['stack'].prefix is None and not log.attrs['stack'].items)
    ctx.prove('reset: times count from the clock reading made now', len(now) == 1 and log.attrs['start'] is now[0])


@proof('iteration', ['log.Log.__iter__'])
def iteration(ctx, I):
    log, now, n, d, S = pre(ctx, I)

    def inv(st):
        out = [('one entry per step', fl(st.out) == st.k)]
        if 'waiting' in st:
            w = st['waiting']
            i = st.k
            out += [('the entry waiting for its end', z3.And(term(w[0]) == T(i), term(w[1]) == E(i), term(w[2]) == D(i)))]
        return out

    def fl(l):
        return (l.prefix.length if l.prefix is not None else z3.IntVal(0)) + len(l.items)

    def onyield(c, f, v):
        k = fl(f.out)
        ctx.prove('iteration: an entry has four parts', isinstance(v, tuple) and len(v) == 4)
        ctx.prove('iteration: no more entries than events', k < n)
        ctx.prove('iteration: the time, event and depth of the event', z3.And(term(v[0]) == T(k), term(v[2]) == E(k), term(v[3]) == D(k)))
        ctx.prove('iteration: elapsed time to the next event, zero for the last', term(v[1]) == z3.If(k == n - 1, z3.IntVal(0), T(k + 1) - T(k)))
    ctx.ghost[('yield', 'log.Log.__iter__')] = onyield
    ctx.loops[('log.Log.__iter__', '*')] = LoopSpec(inv=inv)
    ev = log.attrs['events']
    r = I.call(Log.__iter__, [log])
    out = I.collect(r)
    ctx.prove('iteration: one entry per event', fl(out) == n)
    ctx.prove('iteration: the log is unchanged', log.attrs['events'] is ev and not ev.items and ev.prefix.length is n)
    ctx.cover('iteration ends')


FT = z3.Function('format_time', IntS, StringS)


@proof('report', ['log.Log.print'])
def report(ctx, I):
    log, now, n, d, S = pre(ctx, I)
    L = z3.Function('ev_elapsed', IntS, IntS)

    class View(Hook):
        def __init__(self):
            self.serial = 0

        def iterate(self, ctx):
            v = IterView(n, lambda c, k: (SInt(T(k)), SInt(L(k)), SStr(E(k)), SInt(D(k))))
            return v
    k0 = ctx.fresh(IntS, 'any')
    ctx.contracts['log.Log.__iter__'] = lambda c, s: View()
    ctx.contracts['log.Log.print.format_time'] = lambda c, t: SStr(FT(term(t)))
    ctx.trust('format_time is the separately proved contract')
    lines = PList(ctx)
    ctx.ghost['lines'] = lines
    state = {'head': None}

    def fl(l):
        return (l.prefix.length if l.prefix is not None else z3.IntVal(0)) + len(l.items)
    indent = ctx.choose(3)
    title = ctx.choose(2)
    heads = ctx.choose(2)
    nh = title + 2 * heads

    def inv(st):
        return [('one line per event', fl(lines) == nh + st.k)]

    def pr(c, *a, **k):
        i = fl(lines) - nh
        ctx.prove('report: a line is printed as one text', len(a) == 1 and not k)
        if c.branch(i >= 0):
            ctx.prove('report: no more lines than events', i < n)
            sp = z3.StringVal(' ' * indent)
            ctx.prove('report: margin, start time, elapsed time, event indented by its depth',
                      term(a[0]) == z3.Concat(sp, FT(T(i)), z3.StringVal('  '), FT(L(i)), z3.StringVal('  '),
                                              z3.StringVal('') if not indent else REP(sp, z3.simplify(z3.If(D(i) > 0, D(i), z3.IntVal(0)))), E(i)))
        else:
            k = z3.simplify(i)
            if title and k.eq(z3.IntVal(-nh)):
                ctx.prove('report: the title comes first', a[0] == 'the title')
        list_append(I, lines, a[0])
    ctx.loops[('log.Log.print', '*')] = LoopSpec(inv=inv)
    # zero times a string is the empty string for an empty margin
    I.call(Log.print, [log], dict(print=Native(pr, 'print'), title='the title' if title else None, headings=bool(heads), indent=indent))
    ctx.prove('report: one line per event after the headings', fl(lines) == nh + n)
    ctx.cover('report ends')


@proof('times in the report', ['log.Log.print.format_time'])
def times(ctx, I):
    """format_time is reached through print with a single event whose times are arbitrary"""
    t = ctx.int('t', lo=0)
    F = z3.Function('format', IntS, IntS, StringS)     # n zero-padded to a width
    sw = (1, 2, 5)[ctx.choose(3)]
    fw = (0, 1, 3, 6, 9)[ctx.choose(5)]
    parts = []

    def fmt(c, x, spec):
        sp = spec if isinstance(spec, str) else None
        w = {'09': 9, '>09': 9, '0>9': 9, '09d': 9}.get(sp)
        if w is None and sp in (f'0{sw}', f'0>{sw}', f'>0{sw}', f'0{sw}d'):
            w = sw
        ctx.prove('times: zero-padded to nine digits or to the seconds width', w is not None)
        parts.append((w, x))
        r = F(term(x), z3.IntVal(w))
        c.assume(z3.Length(r) >= w)
        c.assume(z3.Implies(z3.And(term(x) >= 0, term(x) < 10 ** w), z3.Length(r) == w))
        return SStr(r)
    ctx.ghost['fmt_int'] = fmt

    class One(Hook):
        def __init__(self):
            self.serial = 0

        def iterate(self, ctx):
            return [(t, t, 'event', 0)]
    ctx.contracts['log.Log.__iter__'] = lambda c, s: One()
    log, now, n, d, S = pre(ctx, I)
    got = []
    I.call(Log.print, [log], dict(print=Native(lambda c, s: got.append(s), 'print'), title=None, headings=False, indent=0, seconds_width=sw, fractional_width=fw))
    ctx.prove('times: one line', len(got) == 1)
    sec = t.t / 10 ** 9
    ns = t.t % 10 ** 9
    want = z3.Concat(F(sec, z3.IntVal(sw)), z3.StringVal('.'), z3.SubString(F(ns, z3.IntVal(9)), 0, fw))
    ctx.prove('times: seconds, a point and the leading digits of the nanoseconds, for both times',
              term(got[0]) == z3.Concat(want, z3.StringVal('  '), want, z3.StringVal('  '), z3.StringVal('event')))
