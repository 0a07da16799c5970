"""int_to_words: the number is taken apart unit by unit; recursion through the contract of the function itself."""
import z3
from pydv.framework import proof
from pydv.ctx import Unsupported
from pydv.values import *
from pydv import models as M, prover
from pydv.interp import LoopSpec
import big.text as T

NOTE = 'int_to_words under contract for every int and both flags: words are laid out by units in descending order, the counts and units add up to the number'
ASSUMPTIONS = ['the reading rule of English number words: count and unit pairs in descending order plus the number below one hundred',
               'str(i) is the decimal numeral of i', 'the spellings "twelveth" and "qindecillion" are known findings']
Q = 'text.int_to_words'
NAMES = ['vigintillion', 'novemdecillion', 'octodecillion', 'septdecillion', 'sexdecillion', 'qindecillion', 'quattuordecillion', 'tredecillion', 'duodecillion', 'undecillion', '  decillion',
         '  nonillion', '  octillion', ' septillion', ' sextillion', 'quintillion', 'quadrillion', 'trillion', 'billion', 'million', 'thousand', 'hundred']
SCALE = [(10 ** (63 - 3 * p), ' ' + n) for p, n in enumerate(NAMES[:-1])] + [(100, ' hundred')]
ONES = 'zero one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen seventeen eighteen nineteen'.split()
TENS = 'twenty thirty forty fifty sixty seventy eighty ninety'.split()
ORD = {'one': 'first', 'two': 'second', 'three': 'third', 'five': 'fifth', 'eight': 'eighth', 'nine': 'ninth', 'twelve': 'twelveth'}
CARD = z3.Function('words of', IntS, BoolS, StringS)
REM = z3.Function('remaining', IntS, IntS)
STARTED = z3.Function('started', IntS, BoolS)
TXT = z3.Function('text before unit', IntS, StringS)
LAST = z3.Function('last unit', IntS, StringS)
VAL = z3.Function('value so far', IntS, IntS)
STR = z3.Function('decimal', IntS, StringS)
S = z3.StringVal
LASTF = M.Fold('last', StringS, lambda v: z3.Concat(z3.StringVal('#'), M.term(v)), lambda a, b: z3.If(b == S(''), a, b), S(''))


def ordinal(w):
    return ORD.get(w) or (w[:-1] + 'ieth' if w.endswith('y') else w + 'th')


def tail(n, o):
    """words of a number below one hundred"""
    f = ordinal if o else (lambda w: w)
    if n < 20:
        return f(ONES[n])
    return TENS[n // 10 - 2] + '-' + f(ONES[n % 10]) if n % 10 else f(TENS[n // 10 - 2])


def determine(ctx, t):
    """the one value t has on this path"""
    s = z3.Solver()
    s.set('timeout', 3000)
    s.add(*[h for h in ctx.pc if not prover._scan(h)[0]])
    if s.check() == z3.sat:
        v = s.model().eval(t, True)
        if z3.is_int_value(v) and ctx.holds(t == v):
            return v.as_long()
    return -1


def make(flowery, ordin, size):
    @proof(('flowery' if flowery else 'plain') + (' ordinal' if ordin else ' cardinal') + (' from a trillion', ' from one hundred', ' below one hundred')[size], [Q], budget=100)
    def words(ctx, I):
        kinds = ['arg', 'kw']
        i = ctx.int('number')
        neg = ctx.branch(i.t < 0)
        i0 = z3.simplify(-i.t if neg else i.t)
        ctx.folds['joined'], ctx.folds['last'] = M.JOINED, LASTF
        ctx.ghost['str'] = lambda ctx, o: SStr(STR(o.t)) if isinstance(o, SInt) else ctx.str('str')
        fl = z3.BoolVal(flowery)
        top = []
        ctx.ghost['number'] = i0

        def contract(ctx, n, flowery=True, ordinal=False):
            if not top:
                top.append(n)
                return I.call_function(T.int_to_words, [n], dict(flowery=flowery, ordinal=ordinal), skip_contract=True)
            ctx.prove('a count is a positive number', M.term(n) >= 1)
            ctx.prove('the recursion goes to smaller numbers', M.term(n) < i0)
            ctx.prove('counts are spelled in the same form', flowery is fl_arg and not ordinal)
            return SStr(CARD(M.term(n), fl))
        ctx.contracts[Q] = contract
        sep, und = (', ', ' and ') if flowery else (' ', ' ')

        def define(p):
            """the units before position p are taken"""
            thr, name = SCALE[p]
            r = REM(p)
            q = z3.If(r >= thr, r / thr, z3.IntVal(0))
            ctx.assume(z3.Implies(r < thr, z3.And(REM(p + 1) == r, STARTED(p + 1) == STARTED(p), TXT(p + 1) == TXT(p), LAST(p + 1) == LAST(p), VAL(p + 1) == VAL(p))))
            return r, thr, name

        def step(p):
            r, thr, name = define(p)
            if ctx.branch(r >= thr):
                ctx.prove('lemma: the count is smaller than the number', z3.And(r / thr >= 1, r / thr < r))
                ctx.assume(z3.And(REM(p + 1) == r % thr, STARTED(p + 1), LAST(p + 1) == S('#' + name), VAL(p + 1) == VAL(p) + (r / thr) * thr))
                lead = [S(sep)] if ctx.branch(STARTED(p)) else []
                ctx.assume(TXT(p + 1) == M.cat([TXT(p)] + lead + [CARD(r / thr, fl), S(name)]))

        if size == 0 and ctx.branch(i0 >= 10 ** 75):
            k, r = I.outcome(lambda: I.call(T.int_to_words, [i], dict(flowery=flowery, ordinal=ordin)))
            ctx.prove('numbers beyond the named units are given in digits', k == 'return' and M.is_text(r))
            ctx.prove('numbers beyond the named units are given in digits', M.term(r) == STR(i.t))
            return
        ctx.assume([i0 >= 10 ** 12, z3.And(i0 < 10 ** 12, i0 >= 100), i0 < 100][size])
        skip = [0, 18, 22][size]
        # the units above the number are not taken (their definition, unrolled)
        ctx.prove('the units passed over are larger', all(SCALE[p][0] >= (10 ** 12, 100)[size - 1] for p in range(skip)))
        ctx.assume(REM(skip) == i0)
        ctx.assume(z3.Not(STARTED(skip)))
        ctx.assume(TXT(skip) == S(''))
        ctx.assume(VAL(skip) == 0)
        ctx.assume(LAST(skip) == S(''))
        pos = lambda st: 22 - len(st.view.spine) + st.k.as_long()

        def inv(st):
            p = pos(st)
            out = [('what is taken and what remains add up to the number', VAL(p) + REM(p) == i0),
                   ('remaining is not negative', z3.And(REM(p) >= 0, REM(p) <= i0)),
                   ('nothing is left out before the first unit', z3.Implies(z3.Not(STARTED(p)), REM(p) == i0)),
                   ('a unit does not end in y', z3.Implies(STARTED(p), z3.And(z3.Length(LAST(p)) > 1, z3.SubString(LAST(p), z3.Length(LAST(p)) - 1, 1) != S('y'))))]
            out.append(('smaller than the unit before', REM(p) < (SCALE[p - 1][0] if st.k.as_long() else 10 ** 75 if p == 0 else 10 ** 12)))
            return out

        def cands(st):
            p = pos(st)
            out = []
            for n, v in sorted(st.frame.locals.items()):
                if isinstance(v, PList) and (v.prefix is None or 'joined' in v.prefix.folds):
                    try:
                        out += [(n + ' is the text so far', M.fold_of(I, v, 'joined') == TXT(p)),
                                (n + ' ends in the last unit', M.fold_of(I, v, 'last') == LAST(p)),
                                (n + ' is empty until the first unit', (M.term(M.length(I, v)) > 0) == STARTED(p))]
                    except Unsupported:
                        pass
                elif isinstance(v, SStr):
                    out.append((n + ' is the text so far', v.t == TXT(p)))
                elif isinstance(v, SInt):
                    out.append((n + ' is what remains', v.t == REM(p)))
            return out

        def at(k):
            j = k.index.as_long()
            step(22 - len(k.spine) + j)
            return j
        ctx.loops[(Q, '*')] = LoopSpec(inv, cands, rel=lambda st: [(True, STARTED(pos(st))), (False, z3.Not(STARTED(pos(st))))], spine=at)
        fl_arg = flowery
        k, r = I.outcome(lambda: I.call(T.int_to_words, [i], dict(flowery=flowery, ordinal=ordin)))
        ctx.prove('every number can be spelled', k == 'return' and M.is_text(r))
        if k != 'return':
            return
        n = REM(22)
        started = size != 2 and ctx.branch(STARTED(22))
        if started and ctx.branch(n == 0):
            want = [TXT(22)] + ([S('th')] if ordin else [])
        else:
            j = determine(ctx, n)
            ctx.prove('less than one hundred remains after the units', 0 <= j < 100)
            want = ([TXT(22), S(und)] if started else []) + [S(tail(j, ordin))]
        ctx.prove('the words are the units and what remains', M.term(r) == M.cat(([S('negative ')] if neg else []) + want))
        ctx.prove('units and remainder add up to the number', VAL(22) + n == i0)
    PROOFS.append(words)


PROOFS = []
for f in (True, False):
    for o in (False, True):
        for z in range(3):
            make(f, o, z)


@proof('not an int', [Q])
def not_int(ctx, I):
    x = [ctx.real(), ctx.str('text'), None, ctx.obj('object', tag=float)][ctx.choose(4)]
    k, r = I.outcome(lambda: I.call(T.int_to_words, [x]))
    ctx.prove('anything but an int raises ValueError', k == 'raise' and r.cls is ValueError)

