"""
Back ends.  check() decides satisfiability of a list of z3 terms with a
portfolio: cvc5 first when the terms mention strings/sequences, z3 first
otherwise; the other solver is the fallback.  'unknown' is never treated as
either answer.
"""
import itertools
import time
import z3
import cvc5

STATS = {'z3': 0, 'cvc5': 0, 'z3_time': 0.0, 'cvc5_time': 0.0, 'unknown': 0}

_sortcache = {}
_varcache = {}
_keep = []


def _scan(t):
    """(mentions strings/seqs, mentions quantifier/array, frozenset of free constants)"""
    i = t.get_id()
    r = _varcache.get(i)
    if r is not None:
        return r
    strings = False
    quant = False
    names = set()
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        xi = x.get_id()
        if xi in seen:
            continue
        seen.add(xi)
        if z3.is_quantifier(x):
            quant = True
            stack.append(x.body())
            continue
        if z3.is_var(x):
            continue
        k = x.sort_kind() if hasattr(x, 'sort_kind') else x.sort().kind()
        if k in (z3.Z3_SEQ_SORT, z3.Z3_RE_SORT):
            strings = True
        d = x.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED:
            if d.arity() == 0:
                names.add(d.name())
            else:
                names.add('@' + d.name())
                if all(z3.is_int_value(c) for c in x.children()):
                    names.add(f'{d.name()}{[c.as_long() for c in x.children()]}')
        stack.extend(x.children())
    r = (strings, quant, frozenset(names))
    _varcache[i] = r
    _keep.append(t)
    return r


def slice_hyps(hyps, goal):
    """hypotheses connected to the goal through shared free constants."""
    info = [(_scan(h)[2], h) for h in hyps]
    need = set(n for n in _scan(goal)[2] if not n.startswith('@'))
    out = []
    rest = info
    changed = True
    while changed:
        changed = False
        nrest = []
        for ns, h in rest:
            cs = [n for n in ns if not n.startswith('@')]
            if not cs or any(n in need for n in cs):
                out.append(h)
                if not set(cs) <= need:
                    need.update(cs)
                    changed = True
            else:
                nrest.append((ns, h))
        rest = nrest
    if len(out) == len(hyps):
        return None
    keep = set(h.get_id() for h in out)
    return [h for h in hyps if h.get_id() in keep]


def _z3check(assertions, ms, model=False):
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', int(ms))
    s.set('random_seed', 7)
    for a in assertions:
        s.add(a)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS['z3_time'] += time.time() - t0
    m = None
    if r == z3.sat and model:
        m = s.model()
    return str(r), m


class _CvcModel:
    def __init__(self, pairs):
        self.pairs = pairs


def _cvc5check(assertions, ms, model=False, consts=()):
    t0 = time.time()
    s = z3.Solver()
    for a in assertions:
        s.add(a)
    text = s.to_smt2()
    m = None
    try:
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption('strings-exp', 'true')
        slv.setOption('tlimit-per', str(int(ms)))
        if model:
            slv.setOption('produce-models', 'true')
        sm = cvc5.SymbolManager(tm)
        p = cvc5.InputParser(slv, sm)
        text = '(set-logic ALL)\n' + text
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'x')
        out = 'unknown'
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            r = c.invoke(slv, sm)
            if isinstance(r, bytes):
                r = r.decode()
            r = (r or '').strip()
            if r in ('sat', 'unsat', 'unknown'):
                out = r
            elif r.startswith('(error'):
                out = 'unknown'
                break
        if out == 'sat' and model:
            vals = {}
            for t in sm.getDeclaredTerms():
                try:
                    v = slv.getValue(t)
                    if v.isStringValue():
                        vals[str(t).strip('|')] = v.getStringValue()
                    elif v.isIntegerValue():
                        vals[str(t).strip('|')] = int(str(v.getIntegerValue()))
                    elif v.isBooleanValue():
                        vals[str(t).strip('|')] = v.getBooleanValue()
                except Exception:
                    pass
            m = vals
    except Exception:
        out = 'unknown'
    STATS['cvc5_time'] += time.time() - t0
    return out, m


def _z3model(m):
    vals = {}
    for d in m.decls():
        if d.arity() == 0:
            v = m[d]
            try:
                if z3.is_int_value(v):
                    vals[d.name()] = v.as_long()
                elif z3.is_string_value(v):
                    vals[d.name()] = v.as_string()
                elif z3.is_true(v) or z3.is_false(v):
                    vals[d.name()] = z3.is_true(v)
                elif z3.is_rational_value(v):
                    vals[d.name()] = float(v.as_fraction())
            except Exception:
                pass
    return vals


_abs = {}
_side = {}


def _isseq(t):
    return z3.is_expr(t) and t.sort().kind() in (z3.Z3_SEQ_SORT, z3.Z3_RE_SORT)


def _len_of(t, side):
    """an integer term for the length of a text, exact where the text is built by concatenation or slicing (side: facts)"""
    k = t.decl().kind()
    if z3.is_string_value(t):
        return z3.IntVal(z3.simplify(z3.Length(t)).as_long())
    if k == z3.Z3_OP_SEQ_CONCAT:
        return z3.Sum([_len_of(c, side) for c in t.children()])
    if k == z3.Z3_OP_SEQ_EMPTY:
        return z3.IntVal(0)
    if k == z3.Z3_OP_SEQ_UNIT:
        return z3.IntVal(1)
    v = z3.Int(f'len#{t.get_id()}')
    _keep.append(t)
    if k == z3.Z3_OP_SEQ_EXTRACT:
        n = _len_of(t.arg(0), side)
        i, m = _abstract(t.arg(1), side), _abstract(t.arg(2), side)
        side.append(v == z3.If(z3.And(0 <= i, i < n, m > 0), z3.If(m <= n - i, m, n - i), 0))
    elif k == z3.Z3_OP_SEQ_AT:
        n = _len_of(t.arg(0), side)
        i = _abstract(t.arg(1), side)
        side.append(v == z3.If(z3.And(0 <= i, i < n), 1, 0))
    elif k == z3.Z3_OP_ITE:
        side.append(v == z3.If(_abstract(t.arg(0), side), _len_of(t.arg(1), side), _len_of(t.arg(2), side)))
    else:
        side.append(v >= 0)
    return v


def _abstract(t, side):
    """t with everything about texts but their lengths forgotten (weaker as a hypothesis under either polarity of fresh names)"""
    i = t.get_id()
    r = _abs.get(i)
    if r is None:
        mine = []
        r = _abstract1(t, mine)
        _abs[i] = r
        _side[i] = mine
        _keep.append(t)
    side.extend(_side[i])
    return r


def _abstract1(t, side):
    if z3.is_quantifier(t) or z3.is_var(t):
        raise ValueError
    if not _scan(t)[0]:
        return t
    kids = t.children()
    k = t.decl().kind()
    if k == z3.Z3_OP_SEQ_LENGTH:
        return _len_of(t.arg(0), side)
    if any(_isseq(c) for c in kids):
        _keep.append(t)
        if z3.is_bool(t):
            v = z3.Bool(f'atom#{t.get_id()}')
            if z3.is_eq(t) and all(c.sort().kind() == z3.Z3_SEQ_SORT for c in kids):
                side.append(z3.Implies(v, _len_of(kids[0], side) == _len_of(kids[1], side)))
            elif k == z3.Z3_OP_SEQ_PREFIX or k == z3.Z3_OP_SEQ_SUFFIX:
                side.append(z3.Implies(v, _len_of(kids[0], side) <= _len_of(kids[1], side)))
            elif k == z3.Z3_OP_SEQ_CONTAINS:
                side.append(z3.Implies(v, _len_of(kids[1], side) <= _len_of(kids[0], side)))
            return v
        if _isseq(t):
            raise ValueError
        return z3.Const(f'val#{t.get_id()}', t.sort())
    if _isseq(t):
        raise ValueError
    return t.decl()(*[_abstract(c, side) for c in kids])


def lengths_only(assertions, ms):
    """decided from the lengths of the texts alone?"""
    try:
        side = []
        out = [_abstract(a, side) for a in assertions]
    except (ValueError, z3.Z3Exception):
        return False
    seen = {}
    for a in side:
        seen[a.get_id()] = a
    r, m = _z3check(out + list(seen.values()), ms)
    return r == 'unsat'


def _user(sort):
    return sort.kind() == z3.Z3_UNINTERPRETED_SORT


def _ground(t, seen, out):
    """ground terms of uninterpreted sorts"""
    i = t.get_id()
    if i in seen:
        return seen[i]
    if z3.is_var(t):
        seen[i] = False
        return False
    if z3.is_quantifier(t):
        _ground(t.body(), seen, out)        # (terms below a quantifier without its variables are ground)
        seen[i] = True
        return False
    ok = True
    for c in t.children():
        if not _ground(c, seen, out):
            ok = False
    if z3.is_quantifier(t):
        ok = False
    seen[i] = ok
    if ok and _user(t.sort()):
        out.setdefault(t.sort(), {})[i] = t
    return ok


def _over_users(assertions):
    seen = set()
    todo = list(assertions)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            if not t.is_lambda() and any(_user(t.var_sort(j)) for j in range(t.num_vars())):
                return True
            todo.append(t.body())
        else:
            todo.extend(t.children())
    return False


def instances(assertions, limit=14):
    """the assertions with universal quantifiers over uninterpreted sorts replaced by their instances at the ground terms (weaker)"""
    g = z3.Goal()
    g.add(*assertions)
    fs = list(z3.Tactic('nnf')(g)[0])
    flat = []
    while fs:
        f = fs.pop()
        if z3.is_and(f):
            fs.extend(f.children())
        else:
            flat.append(f)
    quants = [f for f in flat if z3.is_quantifier(f) and f.is_forall()]
    rest = [f for f in flat if not (z3.is_quantifier(f) and f.is_forall())]
    for rounds in range(2):
        terms = {}
        seen = {}
        for f in rest + quants:
            _ground(f, seen, terms)
        out = []
        for q in quants:
            sorts = [q.var_sort(j) for j in range(q.num_vars())]
            if not all(_user(x) for x in sorts):
                continue
            pools = [sorted(terms.get(x, {}).values(), key=lambda t: len(str(t)))[:limit] for x in sorts]
            for c in itertools.product(*pools):
                out.append(z3.substitute_vars(q.body(), *reversed(c)))
        if rounds == 0 and any(f.num_vars() == 1 for f in quants):
            # skolem terms of the first round count in the second, unless there are none new
            t2, s2 = {}, {}
            for f in out:
                _ground(f, s2, t2)
            if all(k in terms.get(x, {}) for x, d in t2.items() for k in d):
                break
            if sum(len(d) for d in t2.values()) > limit:
                break
            rest = rest + out
    return rest + out


def instantiated(assertions, ms):
    try:
        fs = instances(assertions)
        r, m = _z3check(fs, ms)
        for limit in (40, 80) if ms > 200 else ():
            if r == 'unsat':
                break
            more = instances(assertions, limit)
            if len(more) > len(fs):
                fs = more
                r, m = _z3check(fs, 2 * ms)
        return r
    except z3.Z3Exception:
        return 'unknown'


def check(assertions, ms=2000, model=False):
    """returns (result, backend, model dict or None)"""
    assertions = [a for a in assertions if not z3.is_true(a)]
    for a in assertions:
        if z3.is_false(a):
            return 'unsat', 'simplifier', None
    strings = any(_scan(a)[0] for a in assertions)
    quant = any(_scan(a)[1] for a in assertions)
    if strings and not quant and ms >= 300 and lengths_only(assertions, min(ms, 600)):
        STATS['z3'] += 1
        return 'unsat', 'z3', None
    if quant and not strings and _over_users(assertions):
        if instantiated(assertions, min(ms, 1500)) == 'unsat':
            STATS['z3'] += 1
            return 'unsat', 'z3', None
        if ms < 200:        # a feasibility question
            return 'unknown', 'none', None
    order = ['cvc5', 'z3'] if strings else ['z3', 'cvc5']
    sched = [(order[0], ms), (order[1], ms)]
    if not strings:
        sched = [('z3', ms), ('cvc5', ms)]
    for be, t in sched:
        if be == 'z3':
            r, m = _z3check(assertions, t, model)
            if m is not None:
                m = _z3model(m)
        else:
            r, m = _cvc5check(assertions, t, model)
        if r in ('sat', 'unsat'):
            STATS[be] += 1
            return r, be, m
    STATS['unknown'] += 1
    return 'unknown', 'none', None
