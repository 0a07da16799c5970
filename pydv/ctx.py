"""Path exploration by re-execution, obligations, fresh values."""
import time
import z3
from . import prover
from .values import *


class PathEnd(Exception):
    pass


class Restart(Exception):
    """the loop frame/candidate set grew: re-run the whole proof"""


class Unsupported(Exception):
    pass


class TooManyPaths(Exception):
    pass


class OutOfTime(Exception):
    pass


class Obligation:
    __slots__ = ('name', 'status', 'backend', 'secs', 'model', 'where', 'count')

    def __init__(self, name, status, backend, secs, model=None, where=''):
        self.name, self.status, self.backend, self.secs = name, status, backend, secs
        self.model, self.where = model, where


class Proof:
    """state that outlives one path: worklist, obligations, loop frames, dropped candidates"""

    def __init__(self, name, fn, budget_s=60, ob_ms=4000, max_paths=3000):
        self.name = name
        self.fn = fn
        self.obs = []
        self.obcache = {}
        self.feascache = {}
        self.keep = []
        self.control = {}      # loop key -> combinations of control variables and ghost state
        self.dirty = False
        self.havoc = {}        # loop key -> {path: shape}
        self.dropped = set()   # (loop key, candidate name)
        self.hinted = set()    # candidates not tried because they fell before (fewer candidates is always sound)
        self.paths = 0
        self.completed = 0
        self.reached = {}
        self.assumptions = set()
        self.functions = {}
        self.lines = set()
        self.ob_ms = ob_ms
        self.max_paths = max_paths
        self.deadline = time.time() + budget_s
        self.errors = []
        self.cover = {}
        self.restarts = 0

    def run(self):
        t0 = time.time()
        try:
            while True:
                try:
                    self._explore()
                    break
                except Restart:
                    self.restarts += 1
                    if self.restarts > 250:
                        raise Unsupported('loop frame does not stabilise')
                    self.obs = []
                    self.completed = 0
                    self.cover = {}
        except Unsupported as e:
            self.errors.append(f'unsupported: {e}')
        except TooManyPaths:
            self.errors.append('path limit exceeded')
        except OutOfTime:
            self.errors.append('time budget exceeded')
        self.secs = time.time() - t0
        return self

    def is_dropped(self, key, name):
        return (key, name) in self.dropped or (key[0], key[1], name) in self.hinted

    def drop(self):
        """a candidate fell: look at a few more paths for others before starting again"""
        self.drops = self.drops or self.paths
        self.dirty = True
        raise PathEnd()

    def _explore(self):
        work = [()]
        self.paths = 0
        self.drops = 0
        self.frozen = {k: list(v['tuples']) for k, v in self.control.items()}
        while work:
            prefix = work.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                raise TooManyPaths()
            ctx = Ctx(self, prefix, work)
            try:
                self.fn(ctx)
                if ctx.unprobed:
                    raise Unsupported('a symbolic comprehension or loop was not examined')
                self.completed += 1
            except PathEnd:
                pass
            if self.drops and self.paths >= self.drops + 12:
                break
        if self.dirty:
            self.dirty = False
            raise Restart()


class Ctx:
    def __init__(self, proof, prefix, work):
        self.proof = proof
        self.prefix = prefix
        self.work = work
        self.trace = []
        self.pc = []
        self.counter = 0
        self.serial = 0
        self.loops = {}
        self.contracts = {}
        self.overrides = {}
        self.folds = {}
        self.ghost = {}
        self.writelogs = []
        self.depth = 0
        self.note = ''
        self.frames = []
        self.elemfacts = {}
        self.unbound_by_loop = {}
        self.unprobed = set()   # symbolic comprehensions and loops nothing was proved about yet

    # -- fresh -----------------------------------------------------------
    def next_serial(self):
        self.serial += 1
        return self.serial

    def name(self, base):
        self.counter += 1
        return f'{base}!{self.counter}'

    def fresh(self, sort, base='v'):
        return z3.Const(self.name(base), sort)

    def int(self, base='i', lo=None, hi=None):
        v = SInt(self.fresh(IntS, base))
        if lo is not None:
            self.assume(v.t >= lo)
        if hi is not None:
            self.assume(v.t <= hi)
        return v

    def bool(self, base='b'):
        return SBool(self.fresh(BoolS, base))

    def real(self, base='r'):
        return SReal(self.fresh(RealS, base))

    def str(self, base='s', kind='str'):
        return SStr(self.fresh(StringS, base), kind)

    def obj(self, base='o', tag=None):
        return SObj(self.fresh(Obj, base), tag)

    # -- path ------------------------------------------------------------
    def assume(self, t):
        if isinstance(t, bool):
            if not t:
                raise PathEnd()
            return
        t = z3.simplify(t) if z3.is_bool(t) and not z3.is_quantifier(t) else t
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise PathEnd()
        self.pc.append(t)

    def _key(self, extra):
        return (tuple(sorted(set(a.get_id() for a in self.pc))), extra.get_id())

    def feasible(self, cond):
        """False only when a solver proved pc && cond unsatisfiable"""
        if time.time() > self.proof.deadline:
            raise OutOfTime()
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = self._key(c)
        r = self.proof.feascache.get(key)
        if r is None:
            hyps = prover.slice_hyps(self.pc, c) or self.pc
            r, be, m = prover.check(list(hyps) + [c], ms=120 if any(z3.is_quantifier(h) for h in hyps) else 400)
            self.proof.feascache[key] = r
            self.proof.keep.append((c, list(self.pc)))
        return r != 'unsat'

    def choose(self, n, conds=None, label=''):
        if n == 1 and conds is None:
            return 0
        pos = len(self.trace)
        if pos < len(self.prefix):
            c = self.prefix[pos]
            self.trace.append(c)
        else:
            alts = list(range(n))
            if conds is not None:
                alts = [i for i in alts if self.feasible(conds[i])]
                if not alts:
                    raise PathEnd()
            c = alts[0]
            base = tuple(self.trace)
            for a in reversed(alts[1:]):
                self.work.append(base + (a,))
            self.trace.append(c)
        if conds is not None:
            self.assume(conds[c])
        return c

    def branch(self, cond):
        """decide a z3 Bool"""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self.choose(2, [cond, z3.Not(cond)]) == 0

    def prove(self, name, goal, where=''):
        pr = self.proof
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if time.time() > pr.deadline:
            raise OutOfTime()
        where = where or self.note
        g = goal if z3.is_quantifier(goal) else z3.simplify(goal)
        key = (name,) + self._key(g)
        hit = pr.obcache.get(key)
        if hit is None:
            t0 = time.time()
            if z3.is_true(g):
                st, be, m = 'discharged', 'simplifier', None
            else:
                st, be, m = self._discharge(g)
            hit = Obligation(name, st, be, time.time() - t0, m, where)
            pr.obcache[key] = hit
            pr.keep.append((g, list(self.pc)))
        pr.obs.append(hit)
        if hit.status != 'discharged':
            return False
        if not z3.is_true(g):
            self.assume(g)
        return True

    def holds(self, goal, ms=None):
        """quietly ask whether pc implies goal"""
        g = goal if z3.is_quantifier(goal) else z3.simplify(goal)
        if z3.is_true(g):
            return True
        key = ('holds',) + self._key(g)
        r = self.proof.feascache.get(key)
        if r is None:       # remembered, so that a path runs the same way again
            r = self.proof.feascache[key] = self._discharge(g, ms, model=False)[0] == 'discharged'
            self.proof.keep.append((g, list(self.pc)))
        return r

    def _discharge(self, g, ms=None, model=True):
        ms = ms or self.proof.ob_ms
        if z3.is_and(g):
            worst = None
            for c in g.children():
                r = self._discharge(c, ms, model)
                if r[0] != 'discharged':
                    return r
                worst = r
            return worst
        neg = z3.Not(g)
        sl = prover.slice_hyps(self.pc, neg)
        if sl is not None:
            r, be, m = prover.check(sl + [neg], ms=ms // 2)
            if r == 'unsat':
                return 'discharged', be, None
        r, be, m = prover.check(self.pc + [neg], ms=ms, model=model)
        if r == 'unsat':
            return 'discharged', be, None
        if r == 'sat':
            return 'refuted', be, m
        return 'unknown', be, None

    def fail(self, name, why):
        """an obligation that is false outright"""
        self.proof.obs.append(Obligation(name, 'refuted', 'engine', 0.0, None, why))

    def unreachable(self, name):
        self.prove(name, z3.BoolVal(False))
        raise PathEnd()

    def cover(self, name):
        """record that some feasible path reaches this point"""
        if self.proof.cover.get(name):
            return
        if prover._over_users(self.pc):     # (quantified hypotheses: not refuted by their instances)
            r = prover.instantiated(list(self.pc), 1500)
            r = 'sat' if r != 'unsat' else r
        else:
            r, be, m = prover.check(list(self.pc), ms=1500, model=False)
        if r == 'sat':
            self.proof.cover[name] = True
        else:
            self.proof.cover.setdefault(name, False)
            if r == 'unknown':
                self.proof.cover[name] = None

    def trust(self, text):
        self.proof.assumptions.add(text)

    # -- write barrier ----------------------------------------------------
    def touched(self, obj, field=None):
        for log in self.writelogs:
            if getattr(obj, 'serial', 0) <= log['serial']:
                log['writes'].add((obj, field))
