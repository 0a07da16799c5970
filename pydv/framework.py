"""
One check = one property:
  E1  proofs   - obligations generated from /repo's current source, discharged by cvc5/z3
  E2  oracle   - executable postcondition run on the real code: replays counter-models,
                 small-scope enumeration and seeded search (bounded; never counted as proved)
"""
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import sys
import time
import traceback

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYDV_REPO', '/repo')      # a scratch copy only while developing; the checks use /repo
if REPO not in sys.path:
    sys.path.insert(0, REPO)
OUT = os.path.join(VERIF, 'out')

BACKENDS = 'cvc5 1.4.2 and z3 5.3.2 (python API), portfolio per obligation'

BASE_TRUST = [
    'pydv itself: the AST interpreter (pydv/interp.py), path exploration and loop cutting (pydv/ctx.py)',
    'the models of Python builtins, str/bytes/list/dict/set methods (pydv/models.py, pydv/builtins_model.py)',
    'the SMT back ends cvc5 and z3',
    'CPython executes the AST that ast.parse reports for the file it imported',
]


def proof(name, functions=(), budget=60, ob_ms=4000, max_paths=3000, trust=()):
    def deco(f):
        f._proof = dict(name=name, functions=list(functions), budget=budget, ob_ms=ob_ms,
                        max_paths=max_paths, trust=list(trust))
        return f
    return deco


def proofs_of(mod):
    out = []
    for k, v in vars(mod).items():
        if callable(v) and hasattr(v, '_proof'):
            out.append(v)
    for v in getattr(mod, 'PROOFS', []):
        if v not in out:
            out.append(v)
    return out


def run_one_proof(pid, idx, scale, q):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        sys.setrecursionlimit(20000)
        import threading
        threading.stack_size(256 << 20)
        res = {}

        def body():
            try:
                res.update(_run_one_proof(pid, idx, scale))
            except BaseException as e:   # engine crash: reported, never a silent pass
                res.update(name=f'proof {idx}', obs=[], errors=[f'engine error: {type(e).__name__}: {e}',
                           traceback.format_exc()[-1500:]], paths=0, completed=0, functions={}, cover={}, secs=0,
                           assumptions=[], lines=0, declared=[], stats={})
        t = threading.Thread(target=body)
        t.start()
        t.join()
        q.put((idx, res))
    except BaseException as e:
        q.put((idx, dict(name=f'proof {idx}', obs=[], errors=[f'engine error: {e!r}'], paths=0, completed=0,
                         functions={}, cover={}, secs=0, assumptions=[], lines=0, declared=[], stats={})))


def hints_for(pid, name):
    """loop invariant candidates that fell when tools/hints.py last ran: not tried at first, only a matter of speed"""
    if os.environ.get('PYDV_NOHINTS'):
        return set()
    try:
        with open(os.path.join(VERIF, 'hints', pid + '.json')) as f:
            return {tuple(x) for x in json.load(f).get(name, ())}
    except (OSError, ValueError):
        return set()


def _run_one_proof(pid, idx, scale):
    from . import ctx as C
    from . import interp as IP
    from . import prover
    mod = importlib.import_module(f'specs.{pid}')
    fn = proofs_of(mod)[idx]
    meta = fn._proof

    def body(ctx):
        I = IP.Interp(ctx)
        fn(ctx, I)
        if not pr.cover.get('end of ' + meta['name']):
            ctx.cover('end of ' + meta['name'])
    for hinted in [hints_for(pid, meta['name']), set()]:
        pr = C.Proof(meta['name'], body, budget_s=meta['budget'] * scale, ob_ms=int(meta['ob_ms'] * scale),
                     max_paths=meta['max_paths'])
        pr.hinted = hinted
        pr.run()
        if not hinted or not pr.errors and all(o.status == 'discharged' for o in pr.obs) or 'time budget exceeded' in pr.errors:
            break
    errs = list(pr.errors)
    if not errs:
        if not pr.obs:
            errs.append('vacuous: no obligations')
        if not pr.completed:
            errs.append('vacuous: no path completes')
        if pr.cover.get('end of ' + meta['name']) is False:
            errs.append('vacuous: the end of the proof is unreachable')
        for c, v in pr.cover.items():
            if v is False and not c.startswith('end of '):
                errs.append(f'vacuous: {c} not reachable')
        seen = set(pr.functions)
        missing = [f for f in meta['functions'] if f not in seen]
        if missing:
            errs.append(f'functions under contract never executed: {missing}')
    return dict(name=meta['name'], errors=errs, paths=pr.paths, completed=pr.completed,
                obs=[(o.name, o.status, o.backend, o.secs, o.model, o.where) for o in pr.obs],
                functions=dict(pr.functions), cover={k: v for k, v in pr.cover.items()}, secs=pr.secs,
                assumptions=sorted(pr.assumptions | set(meta['trust'])), lines=len(pr.lines),
                declared=meta['functions'], stats=dict(prover.STATS), dropped=sorted([list(k[:2]) + [n] for k, n in pr.dropped] + [list(x) for x in pr.hinted]),
                restarts=pr.restarts)


def run_proofs(pid, mod, scale=1.0, only=None, jobs=6):
    fns = proofs_of(mod)
    todo = [i for i in range(len(fns)) if only is None or i in only]
    q = mp.Queue()
    running = {}
    done = {}
    while todo or running:
        while todo and len(running) < jobs:
            i = todo.pop(0)
            p = mp.Process(target=run_one_proof, args=(pid, i, scale, q))
            p.start()
            running[i] = (p, time.time(), fns[i]._proof['budget'] * scale * 2 + 25)
        try:
            i, r = q.get(timeout=0.2)
            done[i] = r
            if i in running:
                running.pop(i)[0].join(5)
        except Exception:
            pass
        for i in list(running):
            if i not in running:
                continue
            p, t0, lim = running[i]
            if time.time() - t0 > lim or (not p.is_alive() and i not in done):
                # drain once more
                try:
                    while True:
                        j, r = q.get(timeout=0.3)
                        done[j] = r
                        if j in running:
                            running.pop(j)
                except Exception:
                    pass
                if i in done:
                    continue
                if p.is_alive():
                    p.kill()
                p.join()
                running.pop(i, None)
                done[i] = dict(name=fns[i]._proof['name'], obs=[], errors=['killed: solver did not respect its time limit'],
                               paths=0, completed=0, functions={}, cover={}, secs=lim, assumptions=[], lines=0,
                               declared=fns[i]._proof['functions'], stats={})
    return [done[i] for i in sorted(done)]


def proof_ok(r):
    return not r['errors'] and all(o[1] == 'discharged' for o in r['obs'])


# ------------------------------------------------------------------ E2 ------
class CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise CaseTimeout()


def run_case(orc, case, limit=20):
    """None, or a description of the violation"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return orc.check(case)
    except CaseTimeout:
        return f'no answer within {limit} s'
    except MemoryError:
        return 'ran out of memory'
    except RecursionError as e:
        return f'RecursionError: {e}'
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        inner = [f for f in tb if f.filename.startswith(REPO + os.sep)]
        if not inner:
            raise
        return f'unexpected {type(e).__name__}: {e} at {os.path.basename(inner[-1].filename)}:{inner[-1].lineno}'
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def run_shard(pid, shard, nshards, seconds, seed, tier, hints, q):
    res = dict(shard=shard, evaluations=0, nontrivial=0, violations=[], samples=[], error=None, kinds={}, known=[])
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        orc = importlib.import_module(f'oracles.{pid}')
        rng = random.Random(seed * 1000003 + shard)
        t0 = time.time()
        known = load_known(pid)
        seen = set()
        n = 0

        def stream():
            for h in hints:
                f = getattr(orc, 'from_model', None)
                if f:
                    for c in f(h):
                        yield c
            i = 0
            for c in orc.enumerate_cases(tier):
                if i % nshards == shard:
                    yield c
                i += 1
            res['enumerated'] = True
            rnd = getattr(orc, 'random_case', None)
            while rnd:
                yield rnd(rng)
        for c in stream():
            if time.time() - t0 > seconds:
                break
            key = hash(repr(c))
            r = run_case(orc, c)
            res['evaluations'] += 1
            if key not in seen:
                seen.add(key)
                if getattr(orc, 'nontrivial', lambda c: True)(c):
                    res['nontrivial'] += 1
                    if len(res['samples']) < 2 and res['evaluations'] % 37 == 5:
                        res['samples'].append(repr(c)[:300])
            if r is not None:
                k = match_known(orc, known, c, r)
                if k is not None:
                    if k not in res['known']:
                        res['known'].append(k)
                    continue
                res['violations'].append((c, r))
                break
    except BaseException as e:
        res['error'] = f'{type(e).__name__}: {e}\n{traceback.format_exc()[-1800:]}'
    q.put(res)


def run_oracle(pid, seconds, seed, tier, hints=(), nshards=4):
    q = mp.Queue()
    ps = [mp.Process(target=run_shard, args=(pid, i, nshards, seconds, seed, tier, list(hints), q)) for i in range(nshards)]
    for p in ps:
        p.start()
    out = []
    t0 = time.time()
    while len(out) < nshards and time.time() - t0 < seconds + 60:
        try:
            out.append(q.get(timeout=0.3))
            if out[-1]['violations']:
                break
        except Exception:
            if all(not p.is_alive() for p in ps) and q.empty():
                break
    for p in ps:
        if p.is_alive():
            p.join(0.1)
        if p.is_alive():
            p.kill()
            p.join()
    return out, nshards


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d.get('findings', []) if k['property'] == pid]


def match_known(orc, known, case, msg):
    f = getattr(orc, 'known', None)
    if f is None:
        return None
    k = f(case, msg)
    return k if k in [x['key'] for x in known] else None


def minimize(orc, case, msg, seconds=10):
    """delta-debug strings/lists inside a literal case; keeps any violation"""
    sm = getattr(orc, 'shrink', None)
    t0 = time.time()
    changed = True
    while changed and time.time() - t0 < seconds:
        changed = False
        for c in (sm(case) if sm else generic_shrink(case)):
            if time.time() - t0 > seconds:
                break
            try:
                valid = getattr(orc, 'valid', None)
                if valid and not valid(c):
                    continue
                r = run_case(orc, c)
            except BaseException:
                continue
            if r is not None and (not hasattr(orc, 'known') or orc.known(c, r) is None):
                case, msg, changed = c, r, True
                break
    return case, msg


def generic_shrink(v):
    if isinstance(v, (str, bytes)):
        for i in range(len(v)):
            yield v[:i] + v[i + 1:]
    elif isinstance(v, list):
        for i in range(len(v)):
            yield v[:i] + v[i + 1:]
        for i, x in enumerate(v):
            for y in generic_shrink(x):
                yield v[:i] + [y] + v[i + 1:]
    elif isinstance(v, tuple):
        for i, x in enumerate(v):
            for y in generic_shrink(x):
                yield v[:i] + (y,) + v[i + 1:]
    elif isinstance(v, dict):
        for k in v:
            for y in generic_shrink(v[k]):
                yield {**v, k: y}


# ------------------------------------------------------------------ main ----
def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if '--replay' in argv:
        return replay(pid, argv[argv.index('--replay') + 1])
    t0 = time.time()
    outdir = os.path.join(OUT, pid)
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    has_spec = os.path.exists(os.path.join(VERIF, 'specs', pid + '.py'))
    spec_error = None
    mod = None
    if has_spec:
        try:
            mod = importlib.import_module(f'specs.{pid}')
        except Exception as e:
            spec_error = f'the contracts no longer fit the code: {type(e).__name__}: {e}'
    orc = importlib.import_module(f'oracles.{pid}')
    secs = getattr(orc, 'SECONDS', 14) * (1 if tier == 'quick' else 12)
    # E2 first pass in the background, proofs in front
    box = {}
    import threading
    th = threading.Thread(target=lambda: box.setdefault('e2', run_oracle(pid, secs, seed, tier, nshards=4)))
    th.start()
    scale = 1.0 if tier == 'quick' else 4.0
    results = run_proofs(pid, mod, scale) if mod else []
    if spec_error:
        results = [dict(name='contracts', obs=[], errors=[spec_error], paths=0, completed=0, functions={}, cover={},
                        secs=0.0, assumptions=[], lines=0, declared=[], stats={})]
    th.join()
    e2, nsh = box['e2']
    viol = [v for r in e2 for v in r['violations']]
    errors = [r['error'] for r in e2 if r['error']]
    bad = [i for i, r in enumerate(results) if not proof_ok(r)]
    rerun = 0
    if bad and not viol and mod:
        # solver hiccup or real? retry alone with more time before believing a failure
        only_unknown = [i for i in bad if needs_retry(results[i])]
        for r in run_retry(pid, mod, only_unknown, scale):
            rerun += 1
            i, rr = r
            results[i] = rr
        bad = [i for i, r in enumerate(results) if not proof_ok(r)]
    models = [o[4] for i in bad for o in results[i]['obs'] if o[1] != 'discharged' and o[4]]
    if bad and not viol:
        e3, _ = run_oracle(pid, max(40, secs * 3), seed + 17, 'deep', hints=models, nshards=7)
        e2 = e2 + e3
        viol = [v for r in e3 for v in r['violations']]
        errors += [r['error'] for r in e3 if r['error']]
    known = sorted(set(k for r in e2 for k in r['known']))
    ev = evidence(pid, tier, seed, results, e2, viol, bad, time.time() - t0, mod, orc)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    listed = {k['key']: k for k in load_known(pid)}
    for k in listed:
        print(f'KNOWN-FINDING: property={pid} {listed[k]["what"]}')
    n_ob = sum(len(r['obs']) for r in results)
    n_ok = sum(1 for r in results for o in r['obs'] if o[1] == 'discharged')
    print(f'{pid}: {len(results)} proofs, {n_ok}/{n_ob} obligations discharged, '
          f'{sum(r["evaluations"] for r in e2)} oracle runs, {time.time() - t0:.1f} s')
    for i in bad:
        r = results[i]
        for e in r['errors']:
            print(f'  [{r["name"]}] {e}')
        seen = set()
        for o in r['obs']:
            if o[1] != 'discharged' and (o[0], o[5]) not in seen:
                seen.add((o[0], o[5]))
                print(f'  [{r["name"]}] obligation not discharged ({o[1]}): {o[0]} at {o[5]}')
    if errors:
        print('oracle error: ' + errors[0], file=sys.stderr)
    if viol:
        case, msg = viol[0]
        case, msg = minimize(orc, case, msg)
        path = os.path.join(outdir, 'replay.json')
        with open(path, 'w') as f:
            json.dump(dict(property=pid, case=repr(case), violation=msg,
                           failed_obligations=failed_list(results, bad),
                           replay_cmd=f'python3-vt /verif/check.py {pid} --replay {path}'), f, indent=1)
        print(f'  input: {case!r}\n  violation: {msg}')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    if bad:
        path = os.path.join(outdir, 'replay.json')
        with open(path, 'w') as f:
            json.dump(dict(property=pid, case=None, failed_obligations=failed_list(results, bad)), f, indent=1)
        print(f'VIOLATION property={pid} replay={path} no-failing-input-found')
        return 1
    if errors:
        return 2
    return 0


def needs_retry(r):
    return True


def run_retry(pid, mod, idxs, scale):
    if not idxs:
        return []
    # a proof whose failures are all definite refutations is not retried
    rs = run_proofs(pid, mod, scale * 2.5, only=idxs, jobs=3)
    return list(zip(idxs, rs))


def failed_list(results, bad):
    out = []
    for i in bad:
        r = results[i]
        for e in r['errors']:
            out.append(dict(proof=r['name'], error=e))
        for o in r['obs']:
            if o[1] != 'discharged':
                out.append(dict(proof=r['name'], obligation=o[0], status=o[1], backend=o[2], at=o[5],
                                counter_model={k: v for k, v in (o[4] or {}).items()} if o[4] else None))
    return out[:60]


def replay(pid, path):
    orc = importlib.import_module(f'oracles.{pid}')
    with open(path) as f:
        d = json.load(f)
    if d.get('case') is None:
        print('no failing input was found; failed obligations:')
        for x in d['failed_obligations']:
            print('  ', x)
        return 1
    import ast
    case = ast.literal_eval(d['case'])
    r = run_case(orc, case)
    print(f'input: {case!r}\n' + (f'violation: {r}' if r else 'holds'))
    if r:
        print(f'VIOLATION property={pid} replay={path}')
    return 1 if r else 0


def evidence(pid, tier, seed, results, e2, viol, bad, wall, mod, orc):
    obs = [o for r in results for o in r['obs']]
    by = {}
    for o in obs:
        if o[1] == 'discharged':
            by[o[2]] = by.get(o[2], 0) + 1
    names = sorted(set(o[0] for o in obs))
    trust = list(BASE_TRUST)
    ass = []
    for r in results:
        for a in r['assumptions']:
            if a not in ass:
                ass.append(a)
    ass += [a for a in getattr(mod, 'ASSUMPTIONS', []) if a not in ass] if mod else []
    under = sorted(set(f for r in results for f in r['declared']))
    executed = {}
    for r in results:
        for k, v in r['functions'].items():
            executed[k] = executed.get(k, 0) + v
    level = getattr(mod, 'LEVEL', 'proof') if mod else 'exploration'
    ev = sum(r['evaluations'] for r in e2)
    nt = sum(r['nontrivial'] for r in e2)
    cov = dict(
        obligations=len(obs), discharged=sum(1 for o in obs if o[1] == 'discharged'),
        checker_cmd=f'python3-vt /verif/check.py {pid}',
        trusted_base=trust,
        discharged_by=by, distinct_obligations=len(names), obligation_names=names[:120],
        functions_under_contract=under,
        functions_interpreted=executed,
        solver_seconds=round(sum(o[3] for o in obs), 2),
        paths=sum(r['paths'] for r in results),
        proofs=[dict(name=r['name'], obligations=len(r['obs']), paths=r['paths'], seconds=round(r['secs'], 1),
                     lines_executed=r['lines'], errors=r['errors']) for r in results],
        backends=BACKENDS,
        bounded_standins=getattr(mod, 'BOUNDED', getattr(orc, 'BOUNDED', [])) if mod else [],
        not_proved=getattr(mod, 'NOT_PROVED', []) if mod else [],
        evaluations=ev, distinct_nontrivial=nt,
        rule=getattr(orc, 'RULE', 'every generated case that the oracle does not call trivial'),
        samples=[s for r in e2 for s in r['samples']][:6] or ['(none sampled)'],
    )
    return dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=level,
                coverage=cov, assumptions=ass, wall_s=round(wall, 2), violations=(1 if viol or bad else 0))
