"""Writes hints/<pid>.json, the invariant candidates that fall (python3-vt tools/hints.py PID...): later runs do not try them at first."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [VERIF, '/repo']
os.environ['PYDV_NOHINTS'] = '1'
from pydv import framework as F

for pid in sys.argv[1:]:
    mod = importlib.import_module('specs.' + pid)
    rs = F.run_proofs(pid, mod, scale=3.0, jobs=8)
    out = {}
    for r in rs:
        print(pid, r['name'], round(r['secs'], 1), r['errors'], sum(o[1] != 'discharged' for o in r['obs']), 'restarts', r.get('restarts'))
        if F.proof_ok(r) and r.get('restarts', 0) > 4:
            out[r['name']] = r['dropped']
    if out:
        os.makedirs(os.path.join(VERIF, 'hints'), exist_ok=True)
        with open(os.path.join(VERIF, 'hints', pid + '.json'), 'w') as f:
            json.dump(out, f, indent=0, sort_keys=True)
            f.write('\n')
