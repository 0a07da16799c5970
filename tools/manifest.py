"""Rewrites MANIFEST.json from tools/props.py and the spec modules present (python3-vt tools/manifest.py)."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [VERIF, '/repo', HERE]
import props

NA = {
    'C01': 'classes are created at run time by a descriptor writing instance dictionaries and weak references; no contract language or verifier available here models class creation, so nothing deductive can be said',
}
TECH = 'contract-based deductive verification: contracts and loop invariants on the real functions, verification conditions generated from the current source by pydv and discharged by cvc5/z3'


def main():
    checks = []
    na = []
    for p in props.P:
        pid = p['id']
        if os.path.exists(os.path.join(VERIF, 'specs', pid + '.py')):
            m = importlib.import_module('specs.' + pid)
            lvl = getattr(m, 'LEVEL', 'proof')
            note = '. '.join(x for x in (getattr(m, 'NOTE', ''), 'Assumed: ' + '; '.join(getattr(m, 'ASSUMPTIONS', [])) if getattr(m, 'ASSUMPTIONS', []) else '',
                                         'Not proved (bounded comparison only): ' + '; '.join(getattr(m, 'NOT_PROVED', [])) if getattr(m, 'NOT_PROVED', []) else '') if x) or 'all listed functions under contract; the verifier, its models of the Python built-ins and the SMT solvers are trusted'
            tech = TECH
            if lvl != 'proof':
                tech = getattr(m, 'TECHNIQUE', TECH + '; bounded contract check for the functions named in the level note')
            checks.append(dict(property=pid, quick_cmd=f'python3-vt /verif/check.py {pid}',
                               thorough_cmd=f'python3-vt /verif/check.py {pid} --thorough',
                               technique=tech, level=lvl, level_note=note))
        else:
            na.append(dict(property=pid, reason=NA.get(pid, 'no contract discharged yet: work in progress')))
    d = dict(version=1, setup_cmd='python3-vt -c "import z3, cvc5"', checks=checks, not_applicable=na,
             notes='pydv/ is the verifier, specs/ the contracts, oracles/ the run-time form of the same contracts used to replay failures on the real code')
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(d, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks', len(na), 'not applicable')


main()
