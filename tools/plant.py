"""Makes /verif/seeded/<id>/ from the entries of tools/plants/*.py and confirms each in a scratch copy.
usage: python3 tools/plant.py [id ...]     (plants without a folder when no id is given)
An entry: plant(id, property, edits=[(file, old, new), ...], needs=, breaks=, demo=PYTHON)"""
import json, os, shutil, subprocess, sys, glob
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(HERE, '..', 'seeded')
ALL = {}


def plant(id, property, edits, needs, breaks, demo):
    assert id not in ALL, id
    ALL[id] = dict(property=property, edits=edits, needs=needs, what_it_breaks=breaks, demo=demo)


SH = '''#!/bin/sh
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def run(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def original_lines():
    return None


def make(id):
    e = ALL[id]
    scratch = f'/tmp/plant_{id}'
    shutil.rmtree(scratch, ignore_errors=True)
    run(['git', '-C', '/repo', 'worktree', 'prune'])
    r = run(['git', 'clone', '-q', '/repo', scratch])
    assert r.returncode == 0, r.stderr
    base = run(['git', '-C', scratch, 'rev-list', '--max-parents=0', 'HEAD']).stdout.strip().split()[-1]
    d = os.path.join(SEEDED, id)
    tmpd = f'/tmp/plantdemo_{id}'
    shutil.rmtree(tmpd, ignore_errors=True)
    os.makedirs(tmpd)
    open(tmpd + '/demo.sh', 'w').write(SH)
    open(tmpd + '/demo.py', 'w').write(e['demo'].lstrip('\n'))
    os.chmod(tmpd + '/demo.sh', 0o755)
    try:
        r0 = run(['sh', tmpd + '/demo.sh'], cwd=scratch, timeout=250)
        if r0.returncode:
            return f'demo fails on the unchanged tree: {r0.stdout[-300:]}{r0.stderr[-600:]}'
        orig = run(['git', '-C', '/repo', 'log', '--format=%H', '--reverse']).stdout.split()[0]
        for f, old, new in e['edits']:
            p = os.path.join(scratch, f)
            s = open(p).read()
            if s.count(old) != 1:
                return f'{f}: old text occurs {s.count(old)} times'
            open(p, 'w').write(s.replace(old, new))
        # the changed lines must be lines of the original repository
        diff = run(['git', '-C', scratch, 'diff', '-U0']).stdout
        removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        for f in set(f for f, _, _ in e['edits']):
            o = run(['git', '-C', '/repo', 'show', f'{BASE}:{f}']).stdout.splitlines()
            bad = [l for l in removed if l.strip() and l not in o]
            if bad:
                print(f'   {id}: note: changes lines not in the original: {bad[:3]}')
        r1 = run(['sh', tmpd + '/demo.sh'], cwd=scratch, timeout=250)
        if r1.returncode == 0:
            return 'demo passes with the change'
        # the stable tests, in the scratch copy
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LC_ALL='C.UTF-8', TZ='UTC')
        open(tmpd + '/rp.py', 'w').write(open('/opt/vp/run_pytest.py').read().replace('/repo/tests', scratch + '/tests'))
        x = run(['timeout', '200', '/opt/venv/bin/python', tmpd + '/rp.py', '-q', '-p', 'no:cacheprovider', '--timeout=60', '--ignore=tests/test_all.py',
                 '-o', 'junit_family=xunit2', f'--junitxml={tmpd}/junit.xml', 'tests'], cwd=scratch, env=env)
        run(['/usr/bin/python3', '/opt/vp/results.py', tmpd + '/out.json', f'junit:{tmpd}/junit.xml'])
        out = json.load(open(tmpd + '/out.json'))
        stable = json.load(open('/opt/vp/BASELINE.json'))
        st = set(stable['stable'])
        passed = set(out['passed'])
        missing = [t for t in st if t not in passed]
        if missing:
            return f'existing tests notice: {missing[:4]}'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(run(['git', '-C', scratch, 'diff']).stdout)
        shutil.copy(tmpd + '/demo.sh', d + '/demo.sh')
        shutil.copy(tmpd + '/demo.py', d + '/demo.py')
        json.dump(dict(property=e['property'], needs=e['needs'], what_it_breaks=e['what_it_breaks']), open(d + '/meta.json', 'w'), indent=1)
        return None
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        shutil.rmtree(tmpd, ignore_errors=True)


BASE = '35e3a39'
if __name__ == '__main__':
    sys.modules['plant'] = sys.modules['__main__']
    for f in sorted(glob.glob(os.path.join(HERE, 'plants', '*.py'))):
        exec(compile(open(f).read(), f, 'exec'), dict(plant=plant))
    ids = sys.argv[1:] or [i for i in ALL if not os.path.isdir(os.path.join(SEEDED, i))]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for i, r in zip(ids, ex.map(make, ids)):
            print(i, 'REJECTED: ' + r if r else 'kept', flush=True)
