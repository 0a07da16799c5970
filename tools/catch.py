"""Which checks catch which seeded bugs: python3 tools/catch.py [id ...]   (applies each patch to /repo, runs the property's check, undoes it)"""
import glob, json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(HERE, '..', 'seeded')
ids = sys.argv[1:] or sorted(os.listdir(SEEDED))
for i in ids:
    d = os.path.join(SEEDED, i)
    pid = json.load(open(d + '/meta.json'))['property']
    if not os.path.exists(os.path.join(HERE, '..', 'specs', pid + '.py')):
        print(i, pid, 'no check'); continue
    assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout
    subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
    try:
        t = time.time()
        r = subprocess.run(['python3-vt', os.path.join(HERE, '..', 'check.py'), pid], capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        obs = [l.strip() for l in r.stdout.splitlines() if 'obligation not discharged' in l or 'vacuous' in l]
        print(i, pid, 'exit', r.returncode, 'no-input' if v and v[0].endswith('found') else 'CAUGHT' if v else 'MISSED', f'{time.time()-t:.0f}s', '|', (obs or ['-'])[0][:160], flush=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
