"""Like catch.py, on a scratch copy of /repo (so that /repo stays untouched): python3 tools/catchcopy.py [id ...]"""
import json, os, subprocess, sys, time, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(HERE, '..', 'seeded')
for i in sys.argv[1:] or sorted(os.listdir(SEEDED)):
    d = os.path.join(SEEDED, i)
    pid = json.load(open(d + '/meta.json'))['property']
    if not os.path.exists(os.path.join(HERE, '..', 'specs', pid + '.py')):
        print(i, pid, 'no check'); continue
    c = f'/tmp/catch_{i}'
    shutil.rmtree(c, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', c], check=True)
    subprocess.run(['git', '-C', c, 'apply', d + '/patch.diff'], check=True)
    t = time.time()
    r = subprocess.run(['python3-vt', os.path.join(HERE, '..', 'check.py'), pid], capture_output=True, text=True, env=dict(os.environ, PYDV_REPO=c))
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    obs = [l.strip() for l in r.stdout.splitlines() if 'obligation not discharged' in l or 'vacuous' in l]
    print(i, pid, 'exit', r.returncode, 'no-input' if v and v[0].endswith('found') else 'CAUGHT' if v else 'MISSED', f'{time.time()-t:.0f}s', '|', (obs or ['-'])[0][:160], flush=True)
    shutil.rmtree(c)
    cj = os.path.join(HERE, 'catches.json')
    cs = json.load(open(cj)) if os.path.exists(cj) else {}
    cs[i] = f'{pid}, input replayed' if v and not v[0].endswith('found') else f'{pid}, no input found' if v else 'missed'
    o = (obs or ['-'])[0].split(': ')[-1][:120] if obs else 'the bounded part only'
    cs[i] += f' ({o})'
    json.dump(dict(sorted(cs.items())), open(cj, 'w'), indent=1)
