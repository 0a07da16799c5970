import itertools
import os
import pathlib
import pickle
import shutil
import stat
import tempfile
from big.all import pushd, safe_mkdir, safe_unlink, touch

RULE = ('each helper on every kind of path (absent, file, directory, links, fifo, missing or non-directory parent), and nested / reused / failing pushd blocks, in a scratch '
        'directory as an unprivileged user; non-trivial: something already exists at the path or blocks nest')
SECONDS = 10
KINDS = ['absent', 'file', 'empty', 'dir', 'full', 'lfile', 'ldir', 'dangling', 'fifo', 'noparent', 'fileparent', 'deep', 'ro']
OPS = ['safe_mkdir', 'safe_unlink', 'touch']
PT = ['str', 'bytes', 'path', 'rel', 'slash']


def enumerate_cases(tier):
    for op in OPS:
        for k in KINDS:
            for pt in PT:
                yield ('p', k, [(op, pt)])
            for op2 in OPS:
                yield ('p', k, [(op, 'str'), (op2, 'rel'), (op, 'path')])
    for blocks in BLOCKS:
        yield ('d', blocks)


# a block: [index of the pushd object, body]; body items: block | 'x' (raise) | 'c<dir>' (chdir) | 'r' (remove the outer directory is not done)
BLOCKS = [
    [[0, []]], [[0, ['x']]], [[0, ['c/']]], [[0, [[1, []]]]], [[0, [[0, []]]]], [[0, [[1, ['x']], 'cb']]], [[0, []], [0, []]], [[0, [[1, [[2, ['x']]]]]]], [[3, []]], [[0, [[3, []]]], [0, []]],
    ['cb', [0, ['c/']], [0, [[0, [[0, ['x']]]]]]], [[4, []]], [[4, [[4, []]]]], [[5, [[1, []]]], 'ca', [1, []]], [[1, [[0, []], [1, []], 'x']], [1, []]], [[0, ['ca', [6, []], 'c/', [6, ['x']]]]], [[6, [[6, [[6, []]]]]]],
]


def rblock(rng, d):
    body = []
    for _ in range(rng.randrange(3)):
        r = rng.random()
        body.append(rblock(rng, d + 1) if r < .55 and d < 4 else 'x' if r < .7 else rng.choice(['ca', 'cb', 'c/', 'ca/s']))
    return [rng.randrange(7), body]


def random_case(rng):
    if rng.random() < .6:
        return ('d', [rblock(rng, 0) if rng.random() < .8 else rng.choice(['ca', 'cb', 'c/']) for _ in range(rng.randrange(1, 4))])
    return ('p', rng.choice(KINDS), [(rng.choice(OPS), rng.choice(PT)) for _ in range(rng.randrange(1, 5))])


def nontrivial(c):
    return c[0] == 'p' and c[1] != 'absent' or c[0] == 'd' and any(isinstance(b, list) and any(isinstance(x, list) for x in b[1]) for b in c[1])


def shrink(c):
    if c[0] == 'd':
        for i in range(len(c[1])):
            yield ('d', c[1][:i] + c[1][i + 1:])
    else:
        for i in range(len(c[2])):
            yield ('p', c[1], c[2][:i] + c[2][i + 1:])


def check(case):
    """in a child process, as an unprivileged user, below a scratch directory that belongs to it"""
    base = tempfile.mkdtemp(prefix='f02_')
    try:
        root = os.geteuid() == 0
        if root:
            os.chown(base, 65534, 65534)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                if root:
                    os.setgroups([])
                    os.setgid(65534)
                    os.setuid(65534)
                os.chdir(base)
                try:
                    m = paths(case, base) if case[0] == 'p' else dirs(case, base)
                except Exception as e:
                    import traceback
                    tb = traceback.extract_tb(e.__traceback__)
                    inner = [f for f in tb if '/big/' in f.filename]
                    m = f'unexpected {e!r} at {inner[-1].filename}:{inner[-1].lineno}' if inner else ('HARNESS', repr(e), traceback.format_exc()[-800:])
                os.write(w, pickle.dumps(m))
            finally:
                os._exit(0)
        os.close(w)
        data = b''
        try:
            while True:
                x = os.read(r, 65536)
                if not x:
                    break
                data += x
        except BaseException:
            os.kill(pid, 9)
            raise
        finally:
            os.close(r)
            os.waitpid(pid, 0)
        m = pickle.loads(data) if data else 'the helper process died'
        if isinstance(m, tuple):
            raise RuntimeError(m)
        return m
    finally:
        shutil.rmtree(base, ignore_errors=True)


def snap(base):
    out = {}
    for d, ds, fs in os.walk(base):
        for n in ds + fs:
            p = os.path.join(d, n)
            st = os.lstat(p)
            rel = os.path.relpath(p, base)
            if stat.S_ISLNK(st.st_mode):
                out[rel] = ('link', os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                out[rel] = ('dir',)
            elif stat.S_ISREG(st.st_mode):
                with open(p, 'rb') as f:
                    out[rel] = ('file', f.read())
            else:
                out[rel] = ('other',)
    return out


def paths(case, base):
    kind = case[1]
    os.mkdir('other')
    with open('other/keep', 'wb') as f:
        f.write(b'keep')
    with open('target', 'wb') as f:
        f.write(b'target')
    os.mkdir('tdir')
    p = 'p'
    if kind in ('file', 'empty', 'ro'):
        with open(p, 'wb') as f:
            f.write(b'' if kind == 'empty' else b'content')
        if kind == 'ro':
            os.chmod(p, 0o400)
    elif kind in ('dir', 'full'):
        os.mkdir(p)
        if kind == 'full':
            with open('p/in', 'wb') as f:
                f.write(b'in')
    elif kind == 'lfile':
        os.symlink('target', p)
    elif kind == 'ldir':
        os.symlink('tdir', p)
    elif kind == 'dangling':
        os.symlink('nowhere', p)
    elif kind == 'fifo':
        os.mkfifo(p)
    elif kind == 'noparent':
        p = 'q/p'
    elif kind == 'fileparent':
        p = 'target/p'
    elif kind == 'deep':
        p = 'other/x/y/z'
    old = 1000000000
    for d, ds, fs in os.walk(base):
        for n in ds + fs:
            if not os.path.islink(os.path.join(d, n)) and n != 'nowhere':
                os.utime(os.path.join(d, n), (old, old))
    for i, (op, pt) in enumerate(case[2]):
        where = f'step {i} ({op} on {kind})'
        full = os.path.join(base, p)
        arg = {'str': full, 'bytes': os.fsencode(full), 'path': pathlib.Path(full), 'rel': p, 'slash': full + '/'}[pt]
        if pt == 'slash' and op != 'safe_mkdir':
            arg = full
        before = snap(base)
        want = dict(before)
        isfile = os.path.isfile(arg)
        isdir = os.path.isdir(arg)
        exists = os.path.exists(arg)
        parentdir = os.path.isdir(os.path.dirname(full))
        mayraise = False
        if op == 'safe_unlink':
            if isfile:
                del want[p]
        elif op == 'safe_mkdir':
            if isfile:
                del want[p]
                want[p] = ('dir',)
            elif isdir:
                pass
            elif kind == 'fileparent' or os.path.lexists(full):
                mayraise = True
            else:
                q = p
                while q:
                    want.setdefault(q, ('dir',))
                    q = os.path.dirname(q)
        else:
            if exists:
                if kind == 'ro' and isfile:
                    pass
            elif not parentdir:
                mayraise = True
            elif kind == 'dangling' and os.path.islink(full):
                want['nowhere'] = ('file', b'')
            else:
                want[p] = ('file', b'')
        try:
            {'safe_mkdir': safe_mkdir, 'safe_unlink': safe_unlink, 'touch': touch}[op](arg)
            err = None
        except OSError as e:
            err = e
        after = snap(base)
        if err is not None and not mayraise:
            return f'{where}: raised {err!r}'
        if err is None and mayraise:
            return f'{where}: raised nothing'
        if after != want:
            diff = {k: (before.get(k), after.get(k)) for k in set(after) | set(want) if after.get(k) != want.get(k)}
            return f'{where}: unexpected effect, (before, after) of each path: {diff}'
        if op == 'touch' and err is None:
            if os.stat(full).st_mtime <= old + 1000:
                return f'{where}: the modification time was not updated'
        if op == 'safe_mkdir' and err is None and not os.path.isdir(full):
            return f'{where}: no directory there'
    return None


class Boom(Exception):
    pass


def dirs(case, base):
    for d in ('a/s/s', 'b/a/s', 's/a', 'a/a/b', 'b/b/b', 'a/b/a', 's/s/s'):
        os.makedirs(d)
    targets = [os.path.join(base, 'a'), 'b', os.fsencode(os.path.join(base, 's')), os.path.join(base, 'missing'), 'a', pathlib.Path(base) / 'b', 's']
    objs = [pushd(t) for t in targets]
    before = snap(base)
    log = []

    def run(b):
        if isinstance(b, str):
            if b == 'x':
                raise Boom
            try:
                os.chdir(os.path.join(base, b[1:].lstrip('/')))
            except OSError:
                pass
            return
        i, body = b
        entry = os.getcwd()
        t = targets[i % 7]
        try:
            exp = os.path.realpath(os.path.join(entry, os.fsdecode(t)))
            ok = os.path.isdir(exp)
            entered = False
            with objs[i % 7]:
                entered = True
                if not ok:
                    log.append(f'pushd to a missing directory {exp} entered the block')
                if os.getcwd() != exp:
                    log.append(f'inside the block of {t!r} the directory is {os.getcwd()}, expected {exp}')
                for x in body:
                    run(x)
        except OSError:
            if entered or ok:
                log.append(f'OSError for {t!r}')
        except Boom:
            if os.getcwd() != entry:
                log.append(f'after an exception the directory is {os.getcwd()}, expected {entry}')
            raise
        if os.getcwd() != entry:
            log.append(f'after the block of {t!r} the directory is {os.getcwd()}, expected {entry}')

    for b in case[1]:
        try:
            run(b)
        except Boom:
            pass
    if snap(base) != before:
        log.append('pushd changed the file system')
    return log[0] if log else None
