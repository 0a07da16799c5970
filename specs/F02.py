"""Directory and file helpers over a ghost file system: one path of arbitrary kind, every other path off limits."""
import builtins
import os
import os.path
import pathlib
import z3
from pydv.framework import proof
from pydv.ctx import Unsupported
from pydv.values import *
from pydv import models as M
from pydv.models import Hook
from pydv.interp import PyExc
import big.file as F

MOD = 'file.'
NOTE = 'pushd, safe_mkdir, safe_unlink, touch and the three stat helpers are under contract over a ghost file system in which any call may fail with OSError'
ASSUMPTIONS = ['os and os.path functions and open do what their documentation says (ghost file system contract)',
               'the path is not changed by another process during the call']


class IOFail(OSError):
    pass


RES = z3.Function('resolve', Obj, Obj, Obj)     # directory reached by chdir(path) from a directory


def isexc(k, r, *classes):
    return k == 'raise' and r.cls in classes


# ------------------------------------------------------------------ pushd ---
def state(o):
    """the attributes of a pushd object, with lists as (prefix, items)"""
    return {n: (v.prefix, tuple(map(id, v.items))) if isinstance(v, PList) else v for n, v in o.attrs.items()}


def same_state(a, b):
    if set(a) != set(b):
        return False
    for n in a:
        x, y = a[n], b[n]
        if isinstance(x, tuple) and isinstance(y, tuple):
            if x[0] is not y[0] or x[1] != y[1]:
                return False
        elif not (x is y or (isinstance(x, SV) and isinstance(y, SV) and z3.eq(x.t, y.t))):
            return False
    return True


class World:
    def __init__(self, ctx, path):
        self.cwd = ctx.obj('cwd')
        self.path = path
        self.log = []

        def getcwd(ctx):
            self.log.append('getcwd')
            return self.cwd

        def chdir(ctx, p):
            if ctx.choose(2):
                self.log.append('chdir failed')
                raise PyExc(ExcV(IOFail))
            self.log.append(('chdir', p))
            if p is self.path:
                self.cwd = SObj(RES(self.cwd.t, p.t))
            elif isinstance(p, SObj):
                self.cwd = p                    # a value getcwd returned: absolute
            else:
                raise Unsupported(f'chdir({p!r})')
        ctx.overrides[os.getcwd] = getcwd
        ctx.overrides[os.chdir] = chdir


@proof('pushd', [MOD + 'pushd.__init__', MOD + 'pushd.__enter__', MOD + 'pushd.__exit__'])
def pushd(ctx, I):
    path = ctx.obj('path')
    w = World(ctx, path)
    start = w.cwd
    k, o = I.outcome(lambda: I.call(F.pushd, [path]))
    ctx.prove('pushd: creating the object changes nothing', k == 'return' and not any(x != 'getcwd' for x in w.log))
    # the object in an arbitrary state of use: any stack of earlier entries, any remembered directory
    for n, v in list(o.attrs.items()):
        if isinstance(v, PList):
            v.prefix = Abstract(ctx.int('depth', 0).t, None, None, {}, getter=lambda c, k: c.obj('saved'))
            v.prefix.elem, v.prefix.cache = frozenset(), {}
            v.items = []
        elif v is path:
            pass
        elif n != 'path':
            o.attrs[n] = None if ctx.choose(2) else ctx.obj('remembered')
    w.cwd = before = ctx.obj('cwd.entry')
    s0 = state(o)
    k, r = I.outcome(lambda: I.call(I.getattr(o, '__enter__')))
    if k == 'raise':
        ctx.prove('pushd: entering fails only when the directory cannot be entered', r.cls is IOFail)
        ctx.prove('pushd: a failed entry leaves the current directory and the object as they were', z3.And(w.cwd.t == before.t, z3.BoolVal(same_state(s0, state(o)))))
        return
    ctx.prove('pushd: entering changes to the given directory', w.cwd.t == RES(before.t, path.t))
    # the block: anything, including balanced uses of the same object (which, by this proof, restore its state)
    w.cwd = ctx.obj('cwd.block')
    s1 = state(o)
    if ctx.choose(2):
        inner = w.cwd
        k, r = I.outcome(lambda: I.call(I.getattr(o, '__enter__')))
        if k == 'return':
            w.cwd = ctx.obj('cwd.inner')
            k, r = I.outcome(lambda: I.call(I.getattr(o, '__exit__'), [None, None, None]))
            if k == 'raise':
                return
            ctx.prove('pushd: leaving a nested block returns to the directory of its entry', w.cwd.t == inner.t)
        ctx.prove('pushd: a nested use restores the object', same_state(s1, state(o)))
        w.cwd = ctx.obj('cwd.block2')
    exc = ctx.choose(2)
    k, r = I.outcome(lambda: I.call(I.getattr(o, '__exit__'), [ValueError, ExcV(ValueError), ctx.obj('tb')] if exc else [None, None, None]))
    if k == 'raise':
        ctx.prove('pushd: leaving fails only when the old directory cannot be entered', r.cls is IOFail and w.log[-1] == 'chdir failed')
        return
    ctx.prove('pushd: leaving returns to the directory current on entry', w.cwd.t == before.t)
    ctx.prove('pushd: an exception in the block is not swallowed', z3.Not(truth(I, r)))
    ctx.prove('pushd: the object can be used again (its state is restored)', same_state(s0, state(o)) or not any(isinstance(v, PList) for v in o.attrs.values()))


NOSHAPE = frozenset()


def truth(I, r):
    r = I.truth(r)
    return z3.BoolVal(r) if isinstance(r, bool) else r.t


# ------------------------------------------------------------ one path ------
class FS:
    """ghost state of the one path: its kind, its content and whether its time was updated"""
    KINDS = ('none', 'file', 'dir', 'other')

    def __init__(self, ctx, path):
        self.path = path
        self.kind = self.start = self.KINDS[ctx.choose(4)]
        self.content = 'original' if self.kind != 'none' else None
        self.touched = False
        self.failed = False
        self.open = []
        fs = self

        def mine(p):
            if p is not path:
                ctx.fail('only the given path is touched', f'{p!r}')
                raise Unsupported('another path')

        def fail(ctx):
            """an effect may fail for reasons of its own"""
            if ctx.choose(2):
                fs.failed = True
                raise PyExc(ExcV(IOFail))

        def q(f):
            def g(ctx, p):
                mine(p)
                return f(fs.kind)
            return g
        O = ctx.overrides
        O[os.path.isfile] = q(lambda k: k == 'file')
        O[os.path.isdir] = q(lambda k: k == 'dir')
        O[os.path.exists] = q(lambda k: k != 'none')
        O[os.path.lexists] = q(lambda k: k != 'none')

        def unlink(ctx, p):
            mine(p)
            if fs.kind == 'none':
                raise PyExc(ExcV(FileNotFoundError))
            if fs.kind == 'dir':
                raise PyExc(ExcV(IsADirectoryError))
            fail(ctx)
            fs.kind, fs.content = 'none', None

        def makedirs(ctx, p, mode=0o777, exist_ok=False):
            mine(p)
            if fs.kind != 'none':
                if fs.kind == 'dir' and I_truth(exist_ok):
                    return
                raise PyExc(ExcV(FileExistsError))
            fail(ctx)
            fs.kind, fs.content = 'dir', 'empty'

        def utime(ctx, p, times=None):
            mine(p)
            if times is not None:
                ctx.fail('the time is the current time', f'utime times {times!r}')
            if fs.kind == 'none':
                raise PyExc(ExcV(FileNotFoundError))
            fail(ctx)
            fs.touched = True

        def opener(ctx, p, mode='r', *a, **k):
            mine(p)
            fail(ctx)
            if not isinstance(mode, str):
                raise Unsupported('open mode')
            if fs.kind == 'dir':
                raise PyExc(ExcV(IsADirectoryError))
            if 'x' in mode and fs.kind != 'none':
                raise PyExc(ExcV(FileExistsError))
            if 'r' in mode and fs.kind == 'none':
                raise PyExc(ExcV(FileNotFoundError))
            if fs.kind == 'none':
                fs.kind, fs.content = 'file', 'empty'
            elif 'w' in mode:
                fs.content = 'empty'
            f = File(ctx)
            fs.open.append(f)
            return f
        O[os.unlink] = O[os.remove] = unlink
        O[os.makedirs] = makedirs
        O[os.mkdir] = lambda ctx, p, mode=0o777: makedirs(ctx, p)
        O[os.utime] = utime
        O[builtins.open] = opener

    def closed(self):
        return all(f.closed for f in self.open)


def I_truth(x):
    return bool(x)


class File(Hook):
    methods = ('__enter__', '__exit__', 'close', 'write')

    def __init__(self, ctx):
        self.serial = ctx.next_serial()
        self.closed = False

    def m___enter__(self, ctx):
        return self

    def m___exit__(self, ctx, *a):
        self.closed = True

    def m_close(self, ctx):
        self.closed = True


def world(ctx):
    p = ctx.str('path') if ctx.choose(2) else ctx.obj('path', pathlib.PosixPath)
    return p, FS(ctx, p)


@proof('safe_mkdir', [MOD + 'safe_mkdir'])
def mkdir(ctx, I):
    p, fs = world(ctx)
    k, r = I.outcome(lambda: I.call(F.safe_mkdir, [p]))
    if k == 'return':
        ctx.prove('safe_mkdir: afterwards the path is a directory', fs.kind == 'dir')
        if fs.start == 'dir':
            ctx.prove('safe_mkdir: an existing directory is kept as it is', fs.content == 'original')
        ctx.prove('safe_mkdir: only plain files are replaced', fs.start != 'other')
    else:
        ctx.prove('safe_mkdir: raises only when a step failed or something else is in the way', fs.failed or fs.start == 'other')
        ctx.prove('safe_mkdir: nothing but a plain file is removed', fs.start in ('file', 'none') or (fs.kind == fs.start and fs.content == 'original'))


@proof('safe_unlink', [MOD + 'safe_unlink'])
def unlink(ctx, I):
    p, fs = world(ctx)
    k, r = I.outcome(lambda: I.call(F.safe_unlink, [p]))
    if k == 'raise':
        ctx.prove('safe_unlink: raises only when the removal failed', fs.failed)
        return
    ctx.prove('safe_unlink: no file remains at the path', fs.kind != 'file')
    ctx.prove('safe_unlink: anything that is not a plain file is left alone', fs.kind == ('none' if fs.start == 'file' else fs.start) and (fs.start in ('file', 'none') or fs.content == 'original'))


@proof('touch', [MOD + 'touch'])
def touch(ctx, I):
    p, fs = world(ctx)
    k, r = I.outcome(lambda: I.call(F.touch, [p]))
    ctx.prove('touch: an opened file is closed', fs.closed())
    if k == 'raise':
        ctx.prove('touch: raises only when a step failed', fs.failed)
    elif fs.start == 'none':
        ctx.prove('touch: creates an empty file', fs.kind == 'file' and fs.content == 'empty')
        return
    else:
        ctx.prove('touch: updates the time of what exists', fs.touched)
    ctx.prove('touch: the content of what exists is unchanged', fs.start == 'none' or (fs.kind == fs.start and fs.content == 'original'))


@proof('file_size / file_mtime / file_mtime_ns', [MOD + 'file_size', MOD + 'file_mtime', MOD + 'file_mtime_ns'])
def stat(ctx, I):
    p = ctx.str('path')
    vals = {n: ctx.int(n) for n in ('st_size', 'st_mtime', 'st_mtime_ns', 'st_ctime', 'st_ino', 'st_atime', 'st_ctime_ns', 'st_atime_ns', 'st_blocks', 'st_mode')}

    class St(Hook):
        def getattr(self, ctx, name):
            return vals.get(name)

    def st(ctx, q):
        ctx.prove('stat: the given path is examined', q is p)
        return St()
    ctx.overrides[os.stat] = st
    for f, n in (('getsize', 'st_size'), ('getmtime', 'st_mtime')):
        ctx.overrides[getattr(os.path, f)] = lambda ctx, q, n=n: I.getattr(st(ctx, q), n)
    k = ctx.choose(3)
    f, n = ((F.file_size, 'st_size'), (F.file_mtime, 'st_mtime'), (F.file_mtime_ns, 'st_mtime_ns'))[k]
    o, r = I.outcome(lambda: I.call(f, [p]))
    ctx.prove('stat helpers: return the field they are named for', o == 'return' and r is vals[n])
