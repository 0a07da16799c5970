"""
Direct-style symbolic interpreter over the Python AST of /repo's current
source.  Values are ordinary Python values where they are known and symbolic
values (values.py) where they are not; a symbolic condition forks the path
(ctx.branch); a loop whose trip count is not known is cut by its invariant.
"""
import ast
import builtins
import inspect
import os
import sys
import types
import z3
from .values import *
from .ctx import PathEnd, Restart, Unsupported
from . import models

REPO = os.environ.get('PYDV_REPO', '/repo')      # a scratch copy only while developing; the checks use /repo


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class PyExc(Exception):
    """a Python-level exception of the interpreted program"""

    def __init__(self, exc):
        self.exc = exc

    def __str__(self):
        return f'{self.exc!r}'


# ---------------------------------------------------------------- source ---
_files = {}


class Src:
    def __init__(self, path):
        self.path = path
        with open(path, 'rb') as f:
            self.text = f.read().decode('utf-8')
        self.tree = ast.parse(self.text, path)
        self.funcs = {}
        self.lambdas = {}
        self._walk(self.tree, '', None)

    def _walk(self, node, prefix, cls):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                first = min([ch.lineno] + [d.lineno for d in ch.decorator_list])
                ch._qual = prefix + ch.name
                ch._cls = cls
                self.funcs[(ch.name, first)] = ch
                annotate(ch)
                self._walk(ch, prefix + ch.name + '.', cls)
            elif isinstance(ch, ast.ClassDef):
                self._walk(ch, prefix + ch.name + '.', ch.name)
            else:
                if isinstance(ch, ast.Lambda):
                    ch._qual = prefix + '<lambda>'
                    ch._cls = cls
                    annotate(ch)
                    self.lambdas.setdefault(ch.lineno, []).append(ch)
                self._walk(ch, prefix, cls)


def annotate(fn):
    """locals, nonlocals, generator-ness, loop ordinals of one function node"""
    assigned = set()
    nonl = set()
    isgen = False
    loops = []
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(reversed(body))
    comp = 0
    order = []
    while stack:
        n = stack.pop()
        order.append(n)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            assigned.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            isgen = True
        if isinstance(n, (ast.Nonlocal, ast.Global)):
            nonl.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            assigned.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            assigned.add(n.name)
        if isinstance(n, (ast.For, ast.While)):
            loops.append(n)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # comprehension variables live in their own scope
            loops.append(n)
            for g in n.generators:
                stack.append(g.iter)
            continue
        stack.extend(reversed(list(ast.iter_child_nodes(n))))
    loops.sort(key=lambda n: (n.lineno, n.col_offset))
    for i, l in enumerate(loops):
        l._ordinal = i
    fn._assigned = assigned - nonl
    fn._nonlocal = nonl
    fn._isgen = isgen


def src_of(path):
    s = _files.get(path)
    if s is None:
        s = _files[path] = Src(path)
    return s


def in_repo(fn):
    code = getattr(fn, '__code__', None)
    return code is not None and os.path.abspath(code.co_filename).startswith(REPO + os.sep)


def node_of(fn):
    code = fn.__code__
    s = src_of(os.path.abspath(code.co_filename))
    n = s.funcs.get((code.co_name, code.co_firstlineno))
    if n is None and code.co_name == '<lambda>':
        c = s.lambdas.get(code.co_firstlineno, [])
        if len(c) == 1:
            n = c[0]
    if n is None:
        raise Unsupported(f'no source for {fn!r}')
    n._path = s.path
    return n


class Frame:
    def __init__(self, ctx, node, qualname, globs, parent=None, cls=None, freevars=None):
        self.node = node
        self.qualname = qualname
        self.globs = globs
        self.parent = parent
        self.cls = cls
        self.locals = {}
        self.freevars = freevars or {}
        self.out = None
        self.onyield = None
        self.serial = ctx.next_serial()
        self.caller = None


UNSET = object()


class LoopState:
    """what an invariant may talk about"""

    def __init__(self, interp, frame, k=None, n=None, old=None, view=None):
        self.interp = interp
        self.ctx = interp.ctx
        self.frame = frame
        self.k = k
        self.n = n
        self.old = old
        self.view = view

    def __getitem__(self, name):
        f = self.frame
        while f is not None:
            if name in f.locals:
                return f.locals[name]
            if name in f.freevars:
                return f.freevars[name]
            f = f.parent
        raise Unsupported(f'loop invariant mentions unknown local {name!r} of {self.frame.qualname}')

    def __contains__(self, name):
        try:
            self[name]
            return True
        except Unsupported:
            return False

    @property
    def out(self):
        return self.frame.out

    def t(self, name):
        """z3 term of a local"""
        return models.term(self[name])


class LoopSpec:
    def __init__(self, inv=None, cands=None, make=None, seq=False, hints=None, shapes=None, rel=None, when=None, spine=None):
        self.spine = spine  # cut a loop over a known list too: called with the view (its .spine, .index) at each element
        self.when = when    # applies to loops over this view only
        self.rel = rel      # partition of the ghost state: [(label, condition)], related to the concrete control variables
        self.inv = inv or (lambda st: [])
        self.cands = cands or (lambda st: [])
        self.make = make or {}
        self.shapes = shapes or {}
        self.seq = seq


class Spine(IterView):
    def __init__(self, ctx, items, at):
        self.spine = items

        def get(ctx, k):
            self.index = k
            return items[at(self)]
        IterView.__init__(self, z3.IntVal(len(items)), get)


class Interp:
    def __init__(self, ctx):
        self.ctx = ctx
        ctx.interp = self
        self.builtin_exc = {n: getattr(builtins, n) for n in dir(builtins)
                            if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}

    # ------------------------------------------------------------ calling --
    def throw(self, cls, *args):
        raise PyExc(ExcV(cls, args))

    def outcome(self, thunk):
        """('return', value) or ('raise', ExcV)"""
        try:
            return ('return', thunk())
        except PyExc as e:
            return ('raise', e.exc)

    def call(self, fn, args=(), kwargs=None):
        kwargs = kwargs or {}
        ctx = self.ctx
        args = list(args)
        if isinstance(fn, Native):
            return fn.fn(ctx, *args, **kwargs)
        if isinstance(fn, BoundM):
            return self.call(fn.fn, [fn.self_] + args, kwargs)
        if isinstance(fn, Closure):
            return self.call_closure(fn, args, kwargs)
        if isinstance(fn, ModelM):
            return models.call_method(self, fn.obj, fn.name, args, kwargs)
        if isinstance(fn, types.MethodType):
            return self.call(fn.__func__, [fn.__self__] + args, kwargs)
        try:
            ov = ctx.overrides.get(fn)
        except TypeError:
            ov = None
        if ov is not None:
            return ov(ctx, *args, **kwargs)
        if isinstance(fn, types.FunctionType):
            if in_repo(fn):
                return self.call_function(fn, args, kwargs)
        if isinstance(fn, type) and issubclass(fn, BaseException):
            return ExcV(fn, tuple(args))
        if isinstance(fn, type) and self.is_repo_class(fn):
            return self.instantiate(fn, args, kwargs)
        if isinstance(fn, SObj):
            h = ctx.ghost.get('call_obj')
            if h is not None:
                return h(ctx, fn, args, kwargs)
        if isinstance(fn, models.Hook) and hasattr(fn, 'call'):
            return fn.call(ctx, args, kwargs)
        if isinstance(fn, PObj):
            m = self.class_lookup(fn.cls, '__call__')
            if m is not None:
                return self.call(m, [fn] + args, kwargs)
        return models.call_builtin(self, fn, args, kwargs)

    def is_repo_class(self, cls):
        mod = sys.modules.get(getattr(cls, '__module__', None))
        f = getattr(mod, '__file__', None)
        return bool(f) and os.path.abspath(f).startswith(REPO + os.sep)

    def instantiate(self, cls, args, kwargs):
        if issubclass(cls, BaseException):
            return ExcV(cls, tuple(args))
        q = self.qual(cls)
        c = self.ctx.contracts.get(q)
        if c is not None:
            return c(self.ctx, *args, **kwargs)
        if issubclass(cls, (str, bytes, int, tuple)) or hasattr(cls, '__members__'):
            return models.native(self, cls, args, kwargs)
        o = PObj(self.ctx, cls)
        init = self.class_lookup(cls, '__init__')
        if init is not None and init is not object.__init__:
            self.call(init, [o] + args, kwargs)
        elif args or kwargs:
            self.throw(TypeError, 'takes no arguments')
        return o

    def qual(self, fn):
        return f'{fn.__module__}.{fn.__qualname__}'

    def call_function(self, fn, args, kwargs, skip_contract=False):
        node = node_of(fn)
        mod = os.path.splitext(os.path.basename(node._path))[0]
        qn = f'{mod}.{node._qual}'
        c = None if skip_contract else self.ctx.contracts.get(qn)
        if c is not None and c != 'inline':
            return c(self.ctx, *args, **kwargs)
        free = {}
        if fn.__closure__:
            for nm, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    free[nm] = cell.cell_contents
                except ValueError:
                    pass
        f = Frame(self.ctx, node, qn, fn.__globals__, None, node._cls, free)
        self.bind(f, node, args, kwargs, fn.__defaults__ or (), fn.__kwdefaults__ or {})
        return self.run_frame(f)

    def call_closure(self, cl, args, kwargs):
        c = self.ctx.contracts.get(cl.qualname)
        if c is not None:
            return c(self.ctx, *args, **kwargs)
        f = Frame(self.ctx, cl.node, cl.qualname, cl.globs, cl.frame, cl.cls)
        self.bind(f, cl.node, args, kwargs, cl.defaults, cl.kwdefaults)
        return self.run_frame(f)

    def bind(self, f, node, args, kwargs, defaults, kwdefaults):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        L = f.locals
        kwargs = dict(kwargs)
        for i, v in enumerate(args):
            if i < len(pos):
                L[pos[i]] = v
            elif a.vararg is None:
                self.throw(TypeError, f'{f.qualname} takes fewer positional arguments')
        if a.vararg is not None:
            rest = tuple(args[len(pos):])
            if rest and isinstance(rest[-1], models.StarArgs):
                rest = rest[0].o if len(rest) == 1 else models.Opaque('args')
            elif any(isinstance(x, models.StarArgs) for x in args):
                raise Unsupported('unknown arguments bound to named parameters')
            L[a.vararg.arg] = rest
        elif any(isinstance(x, models.StarArgs) for x in args):
            raise Unsupported('unknown arguments bound to named parameters')
        for nm in list(kwargs):
            if nm in pos or any(k.arg == nm for k in a.kwonlyargs):
                if nm in L:
                    self.throw(TypeError, f'multiple values for {nm}')
                L[nm] = kwargs.pop(nm)
        restk = kwargs.pop('**', None)
        if restk is not None and a.kwarg is None:
            raise Unsupported('unknown keyword arguments')
        if kwargs and a.kwarg is None:
            self.throw(TypeError, f'unexpected keyword arguments {sorted(kwargs)}')
        if a.kwarg is not None:
            L[a.kwarg.arg] = restk if restk is not None and not kwargs else PDict(self.ctx, kwargs) if restk is None else models.Opaque('kwargs')
        off = len(pos) - len(defaults)
        for i, nm in enumerate(pos):
            if nm not in L:
                if i >= off:
                    L[nm] = defaults[i - off]
                else:
                    self.throw(TypeError, f'missing argument {nm}')
        for k in a.kwonlyargs:
            if k.arg not in L:
                if k.arg in kwdefaults:
                    L[k.arg] = kwdefaults[k.arg]
                else:
                    self.throw(TypeError, f'missing argument {k.arg}')

    def run_frame(self, f):
        node = f.node
        if isinstance(node, ast.Lambda):
            f.caller = self.frame if hasattr(self, 'frame') else None
            saved = getattr(self, 'frame', None)
            self.frame = f
            try:
                return self.eval(node.body, f)
            finally:
                self.frame = saved
        pr = self.ctx.proof
        pr.functions[f.qualname] = pr.functions.get(f.qualname, 0) + 1
        if node._isgen:
            return GenObj(self.ctx, f)
        return self.run_body(f)

    def run_body(self, f):
        self.ctx.depth += 1
        if self.ctx.depth > 60:
            raise Unsupported(f'recursion too deep in {f.qualname} (a recursive function needs a contract)')
        saved = getattr(self, 'frame', None)
        f.caller = saved
        self.frame = f
        try:
            self.exec_block(f.node.body, f)
            return None
        except ReturnX as r:
            return r.v
        finally:
            self.frame = saved
            self.ctx.depth -= 1

    def collect(self, gen):
        """run a generator to completion; its yields as a PList"""
        if gen.started:
            out = gen.frame.out
            return PList(self.ctx)
        gen.started = True
        out = PList(self.ctx)
        gen.frame.out = out
        self.run_body(gen.frame)
        return out

    # ---------------------------------------------------------- statements --
    def exec_block(self, stmts, f):
        for s in stmts:
            self.exec(s, f)

    def exec(self, s, f):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__}')
        self.ctx.note = f'{f.qualname}:{s.lineno}'
        self.ctx.proof.lines.add((f.qualname, s.lineno))
        return m(s, f)

    def x_Expr(self, s, f):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, f)

    def x_Pass(self, s, f):
        pass

    def x_Import(self, s, f):
        import importlib
        for a in s.names:
            self.store_name(f, a.asname or a.name.split('.')[0], importlib.import_module(a.name))

    def x_ImportFrom(self, s, f):
        import importlib
        m = importlib.import_module(('.' * s.level) + (s.module or ''), f.globs.get('__package__'))
        for a in s.names:
            self.store_name(f, a.asname or a.name, getattr(m, a.name))

    def x_Nonlocal(self, s, f):
        pass

    def x_Global(self, s, f):
        pass

    def x_Assert(self, s, f):
        if not self.truth(self.eval(s.test, f)):
            self.throw(AssertionError)

    def x_Return(self, s, f):
        raise ReturnX(self.eval(s.value, f) if s.value is not None else None)

    def x_Break(self, s, f):
        raise BreakX()

    def x_Continue(self, s, f):
        raise ContinueX()

    def x_Assign(self, s, f):
        v = self.eval(s.value, f)
        for t in s.targets:
            self.assign(t, v, f)

    def x_AnnAssign(self, s, f):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, f), f)

    def x_AugAssign(self, s, f):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load_name(f, t.id)
            self.store_name(f, t.id, self.inplace(s.op, old, self.eval(s.value, f)))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, f)
            old = self.getattr(o, self.mangle(t.attr, f))
            self.setattr(o, self.mangle(t.attr, f), self.inplace(s.op, old, self.eval(s.value, f)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, f)
            i = self.eval_slice(t.slice, f)
            old = models.getitem(self, o, i)
            models.setitem(self, o, i, self.inplace(s.op, old, self.eval(s.value, f)))
        else:
            raise Unsupported('augmented assignment target')

    def inplace(self, op, a, b):
        r = models.inplace(self, type(op).__name__, a, b)
        if r is not NotImplemented:
            return r
        return models.binop(self, type(op).__name__, a, b)

    def x_Delete(self, s, f):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id not in f.locals:
                    self.throw(UnboundLocalError, t.id)
                self.local_write(f, t.id)
                del f.locals[t.id]
            elif isinstance(t, ast.Subscript):
                models.delitem(self, self.eval(t.value, f), self.eval_slice(t.slice, f))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, f)
                nm = self.mangle(t.attr, f)
                if isinstance(o, PObj):
                    if nm not in o.attrs:
                        self.throw(AttributeError, nm)
                    self.ctx.touched(o, nm)
                    del o.attrs[nm]
                else:
                    raise Unsupported('del attribute')
            else:
                raise Unsupported('del target')

    def x_If(self, s, f):
        if self.truth(self.eval(s.test, f)):
            self.exec_block(s.body, f)
        else:
            self.exec_block(s.orelse, f)

    def x_FunctionDef(self, s, f):
        v = Closure(s, f, f'{f.qualname}.{s.name}', f.globs, f.cls,
                    tuple(self.eval(d, f) for d in s.args.defaults),
                    {k.arg: self.eval(d, f) for k, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None})
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, f), [v])
        self.store_name(f, s.name, v)

    def x_Raise(self, s, f):
        if s.exc is None:
            e = getattr(f, 'handling', None)
            if e is None:
                raise Unsupported('bare raise outside handler')
            raise PyExc(e)
        v = self.eval(s.exc, f)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = ExcV(v)
        if isinstance(v, BaseException):
            v = ExcV(type(v), v.args)
        if not isinstance(v, ExcV):
            if isinstance(v, PObj) and issubclass(v.cls, BaseException):
                v = ExcV(v.cls)
            else:
                self.throw(TypeError, 'exceptions must derive from BaseException')
        raise PyExc(v)

    def x_Try(self, s, f):
        try:
            try:
                self.exec_block(s.body, f)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.eval(h.type, f)
                        ts = t if isinstance(t, tuple) else (t,)
                        ok = issubclass(e.exc.cls, ts)
                    if ok:
                        if h.name:
                            self.store_name(f, h.name, e.exc)
                        saved = getattr(f, 'handling', None)
                        f.handling = e.exc
                        try:
                            self.exec_block(h.body, f)
                        finally:
                            f.handling = saved
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, f)
        except (PathEnd, Restart):
            raise
        except (PyExc, ReturnX, BreakX, ContinueX):
            self.exec_block(s.finalbody, f)
            raise
        self.exec_block(s.finalbody, f)

    def x_With(self, s, f):
        self._with(s.items, s.body, f)

    def _with(self, items, body, f):
        if not items:
            self.exec_block(body, f)
            return
        it = items[0]
        m = self.eval(it.context_expr, f)
        v = self.call(self.getattr(m, '__enter__'), [])
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, f)
        ex = self.getattr(m, '__exit__')
        try:
            self._with(items[1:], body, f)
        except PyExc as e:
            r = self.call(ex, [e.exc.cls, e.exc, None])
            if not self.truth(r):
                raise
            return
        except (ReturnX, BreakX, ContinueX):
            self.call(ex, [None, None, None])
            raise
        self.call(ex, [None, None, None])

    # -------------------------------------------------------------- loops --
    def x_For(self, s, f):
        it = self.eval(s.iter, f)
        view = models.iterate(self, it)
        if isinstance(view, list):
            spec = self.loop_spec((f.qualname, s._ordinal))
            if spec is not None and spec.spine is not None and view:
                return self.cut(s, f, Spine(self.ctx, view, spec.spine))
            try:
                for v in view:
                    self.assign(s.target, v, f)
                    try:
                        self.exec_block(s.body, f)
                    except ContinueX:
                        pass
            except BreakX:
                return
            self.exec_block(s.orelse, f)
            return
        if isinstance(view, types.GeneratorType) or hasattr(view, '__next__'):
            # a live concrete-stepped iterator (list mutated while iterating etc.)
            try:
                for v in view:
                    self.assign(s.target, v, f)
                    try:
                        self.exec_block(s.body, f)
                    except ContinueX:
                        pass
            except BreakX:
                return
            self.exec_block(s.orelse, f)
            return
        self.cut(s, f, view)

    def x_While(self, s, f):
        key = (f.qualname, s._ordinal)
        if key in self.ctx.loops or (f.qualname, '*') in self.ctx.loops or ('*', '*') in self.ctx.loops:
            return self.cut(s, f, None)
        n = 0
        try:
            while True:
                v = self.eval(s.test, f)
                if self.symbolic_truth(v):
                    raise Unsupported(f'no invariant for loop {key} at line {s.lineno}')
                if not self.truth(v):
                    break
                try:
                    self.exec_block(s.body, f)
                except ContinueX:
                    pass
                n += 1
                if n > 300:
                    raise Unsupported(f'no invariant for loop {key} at line {s.lineno}')
        except BreakX:
            return
        self.exec_block(s.orelse, f)

    def symbolic_truth(self, v):
        if isinstance(v, SV):
            return True
        if isinstance(v, PList):
            return v.prefix is not None and not v.items
        return isinstance(v, (SSet, SMap, Bag))

    def loop_spec(self, key):
        loops = self.ctx.loops
        return loops.get(key) or loops.get((key[0], '*')) or loops.get(('*', '*'))

    def cut(self, s, f, view):
        ctx = self.ctx
        pr = ctx.proof
        key = (f.qualname, s._ordinal)
        spec = self.loop_spec(key)
        if spec is not None and spec.when is not None and not spec.when(view):
            spec = None
        if spec is None:
            if view is not None and models.map_filter_loop(self, s, f, view):
                return
            raise Unsupported(f'no invariant for loop {key} at line {s.lineno}')
        key += (f.node.lineno,)         # (two functions may share a name)
        if isinstance(view, models.LiveView) and models.find(self, f, lambda v: v is view.io) is None:
            f.locals[f'$iter{s._ordinal}'] = view.io
        hav = pr.havoc.setdefault(key, {})
        kname = f'$k{s._ordinal}'
        n = models.term(view.n) if view is not None else None
        old = models.snapshot(self, f)
        zero = z3.IntVal(0)
        st = LoopState(self, f, zero if view is not None else None, n, old, view)
        st.node = s

        def maker(path):
            if callable(spec.make):
                return spec.make(st, path)
            return spec.make.get(path) or (spec.make.get(path[:-1]) if path[-1] == '[]' else None)

        def again():
            # what is known of the state at the loop head became weaker: candidates that fell before may have fallen for
            # a reason that is gone (an imprecise state is explored with fewer combinations)
            pr.dropped -= {x for x in pr.dropped if x[0] == key}
            pr.control.get(key, {'tuples': []})['tuples'].clear()
            raise Restart()

        def shapes_at():
            for path in list(hav):
                if maker(path):
                    continue
                try:
                    v = models.read_path(self, f, path)
                except KeyError:
                    continue
                sh = models.shape_of(self, v)
                j = models.join_shapes(hav[path], sh)
                if j != hav[path]:
                    hav[path] = j
                    again()
        for path, shp in spec.shapes.items():
            if path not in hav:
                hav[path] = shp

        def check_inv(phase):
            for nm, g in spec.inv(st):
                ctx.prove(f'{f.qualname} loop{s._ordinal} invariant [{nm}] {phase}', g, f'{f.qualname}:{s.lineno}')
            drop = [nm for nm, g in spec.cands(st) if not pr.is_dropped(key, nm) and not ctx.holds(g)]
            if drop:
                if os.environ.get('PYDV_DEBUG'):
                    print('dropped', key, phase, [(nm, g) for nm, g in spec.cands(st) if nm in drop], ctx.pc[-12:])
                pr.dropped.update((key, nm) for nm in drop)
                pr.drop()

        def assume_inv():
            for nm, g in spec.inv(st):
                ctx.assume(g)
            for nm, g in spec.cands(st):
                if not pr.is_dropped(key, nm):
                    ctx.assume(g)

        ctl = pr.control.setdefault(key, {'demoted': set(), 'tuples': [], 'vals': {}, 'live': set()}) if spec.rel is not None else None

        def observe(phase):
            # the invariant relating control variables (locals with finitely many concrete values) to the ghost state is
            # the set of combinations seen; it is inductive when no iteration adds one
            if ctl is None:
                return
            labels = spec.rel(st)
            sure = [x for x in labels if ctx.holds(x[1])]
            if len(sure) > 1:
                ctx.unreachable('the cases of the ghost state exclude each other')
            lab = sure[0][0] if sure else labels[ctx.choose(len(labels), [c for _, c in labels])][0] if labels else None
            vals = []
            for path in sorted(hav, key=models.path_order):
                if not maker(path) and path in ctl['demoted'] and ('none',) in hav[path] and len(hav[path]) > 1 and path[-1] != '[]':
                    # not concrete, but whether it is None yet is
                    try:
                        v = models.read_path(self, f, path)
                    except KeyError:
                        continue
                    vals.append((path, (type(None), None) if v is None else models.SOME))
                    continue
                if maker(path) or path in ctl['demoted'] or hav[path] is models.UNBOUND and path not in ctl['live']:
                    continue
                try:
                    v = models.read_path(self, f, path)
                except KeyError:
                    if path in ctl['live']:
                        vals.append((path, models.UNBOUND))
                    continue
                vs = ctl['vals'].setdefault(path, set())
                if isinstance(v, BoundM) and isinstance(v.self_, PObj) and path not in ctl['demoted']:
                    at = models.find(self, f, lambda x: x is v.self_)
                    if at is not None:      # a method of a known object
                        vals.append((path, models.BoundRef(v.fn, at)))
                        continue
                if models.controllable(v):
                    vs.add(models.HK(v) if callable(v) else (type(v), v))
                if not models.controllable(v) or len(vs) > (3 if isinstance(v, int) and not isinstance(v, bool) else 12):
                    ctl['demoted'].add(path)
                    ctl['tuples'].clear()
                    again()
                vals.append((path, (type(v), v)))
            t = (lab, tuple(vals))
            if t not in ctl['tuples']:
                ctl['tuples'].append(t)
                if phase == 'initially':
                    raise Restart()
                pr.dirty = True

        check_inv('initially')
        shapes_at()
        observe('initially')
        controlled = {}
        if ctl is not None:
            known = pr.frozen[key]
            lab, vals = known[ctx.choose(len(known))]
            controlled = dict(vals)
        # havoc
        if view is not None and not isinstance(view, Spine):
            k = st.k = ctx.fresh(IntS, 'k')
            ctx.assume(k >= 0)
            ctx.assume(k <= n)
        for path in sorted(hav, key=models.path_order):
            mk = maker(path)
            if path in controlled and isinstance(controlled[path], models.BoundRef):
                models.write_path(self, f, path, BoundM(controlled[path].fn, models.read_path(self, f, controlled[path].at)))
            elif path in controlled and controlled[path] is models.SOME:
                models.havoc_path(self, f, path, hav[path] - {('none',)}, spec)
            elif path in controlled and controlled[path] is not models.UNBOUND:
                models.write_path(self, f, path, controlled[path][1])
            elif mk is not None:
                v = mk(ctx, st)
                if v is models.UNBOUND:
                    models.havoc_path(self, f, path, v, spec)
                else:
                    models.write_path(self, f, path, v)
            else:
                models.havoc_path(self, f, path, hav[path], spec)
                if ctl is not None and hav[path] is models.UNBOUND:
                    ctx.unbound_by_loop[(id(f), path[1])] = (path, ctl)
        if view is not None:
            if isinstance(view, Spine):
                k = z3.IntVal(ctx.choose(len(view.spine) + 1))
                ctx.assume(k >= 0)
                ctx.assume(k <= n)
            st.k = k
        assume_inv()
        if ctl is not None and lab is not None:
            ctx.assume(dict(spec.rel(st))[lab])
        if view is not None:
            more = ctx.choose(2, [k < n, k >= n]) == 0
        else:
            more = self.truth(self.eval(s.test, f))
        if not more:
            if view is not None:
                ctx.assume(k == n)
            self.exec_block(s.orelse, f)
            return
        log = {'serial': ctx.serial, 'writes': set(), 'locals': set(), 'frame': f}
        ctx.writelogs.append(log)
        try:
            try:
                if view is not None:
                    self.assign(s.target, view.get(ctx, k), f)
                self.exec_block(s.body, f)
            except ContinueX:
                pass
        except BreakX:
            ctx.writelogs.remove(log)
            return
        except (PyExc, ReturnX):
            ctx.writelogs.remove(log)
            raise
        ctx.writelogs.remove(log)
        # back edge: frame, shapes, invariant
        grew = False
        written = set()
        for (fr, nm) in log['locals']:
            p = models.local_path(self, f, fr, nm)
            if p is not None:
                written.add(p)
        for (o, fld) in log['writes']:
            p = models.access_path(self, f, o, fld)
            if p is None:
                raise Unsupported(f'loop {key} writes an object it cannot name: {o!r}.{fld}')
            written.add(p)
        for p in written:
            if p not in hav:
                if p not in old['paths'] and p[0] == 'local' and p[1] not in old['locals']:
                    # a local first bound in the body: dead at the head unless read; drop it there
                    hav[p] = models.UNBOUND
                else:
                    hav[p] = models.NOSHAPE
                grew = True
        if grew:
            pr.dropped -= {x for x in pr.dropped if x[0] == key}
            if ctl is not None:
                ctl['tuples'].clear()
            raise Restart()
        shapes_at()
        if view is not None:
            st.k = z3.simplify(k + 1)
        check_inv('preserved')
        observe('preserved')
        raise PathEnd()

    # --------------------------------------------------------------- names --
    def mangle(self, name, f):
        if name.startswith('__') and not name.endswith('__') and f.cls:
            return '_' + f.cls.lstrip('_') + name
        return name

    def local_write(self, f, name):
        for log in self.ctx.writelogs:
            if f.serial <= log['serial']:
                log['locals'].add((f, name))

    def load_name(self, f, name):
        g = f
        name = self.mangle(name, f)
        while g is not None:
            if name in g.locals:
                v = g.locals[name]
                return v
            if name in g.freevars:
                return self.lift(g.freevars[name])
            if name in getattr(g.node, '_assigned', ()):
                if (id(g), name) in self.ctx.unbound_by_loop:
                    path, ctl = self.ctx.unbound_by_loop[(id(g), name)]
                    if path not in ctl['live'] and path not in ctl['demoted']:
                        ctl['live'].add(path)       # it outlives an iteration after all
                        ctl['tuples'].clear()
                        raise Restart()
                self.throw(UnboundLocalError, name)
            g = g.parent
        if name in f.globs:
            return self.lift(f.globs[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.throw(NameError, name)

    def lift(self, v):
        return v

    def store_name(self, f, name, v):
        g = f
        if name in getattr(f.node, '_nonlocal', ()):
            g = f.parent
            while g is not None and name not in g.locals:
                g = g.parent
            if g is None:
                raise Unsupported(f'global assignment to {name}')
        self.local_write(g, name)
        g.locals[name] = v

    def assign(self, t, v, f):
        if isinstance(t, ast.Name):
            self.store_name(f, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, f)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, f), self.mangle(t.attr, f), v)
        elif isinstance(t, ast.Subscript):
            models.setitem(self, self.eval(t.value, f), self.eval_slice(t.slice, f), v)
        elif isinstance(t, ast.Starred):
            raise Unsupported('starred target')
        else:
            raise Unsupported('assignment target')

    def unpack(self, t, v, f):
        vals = models.iterate(self, v)
        if not isinstance(vals, list):
            vals = models.unpack_view(self, vals, len(t.elts))
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            after = len(t.elts) - i - 1
            if len(vals) < i + after:
                self.throw(ValueError, 'not enough values to unpack')
            for e, x in zip(t.elts[:i], vals[:i]):
                self.assign(e, x, f)
            self.assign(t.elts[i].value, PList(self.ctx, vals[i:len(vals) - after]), f)
            for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                self.assign(e, x, f)
            return
        if len(vals) != len(t.elts):
            self.throw(ValueError, 'unpack length mismatch')
        for e, x in zip(t.elts, vals):
            self.assign(e, x, f)

    # --------------------------------------------------------- expressions --
    def eval(self, e, f):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return m(e, f)

    def e_Constant(self, e, f):
        return e.value

    def e_Name(self, e, f):
        return self.load_name(f, e.id)

    def e_Tuple(self, e, f):
        return tuple(self.elts(e.elts, f))

    def empty(self, kind):
        h = self.ctx.ghost.get('empty')
        return h(self.ctx, kind) if h else None

    def e_List(self, e, f):
        if not e.elts:
            r = self.empty('list')
            if r is not None:
                return r
        elts = self.elts(e.elts, f)
        h = self.ctx.ghost.get('list of')
        r = h(self.ctx, elts) if h and elts else None
        return PList(self.ctx, elts) if r is None else r

    def e_Set(self, e, f):
        return models.make_set(self, self.elts(e.elts, f))

    def elts(self, elts, f):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = models.iterate(self, self.eval(x.value, f))
                if not isinstance(v, list):
                    raise Unsupported('star of symbolic sequence')
                out.extend(v)
            else:
                out.append(self.eval(x, f))
        return out

    def e_Dict(self, e, f):
        if not e.keys:
            r = self.empty('dict')
            if r is not None:
                return r
        d = PDict(self.ctx)
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, f)
                if isinstance(src, PDict):
                    d.d.update(src.d)
                elif isinstance(src, dict):
                    d.d.update(src)
                else:
                    raise Unsupported('dict unpack')
            else:
                models.setitem(self, d, self.eval(k, f), self.eval(v, f))
        return d

    def e_IfExp(self, e, f):
        return self.eval(e.body, f) if self.truth(self.eval(e.test, f)) else self.eval(e.orelse, f)

    def e_BoolOp(self, e, f):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, f)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if is_and and not t:
                return v
            if not is_and and t:
                return v
        return v

    def e_UnaryOp(self, e, f):
        v = self.eval(e.operand, f)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool):
                return SBool(z3.Not(v.t))
            return not self.truth(v)
        return models.unary(self, type(e.op).__name__, v)

    def e_BinOp(self, e, f):
        return models.binop(self, type(e.op).__name__, self.eval(e.left, f), self.eval(e.right, f))

    def e_Compare(self, e, f):
        l = self.eval(e.left, f)
        res = None
        for op, r in zip(e.ops, e.comparators):
            r = self.eval(r, f)
            res = models.compare(self, type(op).__name__, l, r)
            if len(e.ops) == 1:
                return res
            if not self.truth(res):
                return False
            l = r
        return res

    def e_Call(self, e, f):
        fn = self.eval(e.func, f)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, f)
                if isinstance(v, models.Opaque):
                    args.append(models.StarArgs(v))
                    continue
                v = models.iterate(self, v)
                if not isinstance(v, list):
                    args.append(models.StarView(v))
                else:
                    args.extend(v)
            else:
                args.append(self.eval(a, f))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value, f)
                if isinstance(v, models.Opaque):
                    kwargs['**'] = v
                    continue
                d = v.d if isinstance(v, PDict) else v
                kwargs.update(d)
            else:
                kwargs[k.arg] = self.eval(k.value, f)
        note = self.ctx.note
        if fn is super and not args:
            return models.SuperV(f)
        r = self.call(fn, args, kwargs)
        self.ctx.note = note
        return r

    def e_Attribute(self, e, f):
        return self.getattr(self.eval(e.value, f), self.mangle(e.attr, f))

    def e_Subscript(self, e, f):
        return models.getitem(self, self.eval(e.value, f), self.eval_slice(e.slice, f))

    def eval_slice(self, s, f):
        if isinstance(s, ast.Slice):
            return slice(self.eval(s.lower, f) if s.lower else None,
                         self.eval(s.upper, f) if s.upper else None,
                         self.eval(s.step, f) if s.step else None)
        return self.eval(s, f)

    def e_Slice(self, e, f):
        return self.eval_slice(e, f)

    def e_JoinedStr(self, e, f):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, f)
                spec = ''
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec, f)
                parts.append(models.fmt(self, x, v.conversion, spec))
        return models.concat(self, parts, 'str')

    def e_Lambda(self, e, f):
        if not hasattr(e, '_assigned'):
            annotate(e)
        return Closure(e, f, f'{f.qualname}.<lambda>', f.globs, f.cls,
                       tuple(self.eval(d, f) for d in e.args.defaults), {})

    def e_NamedExpr(self, e, f):
        v = self.eval(e.value, f)
        self.assign(e.target, v, f)
        return v

    def e_Starred(self, e, f):
        raise Unsupported('starred')

    def e_Yield(self, e, f):
        v = self.eval(e.value, f) if e.value is not None else None
        self.do_yield(f, v)
        return None

    def do_yield(self, f, v):
        g = f
        if g.onyield is not None:
            g.onyield(self.ctx, v)
        hook = self.ctx.ghost.get(('yield', f.qualname))
        if hook is not None:
            hook(self.ctx, f, v)
        if g.out is not None:
            models.list_append(self, g.out, v)

    def e_YieldFrom(self, e, f):
        v = self.eval(e.value, f)
        h = self.ctx.ghost.get(('yield from', f.qualname))
        if h is not None:
            h(self.ctx, f, v)
            return None
        if isinstance(v, GenObj):
            v = self.collect(v)
        it = models.iterate(self, v)
        if isinstance(it, list):
            for x in it:
                self.do_yield(f, x)
            return None
        if f.onyield is None and f.out is not None and ('yield', f.qualname) not in self.ctx.ghost:
            models.list_extend(self, f.out, v if isinstance(v, PList) else it)
            return None
        raise Unsupported('yield from a symbolic iterable')

    def comp_frame(self, f):
        g = Frame(self.ctx, f.node, f.qualname, f.globs, f, f.cls)
        g.comp = True
        return g

    def e_ListComp(self, e, f):
        r = self.comp_loop(e, f, 'list', lambda o: [ast.Expr(ast.Call(ast.Attribute(o, 'append', ast.Load()), [e.elt], []))])
        if r is not None:
            return r
        return self.comp(e, f, 'list')

    def e_GeneratorExp(self, e, f):
        return self.comp(e, f, 'list')

    def comp_loop(self, e, f, kind, emit):
        """a comprehension over a symbolic collection, as the loop it abbreviates (where a proof asks for that)"""
        if not self.ctx.ghost.get('comprehensions are loops'):
            return None
        view = models.iterate(self, self.eval(e.generators[0].iter, f))
        if isinstance(view, list):
            return None
        out = self.empty(kind)
        if out is None:
            return None
        nm = f'$comp{e._ordinal}'
        loop = getattr(e, '_loop', None)
        if loop is None:
            body = emit(ast.Name(nm, ast.Load()))
            for i, g in reversed(list(enumerate(e.generators))):
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                body = [ast.For(g.target, g.iter, body, [])]
                body[0]._ordinal = e._ordinal + (i * 1000)
            loop = e._loop = body[0]
            ast.copy_location(loop, e)
            for n in ast.walk(loop):
                if not hasattr(n, 'lineno'):
                    ast.copy_location(n, e)
        inner = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        saved = {n: f.locals[n] for n in inner if n in f.locals}
        f.locals[nm] = out
        self.local_write(f, nm)
        try:
            self.x_For(loop, f)
        finally:
            for n in inner:
                f.locals.pop(n, None)
            f.locals.update(saved)
            out = f.locals.pop(nm, out)
        return out

    def e_SetComp(self, e, f):
        r = self.comp_loop(e, f, 'set', lambda o: [ast.Expr(ast.Call(ast.Attribute(o, 'add', ast.Load()), [e.elt], []))])
        if r is not None:
            return r
        v = self.comp(e, f, 'list')
        if isinstance(v, models.CompList):
            return models.retyped(set, v)
        return models.make_set(self, models.must_list(self, v))

    def comp(self, e, f, kind):
        if len(e.generators) == 1:
            g = e.generators[0]
            view = models.iterate(self, self.eval(g.iter, f))
            if not isinstance(view, list) and isinstance(view, IterView):
                return models.comp_view(self, e, f, g, view)
        out = PList(self.ctx)
        cf = CompFrame(self.ctx, f)
        self._comp(e.generators, 0, cf, f, lambda: models.list_append(self, out, self.eval(e.elt, cf)))
        return out

    def e_DictComp(self, e, f):
        r = self.comp_loop(e, f, 'dict', lambda o: [ast.Assign([ast.Subscript(o, e.key, ast.Store())], e.value)])
        if r is not None:
            return r
        out = PDict(self.ctx)
        if len(e.generators) == 1:
            g = e.generators[0]
            view = models.iterate(self, self.eval(g.iter, f))
            if isinstance(view, IterView):
                return models.CompDict(self, e, f, g, view)
            cf = CompFrame(self.ctx, f)
            for v in view:
                self.assign(g.target, v, cf)
                if all(self.truth(self.eval(c, cf)) for c in g.ifs):
                    models.setitem(self, out, self.eval(e.key, cf), self.eval(e.value, cf))
            return out
        cf = CompFrame(self.ctx, f)
        self._comp(e.generators, 0, cf, f,
                   lambda: models.setitem(self, out, self.eval(e.key, cf), self.eval(e.value, cf)))
        return out

    def _comp(self, gens, i, cf, f, emit):
        if i == len(gens):
            emit()
            return
        g = gens[i]
        view = models.iterate(self, self.eval(g.iter, f if i == 0 else cf))
        if not isinstance(view, list):
            raise Unsupported('comprehension over a symbolic iterable')
        for v in view:
            self.assign(g.target, v, cf)
            if all(self.truth(self.eval(c, cf)) for c in g.ifs):
                self._comp(gens, i + 1, cf, f, emit)

    # ---------------------------------------------------------- attributes --
    def class_lookup(self, cls, name):
        for k in cls.__mro__:
            if name in k.__dict__:
                return k.__dict__[name]
        return None

    def getattr(self, o, name):
        r = self.getattr_or(o, name, UNSET)
        if r is UNSET:
            self.throw(AttributeError, f'{models.pytype(self, o).__name__} has no attribute {name}')
        return r

    def getattr_or(self, o, name, default):
        if isinstance(o, PObj):
            h = self.ctx.ghost.get('attr')
            if h is not None:
                h(self.ctx, o, name, 'read')
            m = self.class_lookup(o.cls, name)
            if isinstance(m, property):
                return self.call(m.fget, [o])
            if name in o.attrs:
                return o.attrs[name]
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return models.DictOf(o)
            if m is None:
                return None if any(name in c.__dict__ for c in o.cls.__mro__) else default
            if isinstance(m, types.FunctionType):
                return BoundM(m, o)
            if isinstance(m, staticmethod):
                return m.__func__
            if isinstance(m, classmethod):
                return BoundM(m.__func__, o.cls)
            if isinstance(m, types.MemberDescriptorType):
                return default
            return m
        if isinstance(o, Closure):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__name__':
                return getattr(o.node, 'name', '<lambda>')
            return default
        if isinstance(o, models.SuperV):
            cls = o.frame.locals.get('__class__')
            raise Unsupported('super()')
        return models.getattr_model(self, o, name, default)

    def setattr(self, o, name, v):
        if isinstance(o, PObj):
            h = self.ctx.ghost.get('attr')
            if h is not None:
                h(self.ctx, o, name, 'write')
            m = self.class_lookup(o.cls, name)
            if isinstance(m, property):
                if m.fset is None:
                    self.throw(AttributeError, f'property {name} has no setter')
                self.call(m.fset, [o, v])
                return
            self.ctx.touched(o, name)
            o.attrs[name] = v
            return
        if isinstance(o, Closure):
            self.ctx.touched(o)
            o.attrs[name] = v
            return
        if isinstance(o, SObj) and self.ctx.ghost.get('obj_setattr'):
            self.ctx.ghost['obj_setattr'](self.ctx, o, name, v)
            return
        if isinstance(o, models.Hook) and hasattr(o, 'setattr'):
            o.setattr(self.ctx, name, v)
            return
        raise Unsupported(f'setattr on {o!r}')

    def truth(self, v):
        return models.truth(self, v)


class CompFrame(Frame):
    def __init__(self, ctx, f):
        Frame.__init__(self, ctx, _CompNode, f.qualname, f.globs, f, f.cls)


class _CompNode:
    _assigned = frozenset()
    _nonlocal = frozenset()
    _isgen = False
