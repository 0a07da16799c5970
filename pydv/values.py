"""Symbolic and heap values of the interpreter."""
import z3

Obj = z3.DeclareSort('Obj')
StringS = z3.StringSort()
IntS = z3.IntSort()
BoolS = z3.BoolSort()
RealS = z3.RealSort()


class SV:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'{type(self).__name__}({self.t})'


class SInt(SV):
    __slots__ = ()
    pytype = int


class SBool(SV):
    __slots__ = ()
    pytype = bool


class SReal(SV):
    __slots__ = ()
    pytype = float


class SStr(SV):
    __slots__ = ('kind',)

    def __init__(self, t, kind='str'):
        self.t = t
        self.kind = kind

    @property
    def pytype(self):
        return str if self.kind == 'str' else bytes


class SObj(SV):
    """an opaque user object.  == and hash are those of the uninterpreted sort."""
    __slots__ = ('tag',)

    def __init__(self, t, tag=None):
        self.t = t
        self.tag = tag      # python type it is an instance of, or None: no repo-visible type

    @property
    def pytype(self):
        return self.tag or object


class Heapy:
    serial = 0


class PObj(Heapy):
    """an instance of a real class of the code under verification"""

    def __init__(self, ctx, cls, attrs=None):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.serial = ctx.next_serial()

    def __repr__(self):
        return f'<PObj {self.cls.__name__} #{self.serial}>'


class Abstract:
    """An unknown finite sequence: a z3 length, optional z3 Seq content, named folds."""

    def __init__(self, length, seq=None, wrap=None, folds=None, getter=None):
        self.length = length
        self.seq = seq
        self.wrap = wrap          # z3 term -> value
        self.folds = folds or {}
        self.getter = getter      # (ctx, index term) -> value  (when seq is None)


class PList(Heapy):
    """list: an optional abstract prefix followed by concrete items"""

    def __init__(self, ctx, items=(), prefix=None):
        self.items = list(items)
        self.prefix = prefix
        self.serial = ctx.next_serial()

    @property
    def concrete(self):
        return self.prefix is None

    def __repr__(self):
        return f'<PList {"abs+" if self.prefix else ""}{self.items}>'


class PDict(Heapy):
    """dict with a concrete spine (keys concrete or opaque but pairwise decided)"""

    def __init__(self, ctx, items=None):
        self.d = dict(items or {})
        self.serial = ctx.next_serial()


class PSet(Heapy):
    def __init__(self, ctx, items=()):
        self.s = set(items)
        self.serial = ctx.next_serial()


class SSet(Heapy):
    """set of opaque objects: characteristic array, optional ghost cardinality"""

    def __init__(self, ctx, arr, sort=Obj, wrap=SObj):
        self.arr = arr
        self.sort = sort
        self.wrap = wrap
        self.serial = ctx.next_serial()


class SMap(Heapy):
    """dict from opaque objects: domain array, value array (+ wrap/unwrap)"""

    def __init__(self, ctx, dom, val, wrap, unwrap, sort=Obj, default=None):
        self.dom = dom
        self.val = val
        self.wrap = wrap
        self.unwrap = unwrap
        self.sort = sort
        self.default = default
        self.serial = ctx.next_serial()


class Bag(Heapy):
    """list of opaque objects seen as a multiset (order abstracted)"""
    distinct = False          # the harness keeps it free of duplicates (an obligation of its invariant)
    arr = None

    def __init__(self, ctx, cnt, sort=Obj, wrap=SObj):
        self.cnt = cnt            # Array(sort, Int)
        self.sort = sort
        self.wrap = wrap
        self.serial = ctx.next_serial()


class Native:
    """a callable implemented by the harness (user callback or external function)"""

    def __init__(self, fn, name='native'):
        self.fn = fn
        self.name = name

    def __repr__(self):
        return f'<Native {self.name}>'


class Closure:
    def __init__(self, node, frame, qualname, globs, cls=None, defaults=(), kwdefaults=None):
        self.node = node
        self.frame = frame
        self.qualname = qualname
        self.globs = globs
        self.cls = cls
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.attrs = {}


class BoundM:
    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_


class ModelM:
    """method of a modelled builtin value"""

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    def __repr__(self):
        return f'<method {self.name} of {self.obj!r}>'


class GenObj(Heapy):
    """generator object not yet started: (function node, bound frame)"""

    def __init__(self, ctx, frame):
        self.frame = frame
        self.started = False
        self.serial = ctx.next_serial()


class IterView:
    """an indexable finite iteration: n (z3 Int or int), get(ctx, i) -> value"""

    def __init__(self, n, get, tag=None):
        self.n = n
        self.get = get
        self.tag = tag


class IterObj(Heapy):
    """iterator over an IterView with a position; mutable"""

    def __init__(self, ctx, view, pos=0):
        self.view = view
        self.pos = pos
        self.serial = ctx.next_serial()


class MatchV:
    """result of a successful regex match"""

    def __init__(self, string, start, end, groups=None):
        self.string = string
        self.start = start
        self.end = end
        self.groups = groups or {}


class ExcV:
    """an exception instance"""

    def __init__(self, cls, args=(), attrs=None):
        self.cls = cls
        self.args = args
        self.attrs = attrs or {}

    def __repr__(self):
        return f'{self.cls.__name__}{self.args}'
