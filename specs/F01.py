"""File name translation: the functions act pointwise, so they are executed at an arbitrary position of an arbitrary name."""
import z3
from pydv.framework import proof
from pydv.ctx import Unsupported
from pydv.values import *
from pydv import models as M
from pydv.models import Hook
import big.file as F

MOD = 'file.'
NOTE = 'both functions are under contract for names of any length; a name is observed at an arbitrary position and its right neighbour'
ASSUMPTIONS = ['str.translate maps each character by the table; str.replace replaces the non-overlapping occurrences from the left']

SPEC = {'\x00': '@', '/': '-', '\\': '-', '*': '@', '?': '.', '"': "'", '<': '{', '>': '}', '|': '!'}
FORBIDDEN = set('/\\:*?"<>|') | {chr(i) for i in range(32)}


class Name(Hook):
    """an arbitrary non-empty str, known at one position: `img` is what position i has become,
    `nxt` what position i+1 has become (or '' at the end)"""
    pytype = str
    methods = ('translate', 'replace')

    def __init__(self, ctx, img, nxt):
        self.serial = ctx.next_serial()
        self.img, self._nxt, self._val = img, nxt, None

    @property
    def nxt(self):
        """evaluated only when looked at"""
        if self._val is None:
            self._val = self._nxt()
        return self._val

    def truth(self, ctx):
        return True

    def length(self, ctx):
        return ctx.int('len', 1)

    def eq(self, ctx, other):
        if other == '':
            return False
        raise Unsupported('comparison of names')

    def m_translate(self, ctx, table):
        return Name(ctx, trans(ctx, self.img, table), lambda: trans(ctx, self.nxt, table))

    def m_replace(self, ctx, a, b):
        if not isinstance(a, str) or not isinstance(b, str) or not a:
            raise Unsupported('replace')
        if len(a) == 1:
            return Name(ctx, subst(ctx, self.img, a, b), lambda: subst(ctx, self.nxt, a, b))
        if len(a) == 2 and a[0] != a[1] and b.endswith(a[1]):
            img = self.img
            if any(has(ctx, x, a[0]) for x in img[:-1]):
                raise Unsupported('replace inside a piece')
            if img and has(ctx, img[-1], a[0]) and self.nxt and has(ctx, self.nxt[0], a[1]):
                img = img[:-1] + list(b[:-1])
            def unknown():
                raise Unsupported('two replacements that depend on the next character')
            return Name(ctx, img, unknown)
        raise Unsupported('replace')


def has(ctx, c, a):
    """is the character c (a concrete character or a term) equal to a?"""
    if isinstance(c, str):
        return c == a
    return ctx.branch(c == ord(a))


def trans(ctx, img, table):
    out = []
    for c in img:
        for k, v in sorted(table.items()):
            if has(ctx, c, chr(k)):
                if v is None:
                    v = ''
                out.extend(chr(v) if isinstance(v, int) else v)
                break
        else:
            out.append(c)
    return out


def subst(ctx, img, a, b):
    out = []
    for c in img:
        out.extend(b if has(ctx, c, a) else [c])
    return out


def char(ctx, name):
    c = ctx.fresh(IntS, name)           # a code point
    ctx.assume(z3.And(c >= 0, c <= 0x10ffff))
    return c


def is_(img, want):
    """the piece img equals the piece want (lists of characters and code point terms)"""
    if len(img) != len(want):
        return z3.BoolVal(False)
    return z3.And([code(a) == code(b) for a, b in zip(img, want)])


def code(x):
    return z3.IntVal(ord(x)) if isinstance(x, str) else x


def isin(c, chars):
    return z3.Or([code(c) == ord(x) for x in sorted(chars)])


def name(ctx):
    c = char(ctx, 'c')
    d = char(ctx, 'd') if ctx.choose(2) else None
    return c, d, Name(ctx, [c], lambda: [] if d is None else [d])


@proof('translate_filename_to_unix', [MOD + 'translate_filename_to_unix'])
def unix(ctx, I):
    c, d, s = name(ctx)
    k, r = I.outcome(lambda: I.call(F.translate_filename_to_unix, [s]))
    ctx.prove('unix: accepted', k == 'return' and isinstance(r, Name))
    if not isinstance(r, Name):
        return
    for x in (('/', '-'), ('\x00', '@')):
        ctx.prove('unix: a forbidden character becomes its documented replacement', z3.Implies(c == ord(x[0]), is_(r.img, x[1])))
    ctx.prove('unix: a legal character stays', z3.Implies(z3.Not(isin(c, '/\x00')), is_(r.img, [c])))
    for x in r.img:
        ctx.prove('unix: no forbidden character in the result', z3.Not(isin(x, '/\x00')))


@proof('translate_filename_to_exfat', [MOD + 'translate_filename_to_exfat'], max_paths=6000, budget=90)
def exfat(ctx, I):
    c, d, s = name(ctx)
    k, r = I.outcome(lambda: I.call(F.translate_filename_to_exfat, [s]))
    ctx.prove('exfat: accepted', k == 'return' and isinstance(r, Name))
    if not isinstance(r, Name):
        return
    img = r.img
    ctx.prove('exfat: a legal character stays', z3.Implies(z3.Not(isin(c, FORBIDDEN)), is_(img, [c])))
    for k, v in SPEC.items():
        ctx.prove('exfat: a forbidden character becomes its documented replacement', z3.Implies(c == ord(k), is_(img, v)))
    space = z3.BoolVal(False) if d is None else d == 32
    ctx.prove('exfat: a colon becomes " -" before a space', z3.Implies(z3.And(c == ord(':'), space), is_(img, ' -')))
    ctx.prove('exfat: a colon becomes "." elsewhere', z3.Implies(z3.And(c == ord(':'), z3.Not(space)), is_(img, '.')))
    for i in range(1, 32):
        ctx.prove('exfat: a control character becomes its hexadecimal form', z3.Implies(c == i, is_(img, '?%02x' % i)))
    ctl = z3.And(c >= 1, c <= 31)
    for x in img:
        ctx.prove('exfat: no forbidden character in the result (known finding: "?" for a control character)',
                  z3.Or(z3.Not(isin(x, FORBIDDEN)), z3.And(ctl, code(x) == ord('?'))))


@proof('names that are not names', [MOD + 'translate_filename_to_unix', MOD + 'translate_filename_to_exfat'])
def bad(ctx, I):
    f = F.translate_filename_to_exfat if ctx.choose(2) else F.translate_filename_to_unix
    x = ('', b'', ctx.str('b', 'bytes'), None, ctx.int('i'), ctx.obj('o'), PList(ctx, []), ctx.bool('b'), ctx.real('r'))[ctx.choose(9)]
    if isinstance(x, SObj):
        ctx.ghost['obj_truth'] = lambda ctx, o: ctx.fresh(BoolS, 'truth')
    k, r = I.outcome(lambda: I.call(f, [x]))
    ctx.prove('an empty name or a name that is not a str raises ValueError', k == 'raise' and r.cls is ValueError)
