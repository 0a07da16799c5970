"""helpers shared by the contract modules"""
import z3
from pydv.values import *


def prefix(ctx, s, k):
    """the first k elements of the z3 sequence s, with its defining equations instantiated at k"""
    f = z3.Function('prefix_' + str(s.sort().basis()), s.sort(), IntS, s.sort())
    k = z3.simplify(k) if isinstance(k, z3.ExprRef) else z3.IntVal(k)
    n = z3.Length(s)
    j = z3.simplify(k - 1)
    ctx.assume(z3.Implies(k == 0, f(s, k) == z3.Empty(s.sort())))
    ctx.assume(z3.Implies(k == n, f(s, k) == s))
    ctx.assume(z3.Implies(z3.And(0 < k, k <= n), f(s, k) == z3.Concat(f(s, j), z3.Unit(s[j]))))
    return f(s, k)
