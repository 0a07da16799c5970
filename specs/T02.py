"""The options of multisplit, each combination against its definition."""
from .splitlib import *

NOTE = 'multisplit is under contract for every combination of keep, reverse, strip, separate and maxsplit'
ASSUMPTIONS = ASSUMED


def options(keep, reverse):
    @proof(f'multisplit keep={keep} reverse={reverse}', [MOD + 'multisplit'], budget=150)
    def p(ctx, I):
        limit = ['all', 'some'][ctx.choose(2)]
        if limit == 'all':
            split(ctx, I, [keep], [reverse], [False, True, T.LEFT, T.RIGHT, T.PROGRESSIVE], [None, 'none'])
        else:
            split(ctx, I, [keep], [reverse], [None, True, T.LEFT, T.RIGHT, T.PROGRESSIVE], ['some', 'zero'])
    return p


PROOFS = pattern_proofs(True) + [options(k, r) for k in (False, True, T.ALTERNATING, T.AS_PAIRS) for r in (False, True)]
