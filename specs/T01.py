"""Splitting with the separators kept, and without options."""
from .splitlib import *

NOTE = 'multisplit is under contract for any text and any separators: the outputs are those of re.split on the pattern proved here; the pattern is built for any number of separators'
ASSUMPTIONS = ASSUMED


def forwards(keep):
    @proof(f'multisplit keep={keep}', [MOD + 'multisplit'], budget=100)
    def p(ctx, I):
        split(ctx, I, [keep], [None, False], [None, False], [None, 'all', 'none'])
    return p


PROOFS = pattern_proofs(True) + [forwards(k) for k in (None, False, True, T.ALTERNATING, T.AS_PAIRS)]
