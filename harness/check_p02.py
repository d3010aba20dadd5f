"""P02: direct solvers (spec BandedSolve)."""
from vlib import Check, Expr, TIER, tlc, subseed

KINDS = 'DiagMA TwoDMA ThreeDMA TDMA TDMA_O FDMA PDMA HeptaDMA Solve TriSolve NoMain'.split()


def main():
    c = Check('P02')
    q = TIER == 'quick'
    n = 900 if q else 12000
    s0 = subseed('P02', 'banded')
    r = tlc('BandedSolve', dict(STEPS=7 if q else 10, KINDS=KINDS, MAXN=6 if q else 16, CHECKUNIQUE=True,
                                SEEDS=Expr('%d..%d' % (s0, s0 + n - 1))),
            invariants=['Unique', 'Emit'], workers=8, heap='6g', timeout=1500)
    c.add_tlc(r, 'banded')
    if r.violated:
        raise SystemExit('specification violated: ' + r.violated)
    c.replay('replay_p02', r.records, 'banded and generic solvers')
    c.assumptions += ['the main diagonal dominates each row, so that elimination without row exchange is stable']
    return c.finish()
