"""P06: calculus on tensor product spaces (spec Calculus over Fields)."""
from vlib import Check, Expr, TIER, tlc, subseed


def main():
    c = Check('P06')
    q = TIER == 'quick'
    n = 4000 if q else 24000
    s0 = subseed('P06', 'calculus')
    r = tlc('Calculus', dict(DIMS={1, 2, 3}, MAXB=2, NLO=6, NHI=9, STEPS=8 if q else 10, REGS=2, TERMS=2,
                             SEEDS=Expr('%d..%d' % (s0, s0 + n - 1))),
            invariants=['Commute', 'Leibniz', 'Stokes', 'InSpace', 'RealOk', 'Emit'], properties=['OneReg'],
            workers=8, heap='8g', timeout=1500)
    c.add_tlc(r, 'calculus')
    if r.violated:
        raise SystemExit('specification violated: ' + r.violated)
    c.replay('replay_p06', r.records, 'calculus')
    if not q:
        r = tlc('Calculus', dict(DIMS={1, 2}, MAXB=2, NLO=9, NHI=14, STEPS=8, REGS=3, TERMS=3,
                                 SEEDS=Expr('%d..%d' % (s0, s0 + 4000))),
                invariants=['Commute', 'Leibniz', 'Stokes', 'InSpace', 'RealOk', 'Emit'], workers=8, heap='8g', timeout=1500)
        c.add_tlc(r, 'calculus, larger spaces')
        if r.violated:
            raise SystemExit('specification violated: ' + r.violated)
        c.replay('replay_p06', r.records, 'calculus, larger spaces')
    c.assumptions += ['tolerances grow with the amplification of the derivatives taken (float64 roundoff)']
    return c.finish()


if __name__ == '__main__':
    raise SystemExit(main())
