"""P05: transforms of one-dimensional spaces (spec Transforms)."""
from vlib import Check, Expr, TIER, tlc, subseed

INV = ['ScalarOk', 'Emit']
ALL = {'C', 'L', 'U', 'Q', 'J', 'W', 'La', 'H', 'R', 'F'}


def main():
    c = Check('P05')
    q = TIER == 'quick'
    s0 = subseed('P05', 'transforms')
    for lab, fams, lo, hi, m, steps in (('small', ALL, 5, 18, 320 if q else 8000, 6),
                                        ('fast transforms', {'C', 'L', 'U', 'R', 'F'}, 5, 24, 150 if q else 4000, 8),
                                        ('larger', ALL - {'La'}, 30, 65, 80 if q else 1500, 6)):
        r = tlc('Transforms', dict(SEEDS=Expr('%d..%d' % (s0, s0 + m - 1)), FAMS=fams, MINN=lo, MAXN=hi, STEPS=steps, REGS=2, EXACT=14),
                invariants=INV, properties=['OnlySet'], workers=8, heap='6g', timeout=1500)
        c.add_tlc(r, lab)
        if r.violated:
            raise SystemExit('specification violated: ' + r.violated)
        c.replay('replay_p05', r.records, lab, timeout=60, args=dict(composites=2 if q else 4))
    c.assumptions += ['forward transforms are inverted only where the mass matrix has a condition number below 1e10',
                      'tolerances 1e-9 relative to the largest value (1e-7 for Laguerre and Hermite functions)',
                      'symbolic stencils that take more than a minute in sympy are skipped (counted as timeouts)']
    return c.finish()
