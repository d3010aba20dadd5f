"""P04: boundary conditions (spec BoundarySpaces)."""
from vlib import Check, Expr, TIER, tlc, subseed

INV = ['Independent', 'Attained', 'Emit']


def main():
    c = Check('P04')
    q = TIER == 'quick'
    s0 = subseed('P04', 'bc')
    for lab, fams, m in (('C,L', {'C', 'L'}, 80 if q else 3000), ('other families', {'U', 'Q', 'J', 'La'}, 40 if q else 800)):
        r = tlc('BoundarySpaces', dict(SEEDS=Expr('%d..%d' % (s0, s0 + m - 1)), FAMS=fams, MAXN=14, VALUES=2),
                invariants=INV, workers=8, heap='6g', timeout=1500)
        c.add_tlc(r, lab)
        if r.violated:
            raise SystemExit('specification violated: ' + r.violated)
        c.replay('replay_p04', r.records, lab, timeout=60)
    c.assumptions += ['conditions that leave the narrowest basis function undetermined somewhere (singular sets) may be declined by the library',
                      'symbolic stencils that take more than a minute in sympy are skipped (counted as timeouts)']
    return c.finish()
