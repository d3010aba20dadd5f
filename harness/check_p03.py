"""P03: one-dimensional Galerkin matrices (spec Galerkin)."""
from vlib import Check, Expr, TIER, tlc, subseed

INV = ['SameAsJacobi', 'Orthogonal', 'Parts', 'RecursionOk', 'Emit']


def main():
    c = Check('P03')
    q = TIER == 'quick'
    n = 56 if q else 1200
    s0 = subseed('P03', 'galerkin')
    # Chebyshev and Legendre have most of the hard-coded matrices
    for lab, fams, m in (('hard-coded families', {'C', 'L'}, n), ('other families', {'U', 'Q', 'J', 'La', 'H', 'C', 'L'}, n)):
        r = tlc('Galerkin', dict(SEEDS=Expr('%d..%d' % (s0, s0 + m - 1)), STEPS=4, FAMS=fams, MINN=5, MAXN=14 if q else 20, CROSS=lab[0] == 'o'),
                invariants=INV, workers=8, heap='6g', timeout=1500)
        c.add_tlc(r, lab)
        if r.violated:
            raise SystemExit('specification violated: ' + r.violated)
        c.replay('replay_p03', r.records, lab, timeout=60)
    c.assumptions += ['entries that the quadrature rule of the test space does not integrate exactly are not compared for matrices assembled by quadrature',
                      'symbolic stencils and exact integrals that take more than a minute in sympy are skipped (counted as timeouts)']
    return c.finish()
