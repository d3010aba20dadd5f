"""P01: sparse matrix algebra histories (spec SparseAlgebra)."""
from vlib import Check, Expr, TIER, tlc, subseed

NAMES = ("new new ident neg copy scale div iscale iscale canon add add sub sub iadd isub setdiag deldiag editdiag editdiag "
         "matvec matvec matmat solve solve solve solve dense").split()
LIN = "new new neg copy scale div iscale iscale canon canon add add sub sub iadd isub matvec matvec matmat solve dense".split()


def gen(c, label, n, steps, names, sizes, nreg=3):
    s0 = subseed('P01', label)
    r = tlc('SparseAlgebra', dict(NREG=nreg, SIZES=sizes, STEPS=steps, SOLVES=True, EMIT=True, NAMES=names,
                                  SEEDS=Expr('%d..%d' % (s0, s0 + n - 1))),
            invariants=['TypeOK', 'Emit'], properties=['Untouched'], workers=8, heap='6g', timeout=1500)
    c.add_tlc(r, label)
    if r.violated:
        raise SystemExit('specification violated: ' + r.violated)
    return r.records


def main():
    c = Check('P01')
    q = TIER == 'quick'
    recs = gen(c, 'histories', 700 if q else 12000, 12 if q else 16, NAMES,
               {(2, 2), (3, 3), (5, 5), (4, 6), (6, 3), (7, 7), (1, 1)})
    c.replay('replay_p01', recs, 'SparseMatrix')
    small = gen(c, 'small', 500 if q else 4000, 10, NAMES, {(2, 2), (3, 3), (4, 4)}, nreg=2)
    c.replay('replay_p01', small, 'SparseMatrix small')
    lin = gen(c, 'spectral', 150 if q else 2000, 12, LIN, {(4, 4), (6, 6), (7, 7)})
    c.replay('replay_p01', lin, 'SpectralMatrix', args=dict(spectral=True))
    c.assumptions += ['entries are small integers times small rationals, so float64 represents them and equality is judged to 1e-11 of the largest value in the history',
                      'systems that elimination without row exchange cannot solve (a vanishing leading minor) or whose a-priori error bound exceeds 1e-6 are not solved']
    return c.finish()
