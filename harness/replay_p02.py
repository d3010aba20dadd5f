"""Replay of BandedSolve behaviours on the direct solvers (P02)."""
import numpy as np
import shenfun as sf
from shenfun import la
from shenfun.config import config
from shenfun.matrixbase import SparseMatrix
from num import fl, arr, close, diff

COUNT = {'calls': 0}


def stats():
    return COUNT


OTHER = {1: (), 2: (3,), 3: (2, 3), 4: (2, 1, 3)}


def stack(vecs, ndim, axis, cplx, rows, pad, zimag=()):
    vecs = [arr(v) for v in vecs]
    other = OTHER[ndim]
    P = int(np.prod(other)) if other else 1
    n = len(vecs[0])
    a = np.empty((rows, P), dtype=complex if cplx else float)
    a[:] = pad
    for p in range(P):
        im = vecs[(p + 1) % 4].copy()
        im[list(zimag)] = 0
        a[:n, p] = vecs[p % 4] + (1j * im if cplx else 0)
    a = a.reshape((rows,) + other)
    return np.ascontiguousarray(np.moveaxis(a, 0, axis % ndim))


def build(steps):
    m = steps[0]
    n = m['n']
    ts = []
    for t in m['terms']:
        d = {e['k']: (float(e['v'][0]) if t['const'] else np.array(e['v'], float)) for e in t['diags']}
        ts.append(SparseMatrix(d, (n, n), scale=fl(t['c'])))
    return n, ts, arr(m['A'])


def run(rec):
    F = []
    steps = rec['steps']
    n, terms, D = build(steps)
    kind = steps[0]['kind']
    A = sum(terms[1:], terms[0]) if len(terms) > 1 else terms[0]
    sols = []
    names = []
    mode0 = config['optimization']['mode']

    def fail(key, what):
        F.append(dict(key=key, what='%s n=%d: %s' % (kind, n, what)))
    try:
        for t, st in enumerate(steps[1:]):
            if st['op'] == 'make':
                via = st['via']
                if via == 'solve':
                    s = A.solve
                elif via == 'class':
                    s = A.get_solver()(A)
                elif via == 'classlist':
                    s = A.get_solver()(list(terms))
                elif via == 'Solver':
                    s = la.Solver(A)
                elif via == 'Solverlist':
                    s = la.Solver(list(terms))
                else:
                    s = la.SparseMatrixSolver(A) if t % 2 else la.Solve(A)
                sols.append(s)
                names.append('%s/%s' % (via, getattr(s, '__self__', s).__class__.__name__ if via != 'solve' else A.get_solver().__name__))
                continue
            COUNT['calls'] += 1
            s = sols[st['q'] - 1]
            ndim, cx = st['ndim'], st['cplx']
            ax = st['axis'] % ndim
            rows = n + st['extra']
            b = stack(st['bs'], ndim, ax, cx, rows, 9.0)
            x = stack(st['xs'], ndim, ax, cx, rows, 9.0, zimag=st['rows'])
            # the imaginary part of the constrained values is zero, so the real system must be recomputed for complex data
            if cx and st['rows']:
                b0 = np.moveaxis(b, ax, 0)
                x0 = np.moveaxis(x, ax, 0)
                keep = [i for i in range(n) if i not in st['rows']]
                b0[keep] = np.tensordot(D, x0[:n], (1, 0))[keep]
            bb = b.copy()
            cons = tuple((r, v) for r, v in zip(st['rows'], st['val']))
            config['optimization']['mode'] = st['mode']
            tag = 'call %d of %s, ndim %d axis %d complex %s extra %d inplace %s constraints %s mode %s' % (
                t, names[st['q'] - 1], ndim, ax, cx, st['extra'], st['inplace'], cons, st['mode'])
            try:
                if st['inplace']:
                    u = s(b, axis=ax, constraints=cons)
                else:
                    u0 = np.full_like(b, 5)
                    u = s(b, u0, axis=ax, constraints=cons)
                    if u is not u0 and not np.shares_memory(u, u0):
                        fail('output', tag + ': the result is not in the array given')
            except Exception as e:
                fail('raises-' + type(e).__name__, tag + ': %r' % (e,))
                continue
            finally:
                config['optimization']['mode'] = mode0
            g = np.moveaxis(np.asarray(u), ax, 0)
            w = np.moveaxis(x, ax, 0)
            key = 'solution-%s-%s' % (names[st['q'] - 1].split('/')[-1], 'constraints' if cons else 'plain')
            if g.shape != w.shape or not close(g[:n], w[:n], 1e-11, scale=5):
                fail(key, tag + ': ' + diff(g[:n], w[:n]))
            elif st['inplace'] and not np.array_equal(g[n:], w[n:]):
                fail('extra-rows', tag + ': rows beyond the system are changed')
            if not st['inplace'] and not np.array_equal(b, bb):
                fail('rhs-changed', tag + ': right hand side modified: ' + diff(b, bb))
            D2 = A.diags('csr').toarray()
            if not close(D2, D, 1e-12):
                fail('matrix-changed', tag + ': the matrix is modified by the solver: ' + diff(D2, D))
                return F
    finally:
        config['optimization']['mode'] = mode0
    return F
