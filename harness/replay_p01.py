"""Replay of SparseAlgebra behaviours on SparseMatrix and its subclasses (P01)."""
import copy
import numpy as np
import shenfun as sf
from shenfun.matrixbase import SparseMatrix, Identity
from num import fl, arr, close, diff

ARGS = {}
COUNT = {'operations': 0, 'spectral_leaves': 0}


def setup(args):
    ARGS.update(args or {})


def stats():
    return COUNT


def stack(vecs, ndim, axis, cplx, rows, pad=None):
    """The 4 spec vectors as the columns of an array with the given axis."""
    vecs = [np.asarray(v, float) for v in vecs]
    other = {1: (), 2: (3,), 3: (2, 3)}[ndim]
    P = int(np.prod(other)) if other else 1
    n = len(vecs[0])
    a = np.empty((rows, P), dtype=complex if cplx else float)
    a[:] = 0 if pad is None else pad
    for p in range(P):
        a[:n, p] = vecs[p % 4] + (1j * vecs[(p + 1) % 4] if cplx else 0)
    a = a.reshape((rows,) + other)
    return np.ascontiguousarray(np.moveaxis(a, 0, axis % ndim))


def take(a, axis, ndim, n):
    return np.moveaxis(a, axis % ndim, 0)[:n]


# assembled matrices that stand in for the leaves, by shape
LEAFS = {}


def spectral_leaves(n):
    if n in LEAFS:
        return LEAFS[n]
    out = []
    if n >= 4:
        for fam, N, bcs, ders in (('L', n + 2, (0, 0), (0, 1, 2)), ('C', n + 2, (0, 0), (0, 1, 2)), ('L', n, None, (0, 1)),
                                  ('C', n, None, (0, 2)), ('U', n + 2, (0, 0), (0, 2)), ('L', n + 4, (0, 0, 0, 0), (0, 2, 4)),
                                  ('C', n + 1, (0, None), (0, 1)), ('F', n, None, (0, 2))):
            for d in ders:
                if fam == 'F':
                    V = sf.FunctionSpace(n, 'F', dtype='D')
                elif bcs is None:
                    V = sf.FunctionSpace(N, fam)
                else:
                    V = sf.FunctionSpace(N, fam, bc=bcs)
                if V.dim() != n:
                    continue
                out.append((sf.TestFunction(V), sf.TrialFunction(V), d))
    LEAFS[n] = out
    return out


def make_leaf(a, choose):
    n, m = a['n'], a['m']
    if ARGS.get('spectral'):
        ls = spectral_leaves(n)
        if ls:
            v, u, d = ls[(choose + a['leaf'] * 5 + n) % len(ls)]
            M = sf.inner(v, sf.Dx(u, 0, d) if d else u)
            if isinstance(M, list):
                M = M[0]
            if isinstance(M, SparseMatrix) and np.isrealobj(M.diags('csr').toarray()):
                COUNT['spectral_leaves'] += 1
                return M * fl(a['scale'])if a['leaf'] % 3 == 0 else M
        return None
    d = {}
    for e in a['diags']:
        d[e['k']] = float(e['v'][0]) if e['fmt'] == 'scalar' else np.array(e['v'], dtype=float)
    return SparseMatrix(d, (n, m), scale=fl(a['scale']))


def run(rec):
    F = []
    steps = rec['steps']
    regs = [None] * len(steps[0]['store'])
    leafs = {}
    dead = False
    choose = sum(len(s['op']) for s in steps) + steps[0]['args'].get('n', 0)
    mag = 1.0
    hist = []

    def want(st, r):
        """Dense value of register r (0-based) that the specification demands."""
        if not ARGS.get('spectral'):
            return arr(st['store'][r]['A'])
        lin = st['store'][r]['lin']
        if not lin:
            return None
        tot = None
        for k, c in enumerate(lin):
            c = fl(c)
            if c and (k + 1) in leafs:
                D = leafs[k + 1]
                tot = c * D if tot is None else tot + c * D
        if tot is None:
            A = st['store'][r]['A']
            return np.zeros((len(A), len(A[0])))
        return tot

    for t, st in enumerate(steps):
        op, a = st['op'], st['args']
        hist.append(op)
        COUNT['operations'] += 1
        g = lambda x: regs[a[x] - 1]
        key = op

        def fail(what):
            F.append(dict(key=key, what='step %d of %s: %s' % (t, '/'.join(hist), what)))
        if op == 'new':
            M = make_leaf(a, choose)
            if M is None:
                return F
            if ARGS.get('spectral'):
                leafs[a['leaf']] = M.diags('csr').toarray()
            regs[a['r'] - 1] = M
        elif op == 'ident':
            regs[a['r'] - 1] = Identity((a['n'], a['n']), scale=fl(a['scale']))
        elif op == 'neg':
            regs[a['d'] - 1] = -g('a')
        elif op == 'copy':
            regs[a['d'] - 1] = g('a').copy() if t % 2 else copy.deepcopy(g('a'))
        elif op == 'scale':
            regs[a['d'] - 1] = fl(a['s']) * g('a') if a['side'] == 'left' else g('a') * fl(a['s'])
        elif op == 'div':
            regs[a['d'] - 1] = g('a') / fl(a['s'])
        elif op == 'iscale':
            M = g('a')
            M *= fl(a['s'])
            regs[a['a'] - 1] = M
        elif op == 'canon':
            M = g('a')
            if a['how'] == 'incorporate':
                M.incorporate_scale()
            elif a['how'] == 'sort':
                M.sort()
            elif a['how'] == 'clean' and M.shape[0] == M.shape[1]:
                M.clean_diagonals()
            elif a['how'] == 'simplify' and M.isdiagonal() and np.ndim(M[0]) == 0:
                M.simplify_diagonal_matrices()
        elif op == 'add':
            regs[a['d'] - 1] = g('a') + g('b')
        elif op == 'sub':
            regs[a['d'] - 1] = g('a') - g('b')
        elif op == 'iadd':
            M = g('a')
            M += g('b')
            regs[a['a'] - 1] = M
        elif op == 'isub':
            M = g('a')
            M -= g('b')
            regs[a['a'] - 1] = M
        elif op in ('setdiag', 'deldiag', 'editdiag'):
            M = g('a')
            M.incorporate_scale()
            if op == 'deldiag':
                del M[a['k']]
            elif op == 'setdiag':
                M[a['k']] = float(a['v'][0]) if a['fmt'] == 'scalar' else np.array(a['v'], dtype=float)
            else:
                n, m = M.shape
                k = a['k']
                ln = min(n, m - k) if k >= 0 else min(n + k, m)
                if k in M and isinstance(M[k], np.ndarray) and M[k].ndim == 1 and M[k].dtype.char == 'd':
                    M[k][a['i'] - 1] = a['v']      # in place, in the stored diagonal
                    M.solver = None                # such an edit cannot be noticed by the matrix
                else:
                    d = np.zeros(ln)
                    if k in M:
                        d[:] = M[k]
                    d[a['i'] - 1] = a['v']
                    M[k] = d
        elif op == 'matvec':
            M = g('a')
            A = want(st, a['a'] - 1)
            N, K = A.shape
            fmt, ndim, axis = a['fmt'], a['ndim'], a['axis'] % a['ndim']
            xs = a['xs']
            L = max(N, K) + (0 if fmt == 'star' else (t % 3))
            if ARGS.get('spectral'):
                L = max(L, getattr(M, 'trialfunction', [None])[0].N if hasattr(M, 'trialfunction') else N)
            ys = [A @ np.array(x, float) for x in xs]
            if not ARGS.get('spectral'):
                ys = [arr(y) for y in a['ys']]
            key = 'matvec:' + fmt
            if fmt == 'star':
                if N != K:
                    continue
                v = stack(xs, ndim, 0, a['cplx'], L)
                v0 = v.copy()
                c = M * v
                axis = 0
            else:
                v = stack(xs, ndim, axis, a['cplx'], L, pad=7.0)
                v0 = v.copy()
                c = np.full_like(v, 3.0)
                c2 = M.matvec(v, c, format=None if fmt == 'default' else fmt, axis=axis)
                if c2 is not c and not close(c2, c):
                    fail('the returned array is not the output array')
            e = stack(ys, ndim, axis, a['cplx'], N)
            mg = max(1.0, np.abs(A).max() * max(1.0, np.abs(v0).max()))
            got = np.moveaxis(take(c, axis, ndim, N), 0, axis)
            if not close(got, e, scale=mg):
                fail('A x wrong (format %s, shape %s, axis %d, complex %s): %s' % (fmt, v.shape, axis, a['cplx'], diff(got, e)))
            elif not close(np.moveaxis(c, axis, 0)[N:], 0 * np.moveaxis(c, axis, 0)[N:], scale=1):
                fail('rows outside the matrix are not zero')
            if not np.array_equal(v, v0):
                fail('matvec changed its input')
        elif op == 'matmat':
            A, B = want(st, a['a'] - 1), want(st, a['b'] - 1)
            C = g('a') * g('b')
            C = C.toarray() if hasattr(C, 'toarray') else C.diags('csr').toarray()
            e = A @ B if ARGS.get('spectral') else arr(a['C'])
            if not close(C, e, scale=max(1.0, np.abs(A).max() * np.abs(B).max())):
                fail('product of matrices: ' + diff(C, e))
        elif op == 'solve':
            M = g('a')
            A = want(st, a['a'] - 1)
            n = len(A)
            ndim, axis = a['ndim'], a['axis'] % a['ndim']
            if a['via'] == 'div':
                ndim, axis = 1, 0
            tol = solve_tol(A)
            if tol is None:
                continue
            xs = [np.array(x, float) for x in a['xs']]
            bs = [A @ x for x in xs]
            for again in range(2 if a['via'] == 'solve2' else 1):
                b = stack(bs, ndim, axis, a['cplx'], n)
                x = stack(xs, ndim, axis, a['cplx'], n)
                b0 = b.copy()
                if a['via'] == 'div':
                    u = M / b
                elif a['inplace']:
                    u = M.solve(b, axis=axis)
                else:
                    w = np.full_like(b, 2.0)
                    u = M.solve(b, w, axis=axis)
                if not close(u, x, rtol=tol, scale=max(1.0, np.abs(x).max())):
                    fail('solve (n %d, via %s, in place %s, ndim %d, axis %d, complex %s, solver %s): %s' % (
                        n, a['via'], a['inplace'], ndim, axis, a['cplx'], type(M.solver).__name__, diff(u, x)))
                elif not (a['inplace'] and a['via'] != 'div') and not np.array_equal(b, b0):
                    fail('solve changed the right hand side')
        elif op == 'dense':
            pass
        # every register holds the matrix the specification says
        for r in range(len(regs)):
            if st['store'][r]['tag'] == 'none':
                continue
            E = want(st, r)
            if E is None:
                return F
            mag = max(mag, float(np.abs(E).max()))
            fmt = a.get('fmt') if op == 'dense' and a['a'] == r + 1 else ('csr', 'dia', 'csc')[(t + r) % 3]
            M = regs[r]
            D = M.diags(fmt) if fmt else M.diags()
            D = np.asarray(D.toarray())
            if D.shape != E.shape or tuple(M.shape) != E.shape:
                fail('register %d has shape %s, expected %s' % (r, D.shape, E.shape))
            elif not close(D, E, rtol=1e-11, scale=mag):
                key = op
                fail('register %d is not the exact matrix after %s (format %s): %s' % (r, op, fmt, diff(D, E)))
        if F:
            return F[:3]
    return F


def solve_tol(A):
    """Bound of the error of elimination without exchange of rows; None when useless."""
    n = len(A)
    U = A.astype(float).copy()
    L = np.eye(n)
    for k in range(n):
        if abs(U[k, k]) < 1e-12 * np.abs(A).max():
            return None
        for i in range(k + 1, n):
            L[i, k] = U[i, k] / U[k, k]
            U[i] -= L[i, k] * U[k]
            U[i, k] = 0
    try:
        inv = np.linalg.inv(A)
    except np.linalg.LinAlgError:
        return None
    t = 1e-14 * n * np.abs(np.abs(inv) @ np.abs(L) @ np.abs(U)).max()
    return max(1e-11, t) if t < 1e-6 else None
