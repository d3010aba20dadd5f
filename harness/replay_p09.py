"""Replay of WeakForms behaviours (P09; also under MPI for P07)."""
import os
from collections import Counter
from fractions import Fraction
import numpy as np
import sympy as sp
import shenfun
from shenfun import Function, Array, project, Dx, inner, TestFunction, TrialFunction, Expr, comm, la, grad, div, CompositeSpace, MixedFunctionSpace, \
    TPMatrix, SparseMatrix
from shenfun.matrixbase import extract_bc_matrices
from mpi4py import MPI
import fields as fd
from fields import SYM
from num import fl, diff
import replay_p06
from replay_p06 import scale_of

COUNT = Counter()
LABEL = {}
PARTIAL = []
EPS = 2e-12


def stats():
    return dict(COUNT)


class Forms(replay_p06.Run):
    def expr(self, arg, ps):
        out = None
        for p in ps:
            e = self.piece(arg, p)
            out = e if out is None else out + e
        return out

    def weak_ok(self, form):
        return form['weak'] and all(fd.isF(a) or (a['k'] == 'L' and a['bc'] in ('D', 'DN', 'N', 'DI')) for a in self.axes)

    def matrices(self, form, S=None, kind=None):
        S = S or self.T
        v, u = TestFunction(S), TrialFunction(S)
        kw = dict(kind=kind) if kind and kind != 'default' else {}
        if not self.weak_ok(form):
            A = inner(v, self.expr(u, form['ps']), **kw)
            return A if isinstance(A, list) else [A]
        out = []
        lap = [p for p in form['ps'] if sum(p['d']) == 2]
        for p in form['ps']:
            if sum(p['d']) == 0:
                A = inner(v, u * sp.Rational(p['c']), **kw)
                out += A if isinstance(A, list) else [A]
        if len({p['c'] for p in lap}) == 1 and self.dim > 1:
            A = inner(grad(v) * (-sp.Rational(lap[0]['c'])), grad(u), **kw)
            out += A if isinstance(A, list) else [A]
        else:
            for p in lap:
                i = p['d'].index(2)
                A = inner(Dx(v, i, 1), Dx(u, i, 1) * (-sp.Rational(p['c'])), **kw)
                out += A if isinstance(A, list) else [A]
        return out


def dof_slices(S):
    bases = S.bases if hasattr(S, 'bases') else [S]
    return tuple(b.slice() if not b.family() == 'fourier' else slice(None) for b in bases)


def matvec(mats, u, c):
    w = np.zeros_like(c)
    for M in mats:
        c += M.matvec(u, w)
    return c


def dense(mats, S):
    """The system matrix of the degrees of freedom."""
    n = int(np.prod(S.dims())) if S.dimensions > 1 else S.dim()
    if n > 900:
        return None
    A = 0
    for M in mats:
        A = A + np.array((M.diags('csr') if isinstance(M, TPMatrix) else M.diags('csr')).todense())
    return A if A.ndim == 2 else None


def run(rec):
    F = PARTIAL
    del F[:]
    R = Forms(rec, F)
    R.rec = rec
    replay(R, rec['steps'])
    return list(F)


def replay(R, steps):
    s0 = steps[0]
    axes, cplx, dim, T = R.axes, R.cplx, R.dim, R.T
    forms, regs = s0['forms'], s0['reg']
    nb = sum(not fd.isF(a) for a in axes)
    serial = R.comm.Get_size() == 1
    U = [R.make(f, 'values') for f in regs]
    size = [fd.magnitude(axes, f, cplx) + 1e-12 for f in regs]
    sl = dof_slices(T)
    cls = forms[0]['cl']
    asm, solvers, cond = {}, {}, {}
    F0 = []
    vol = float(np.prod([float(b - a) for a, b in (fd.fdom(a) for a in axes)]))

    def rhs(f, how, S=None):
        v = TestFunction(T)
        if how == 'sympy':
            e = fd.symbolic(axes, f, cplx)
            if getattr(e, 'free_symbols', None):
                return inner(v, e)
        fa = Array(T)
        fa[:] = R.exact(f, T)
        keep = fa.copy()
        b = inner(v, fa)
        R.agree('rhs input', fa, keep, 0, 'inner(v, f) changes f')
        return b

    def amp(form):
        return sum(abs(fl(p['c'])) * fd.amplification(axes, p['d']) * scale_of(axes, p['e']) for p in form['ps'])

    def gmax(x):
        x = np.asarray(x)
        return R.comm.allreduce(float(np.abs(x).max()) if x.size else 0.0, op=MPI.MAX)

    def get(k):
        if k not in asm:
            asm[k] = R.matrices(forms[k])
            COUNT['assembled'] += len(asm[k])
        return asm[k]

    def singular(k):
        """A pure Laplacian on periodic and Neumann axes has the constants in its kernel."""
        return forms[k]['cl'] in ('poisson', 'neumann') and all(fd.isF(a) or a['bc'] == 'N' for a in axes)

    def self_problem():
        if 'self' not in cond:
            cond['self'] = Forms(R.rec, F0, comm=MPI.COMM_SELF)
        return cond['self']

    def condition(k):
        if k not in cond:
            S = R if serial else self_problem()
            A = dense(list(extract(get(k) if serial else S.matrices(forms[k]))[0]), S.T)
            if A is not None and singular(k):
                A[0] = 0
                A[0, 0] = 1
            cond[k] = R.comm.bcast(1e5 if A is None else np.linalg.cond(A), root=0)
        return cond[k]

    def extract(mats):
        m = list(mats)
        b = extract_bc_matrices([m])
        return m, b

    def make_solvers(k):
        mats = get(k)
        out = {}
        if dim == 1:
            out['Solver'] = lambda: la.Solver(list(mats))
            if len(mats) == 1 and not fd.isF(axes[0]):
                out['solver()'] = lambda: mats[0].get_solver()(mats[0])
        elif nb == 0:
            out['Diagonal'] = lambda: la.SolverDiagonal(list(mats))
            if len(mats) == 1:
                out['TPMatrix'] = lambda: mats[0].solve
        elif nb == 1:
            out['1ND'] = lambda: la.SolverGeneric1ND(list(mats))
            out['1ND slow'] = lambda: la.SolverGeneric1ND(list(mats))
        elif serial:
            out['2ND'] = lambda: la.SolverGeneric2ND(list(mats))
        if dim > 1 and nb > 0 and serial and np.prod(T.dims()) < 900:
            out['ND'] = lambda: (la.Solver2D if dim == 2 else la.Solver3D if dim == 3 else la.SolverND)(list(mats))
        if dim > 1 and (serial or nb == 1):
            out['Block'] = lambda: la.BlockMatrixSolver(list(mats))
        ax = [a for a in axes if not fd.isF(a)]
        if nb == 1 and ax[0]['k'] == 'C' and not cplx and not (dim > 1 and forms[k]['cl'] in ('adv', 'first')):
            keys = sorted(str((M.pmat if isinstance(M, TPMatrix) and M.naxes else M).get_key()) for M in la.get_simplified_tpmatrices(list(extract(mats)[0]))) \
                if dim > 1 else sorted(str(M.get_key()) for M in extract(mats)[0])
            if keys in (['ASDSDmat', 'BSDSDmat'], ['ASNSNmat', 'BSNSNmat']) and not (ax[0]['quad'] == 'x'):
                out['Helmholtz'] = lambda: shenfun.chebyshev.la.Helmholtz(*mats) if dim == 1 else shenfun.chebyshev.la.Helmholtz(list(mats))
            if keys == ['ASBSBmat', 'BSBSBmat', 'SSBSBmat']:
                out['Biharmonic'] = lambda: shenfun.chebyshev.la.Biharmonic(*mats) if dim == 1 else shenfun.chebyshev.la.Biharmonic(list(mats))
        return out

    def call(name, sol, b, u, con):
        kw = {}
        if name == '1ND slow':
            kw['fast'] = False
        if con is not None:
            kw['constraints'] = ((0, 0, con),) if name == 'Block' else ((0, con),)
        if u is None:
            return sol(b, **kw)
        return sol(b, u, **kw)

    for g in steps[1:]:
        op = g['op']
        what = str({k: v for k, v in g.items() if k not in ('f', 'g')})
        k = g.get('k', 1) - 1
        form = forms[k]
        what += ' operator %s' % [(p['c'], p['d'], p['e']) for p in form['ps']]
        LABEL['at'] = R.desc + ' ' + what
        cl = form['cl'] + (' weak' if R.weak_ok(form) else '')
        if op == 'assemble':
            kind = g['kind']
            if kind == 'default':
                asm[k] = R.matrices(form)
                solvers.pop(k, None)
            else:
                # the same matrices, whichever way they are assembled
                A2 = R.matrices(form, kind=kind)
                for j, u in enumerate(U):
                    c1, c2 = matvec(get(k), u, Function(T)), matvec(A2, u, Function(T))
                    R.agree('assemble:%s:%s' % (kind, cl), c2[sl], c1[sl], 1e-9 * gmax(c1) + EPS * amp(form) * size[j] * vol, what + ' assembled with kind %s' % kind)
        elif op in ('apply', 'linear'):
            j = g['j'] - 1
            b = rhs(g['f'], 'array')
            tol = 1e-9 * gmax(b) + 5 * EPS * amp(form) * size[j] * vol
            if op == 'apply':
                c = matvec(get(k), U[j], Function(T))
                key = 'matrices:'
            elif g['how'] == 'function':
                c = inner(TestFunction(T), R.expr(U[j], form['ps']))
                key = 'linear form:'
            else:
                c = rhs(g['f'], g['how'])
                key = 'rhs:' + g['how']
            COUNT[op] += 1
            R.agree(key + cl, c[sl], b[sl], tol, what)
        elif op == 'solve':
            j = g['j'] - 1
            b = rhs(g['f'], g['rhs'] if g['rhs'] != 'function' else 'array')
            if g['rhs'] == 'function':
                b = matvec(get(k), U[j], Function(T))
                if nb and any(a['bc'] == 'DI' for a in axes):
                    b = inner(TestFunction(T), R.expr(U[j], form['ps']))
            cn = condition(k)
            if cn > 1e9:
                COUNT['singular'] += 1
                continue
            con = None
            if singular(k):
                con = R.comm.bcast(complex(np.asarray(U[j]).ravel()[0]), root=0)
                con = con if cplx else con.real
            for name, mk in make_solvers(k).items():
                if con is not None and (name in ('ND',) and not serial or name in ('Diagonal', 'TPMatrix') and con != 0):
                    continue
                LABEL['at'] = R.desc + ' ' + name + ' ' + what
                key = (k, name)
                if key not in solvers or g['style'] == 'fresh' or k not in asm:
                    solvers[key] = mk()
                sol = solvers[key]
                bb = b.copy()
                bb._space = b._space
                inplace = g['style'] == 'inplace' and name not in ('Helmholtz', 'Biharmonic', 'Block')
                u = None if inplace else Function(T)
                w = call(name, sol, bb, u, con)
                if not inplace and w is not u and name != 'Block':
                    R.bad('output', '%s %s does not return its output' % (name, what))
                if inplace and not isinstance(w, Function):
                    R.bad('type', '%s %s returns %s' % (name, what, type(w)))
                    continue
                COUNT['solve ' + name] += 1
                got = (w if isinstance(w, Function) else u).backward()
                tol = (1e-9 + 1e-14 * cn) * size[j] * 10 + EPS * size[j]
                R.agree('solve:%s:%s%s' % (name, cl, ':inplace' if inplace else ''), got, R.exact(regs[j], T), tol, name + ' ' + what + ' cond %.1e' % cn)
                if not inplace:
                    R.agree('rhs changed:' + name, bb, b, 0, name + ' ' + what)
                if g['style'] == 'again':
                    u = Function(T)
                    w = call(name, sol, bb.copy(), u, con)
                    got = (w if isinstance(w, Function) else u).backward()
                    R.agree('solve again:%s:%s' % (name, cl), got, R.exact(regs[j], T), tol, name + ' again ' + what)
        elif op == 'system':
            j, j2 = g['j'] - 1, g['j2'] - 1
            if not serial and nb != 1:
                continue
            x = s0['cross']
            Q = CompositeSpace([T, T]) if dim > 1 else MixedFunctionSpace([T, T])
            q, p = TestFunction(Q), TrialFunction(Q)
            mats = []
            Z, cax = [0] * dim, [int(i == x['ax'] - 1) for i in range(dim)]
            for r, c, ps in ((0, 0, forms[0]['ps']), (1, 1, forms[1]['ps']), (0, 1, [dict(c=x['c12'], d=cax, e=Z)]), (1, 0, [dict(c=x['c21'], d=Z, e=Z)])):
                A = inner(q[r], R.expr(p[c], ps))
                mats += A if isinstance(A, list) else [A]
            b = Function(Q)
            b[0] = rhs(g['f'], 'array')
            b[1] = rhs(g['g'], 'array')
            uh = Function(Q)
            uh[0], uh[1] = U[j], U[j2]
            keep = b.copy()
            m, bcm = extract(mats)
            BM = shenfun.BlockMatrix(list(mats)) if not bcm else None
            if BM is not None:
                c = BM.matvec(uh, Function(Q))
                tol = 1e-9 * gmax(b) + 5 * EPS * (amp(forms[0]) + amp(forms[1]) + 30) * max(size) * vol
                for i in (0, 1):
                    R.agree('system matvec', c[i][sl], b[i][sl], tol, what)
            ns = 2 * int(np.prod(T.dims())) if dim > 1 else 2 * T.dim()
            if serial and ns < 900:
                BA = shenfun.BlockMatrix(m)
                try:
                    cn = np.linalg.cond(np.array(BA.diags(format='csr').todense()))
                except Exception:
                    cn = max(condition(0), condition(1))
            else:
                cn = None
            if cn is not None and cn > 1e9:
                COUNT['singular'] += 1
                continue
            sol = la.BlockMatrixSolver(list(mats))
            for rep in range(2 if g['style'] == 'again' else 1):
                u = Function(Q)
                try:
                    w = sol(b, u=u)
                except RuntimeError as e:
                    if cn is None and 'singular' in str(e):
                        COUNT['singular'] += 1
                        break
                    raise
                COUNT['systems'] += 1
                if cn is None:
                    # conditioning not known: the residual is small for any stable solver
                    if BM is not None:
                        r = BM.matvec(w, Function(Q))
                        tol = 1e-9 * gmax(b) + 5 * EPS * (amp(forms[0]) + amp(forms[1]) + 30) * (max(size) + gmax(w)) * vol
                        for i in (0, 1):
                            R.agree('system residual', r[i][sl], b[i][sl], tol, what)
                    continue
                tol = (1e-9 + 1e-14 * cn) * (size[j] + size[j2]) * 20
                ub = w.backward()
                R.agree('system solve', ub[0], R.exact(regs[j], T), tol, what + ' first component, cond %.1e' % cn)
                R.agree('system solve', ub[1], R.exact(regs[j2], T), tol, what + ' second component, cond %.1e' % cn)
                R.agree('rhs changed:system', b, keep, 0, what)
    for j, u in enumerate(U):
        R.agree('function changed', u.backward(), R.exact(regs[j], T), 5 * EPS * size[j], 'function %d' % j)
