"""Replay of Transforms behaviours (P05)."""
import os
import random
import zlib
import json
from collections import Counter
import numpy as np
from num import fl, arr, close, diff
import famspaces as fs
from shenfun import FunctionSpace, Function, Array
from shenfun.spectralbase import Domain

COUNT = Counter()
OPT = dict(composites=2)
TIMEOUT_IS_FAILURE = bool(os.environ.get("VERIF_SLOW"))   # symbolic stencils can take minutes
LABEL = {}
FAST = dict(C=('GC', 'GL'), U=('GU', 'GC'), L=('LG',))


def setup(args):
    OPT.update(args or {})


def stats():
    return dict(COUNT)


class Planned:
    """What a base sees of its tensor product space."""
    def __init__(self, dim, coors):
        self.dim, self.coors, self.sg = dim, coors, coors.sg

    @property
    def dimensions(self):
        return self.dim


def basis_values(fam, n, x):
    """Values of the orthogonal basis at reference points, by the three term recurrences of the specification in floats."""
    x = np.asarray(x, dtype=float)
    f = fam['f']
    P = np.zeros((len(x), max(n, 2)))
    P[:, 0] = 1
    if f == 'C':
        P[:, 1] = x
        for k in range(2, n):
            P[:, k] = 2 * x * P[:, k-1] - P[:, k-2]
    elif f == 'U':
        P[:, 1] = 2 * x
        for k in range(2, n):
            P[:, k] = 2 * x * P[:, k-1] - P[:, k-2]
    elif f == 'La':
        P[:, 1] = 1 - x
        for k in range(2, n):
            P[:, k] = ((2 * k - 1 - x) * P[:, k-1] - (k - 1) * P[:, k-2]) / k
        P *= np.exp(-x / 2)[:, None]
    elif f == 'H':
        P[:, 0] = np.pi**-.25
        P[:, 1] = np.sqrt(2) * x * P[:, 0]
        for k in range(2, n):
            P[:, k] = np.sqrt(2 / k) * x * P[:, k-1] - np.sqrt((k - 1) / k) * P[:, k-2]
        P *= np.exp(-x**2 / 2)[:, None]
    else:
        a, b = fl(fam['al']), fl(fam['be'])
        P[:, 1] = (a - b) / 2 + (a + b + 2) / 2 * x
        one = [1.0, a + 1]
        for k in range(2, n):
            t = 2 * k + a + b
            c0 = 2 * k * (k + a + b) * (t - 2)
            P[:, k] = ((t - 1) * (t * (t - 2) * x + a * a - b * b) * P[:, k-1] - 2 * (k + a - 1) * (k + b - 1) * t * P[:, k-2]) / c0
            one.append(one[-1] * (a + k) / k)
        if f == 'Q':
            P = P / np.array(one)[None, :P.shape[1]]
        elif f == 'W':
            c = [1.0]
            for k in range(P.shape[1] - 1):
                c.append(c[-1] * (2 * a + 1 + k) / (a + 1 + k))
            P = P * np.array(c)
    return P[:, :n]


def fourier_values(real, N, x):
    """E and E2 so that values = E c (+ conj(E2 c) for the half spectrum)."""
    if real:
        k = np.arange(N // 2 + 1)
    else:
        k = np.array([j if j <= (N - 1) // 2 else j - N for j in range(N)])
    return np.exp(1j * np.outer(x, k)), k


class Case:
    def __init__(self, rec, rnd, name, extra, quad):
        sp0 = rec['steps'][0]
        self.rnd = rnd
        self.fam, self.N, self.cols = sp0['fam'], sp0['n'], sp0['cols']
        f = self.f = self.fam['f']
        self.dom = [fs.num(d) for d in sp0['dom']]
        self.cplx = f == 'F' or (f != 'R' and rnd.random() < .4)
        self.name, self.extra, self.quad = name, extra, quad
        N = self.N
        ndim = 1 if self.cols == 1 else rnd.choice([2, 3] if self.cols < 4 else [2, 3, 4])
        self.axis = rnd.randrange(ndim) if ndim > 1 else 0
        self.ndim = ndim
        V = self.V = self.build()
        M = V.shape(False)
        other = {1: (), 2: (self.cols,)}.get(ndim)
        if other is None:
            other = [1] * (ndim - 1)
            if self.cols == 4 and rnd.random() < .6:
                i, j = rnd.sample(range(ndim - 1), 2)
                other[i] = other[j] = 2
            else:
                other[rnd.randrange(ndim - 1)] = self.cols
        self.other = tuple(other)
        shape = list(other)
        if ndim > 1:
            shape.insert(self.axis, M)
            V.tensorproductspace = Planned(ndim, V.coors)
            V.plan(tuple(shape), self.axis, complex if self.cplx else float, {})
        self.fourier = f in 'RF'
        self.df = float(V.domain_factor())
        self.M = M
        if not self.fourier:
            self.S = fs.stencil(V)
            self.xq, self.wq = V.points_and_weights(M)
            self.wq = np.array(self.wq)
            self.xq = np.array(self.xq)
            self.B = basis_values(self.fam, N, self.xq)
            self.dim = V.dim()
            T = self.B @ self.S.T
            self.cond = float(np.linalg.cond(T.T @ (self.wq[:, None] * T)))
        else:
            self.xq = np.arange(N) * 2 * np.pi / N
            self.B, self.k = fourier_values(f == 'R', N, self.xq)
            self.dim = len(self.k)
            self.cond = 1.0
        self.ncoef = V.shape(True)
        self.kinds = ['vandermonde']
        if self.fourier or quad in FAST.get(f, ()):
            self.kinds.append('fast')
        if f not in ('R', 'F', 'La', 'H'):
            self.kinds.append('recursive')
        self.label = '%s N=%d %s %s%s ndim=%d axis=%d' % (name, N, quad, 'complex ' if self.cplx else '', dict(extra) or '', ndim, self.axis)
        self.label += ' dom=%s' % (self.dom,) if f not in ('La', 'H') else ''
        if self.fam['f'] in 'QJW':
            self.label += ' al=%s be=%s' % (self.fam['al'], self.fam['be'])

    def build(self):
        f, N = self.f, self.N
        kw = dict(self.extra)
        if f in 'RF':
            return FunctionSpace(N, 'F', dtype='d' if f == 'R' else 'D', domain=Domain(*self.dom))
        if self.cplx:
            kw['dtype'] = complex
        try:
            return fs.make(f, self.name, N, self.fam, self.dom, self.quad, **kw)
        except TypeError as e:
            if 'dtype' in str(e):
                kw.pop('dtype')
                self.cplx = False
                return fs.make(f, self.name, N, self.fam, self.dom, self.quad, **kw)
            raise

    # columns <-> arrays
    def spread(self, M, dtype):
        """(len, cols) matrix as an array with self.axis."""
        a = np.asarray(M, dtype=dtype).reshape((M.shape[0],) + self.other)
        return np.moveaxis(a, 0, self.axis).copy()

    def gather(self, a):
        a = np.moveaxis(np.asarray(a), self.axis, 0)
        return a.reshape(a.shape[0], -1)

    def coef(self, reg):
        """dofs (ncoef, cols) from register."""
        re = np.array([arr(c['re']) for c in reg]).T
        im = np.array([arr(c['im']) for c in reg]).T
        C = re + 1j * im if (self.cplx or self.f == 'R') else re
        D = np.zeros((self.ncoef, self.cols), dtype=C.dtype)
        m = min(self.dim, self.ncoef)
        D[:m] = C[:m]
        if self.f == 'R':
            D[0] = D[0].real
            if self.N % 2 == 0:
                D[-1] = D[-1].real
        return D

    def values(self, D, x=None):
        """Exact values of the expansion at reference points."""
        if self.fourier:
            E = self.B if x is None else fourier_values(self.f == 'R', self.N, x)[0]
            if self.f == 'F':
                return E @ D
            m = -1 if self.N % 2 == 0 else None
            return (E @ D).real + (E[:, 1:m] @ D[1:m]).real
        B = self.B if x is None else basis_values(self.fam, self.N, x)
        return B @ (self.S.T @ D[:self.dim])

    def scalar(self, F):
        if self.fourier:
            return self.B.conj().T @ F / self.N
        R = self.S @ (self.B.T @ (self.wq[:, None] / self.df * F))
        out = np.zeros((self.ncoef, F.shape[1]), dtype=R.dtype)
        out[:self.dim] = R
        return out

    def phys_dtype(self):
        return complex if self.cplx else float

    def spec_dtype(self):
        return complex if (self.cplx or self.f == 'R') else float


class Fails(list):
    def __init__(self, case):
        self.case = case

    def check(self, key, got, want, tol, scale=None):
        COUNT['comparisons'] += 1
        if not close(got, want, tol, scale=scale):
            self.append(dict(key=key, what='%s: %s: %s' % (self.case.label, key, diff(got, want))))


def call(c, tr, arr_in, style, kind, out_shape, out_dtype, fl_, **kw):
    """Call a transform in one of its styles; inputs must stay as they are."""
    if style == 'buffers':
        tr.input_array[...] = arr_in
        r = tr(kind=kind, **kw)
        return np.array(r)
    a = arr_in.copy()
    if style == 'output':
        out = np.full(out_shape, 7.0, dtype=out_dtype)
        r = tr(a, out, kind=kind, **kw)
        if r is not out:
            fl_.append(dict(key='output array not returned', what=c.label))
        r = np.array(out)
    else:
        r = np.array(tr(a, kind=kind, **kw))
    if not np.array_equal(a, arr_in):
        fl_.append(dict(key='input changed', what='%s kind=%s' % (c.label, kind)))
    return r


def project(c, F):
    """Discrete weighted projection by the normal equations."""
    if c.fourier:
        return c.scalar(F)
    W = np.diag(c.wq)
    T = c.B @ c.S.T
    A = T.T @ W @ T
    X = np.linalg.solve(A, T.T @ W @ F)
    return X


def run_case(c, steps):
    fl_ = Fails(c)
    V = c.V
    regs = [c.coef(r) for r in steps[0]['reg']]
    tol = 1e-9 if c.f not in ('La', 'H') else 1e-7
    if c.N > 40:
        tol *= 10
    # mass matrices of wide bases are badly conditioned
    ctol = max(tol * 100, 1e-13 * c.cond)
    if ctol > 1e-3:
        COUNT['too badly conditioned to invert'] += 1
    sh_phys = list(c.other)
    sh_spec = list(c.other)
    sh_phys.insert(c.axis, c.M)
    sh_spec.insert(c.axis, c.ncoef)
    for s in steps[1:]:
        op = s['op']
        COUNT[op] += 1
        kinds = c.kinds
        kind = s.get('kind')
        if kind not in kinds:
            kind = None if c.f in 'CULRF' and 'fast' in kinds else 'vandermonde'
        if kind == 'default':
            kind = None
        if op == 'set':
            regs[s['k'] - 1] = c.coef(s['v'])
        elif op == 'backward':
            D = regs[s['k'] - 1]
            kw, x = {}, None
            if s['mesh'] == 'quadrature':
                kw = dict(mesh='quadrature')
                x = c.xq
                if kind == 'fast' and not c.fourier:
                    kw, x = {}, None
            elif s['mesh'] == 'uniform' and c.f not in ('La', 'H'):
                kw = dict(mesh='uniform')
                x = np.array(V.mesh(bcast=False, map_true_domain=False, kind='uniform'))
                d = np.diff(x)
                if not np.allclose(d, d[0]):
                    fl_.append(dict(key='uniform mesh', what=c.label))
            elif s['mesh'] == 'space' and not c.fourier and c.f not in ('La', 'H'):
                o = FunctionSpace(c.N, 'L' if c.f != 'L' else 'C', domain=tuple(c.dom))
                kw = dict(mesh=o)
                x = np.array(o.mesh(bcast=False, map_true_domain=False))
            want = c.values(D, x)
            got = c.gather(call(c, V.backward, c.spread(D, c.spec_dtype()), s['style'], kind, sh_phys, c.phys_dtype(), fl_, **kw))
            fl_.check('backward %s mesh=%s' % (kind, s['mesh']), got, want, tol, scale=np.abs(want).max() + np.abs(D).max())
        elif op in ('forward', 'scalar'):
            D = regs[s['k'] - 1]
            F = c.values(D)
            a = c.spread(F, c.phys_dtype())
            tr = V.forward if op == 'forward' else V.scalar_product
            got = c.gather(call(c, tr, a, s['style'], kind, sh_spec, c.spec_dtype(), fl_))
            if op == 'forward':
                want, scale = D, np.abs(D).max() + 1e-3
                m = c.dim
                if ctol < 1e-3:
                    fl_.check('forward %s' % kind, got[:m], want[:m], ctol, scale=scale)
                fl_.check('rows after the last degree of freedom', got[m:], 0 * got[m:], 1e-12, scale=1)
            else:
                want = c.scalar(F)
                sc = np.abs(want).max() + 1e-3 * np.abs(F).max() + 1e-10
                fl_.check('scalar_product %s' % kind, got, want, tol, scale=sc)
                if s['s'] and c.name == 'Orthogonal':
                    # exact integrals, where the quadrature is exact
                    ex = fs.quad_exact(V, c.N)
                    E = np.array([arr(q['re']) for q in s['s']]).T
                    if c.cplx:
                        E = E + 1j * np.array([arr(q['im']) for q in s['s']]).T
                    # (coefficients of H in units of the unnormalized functions)
                    b = fs.basis_scale(c.fam, c.N)[:, None]
                    E = E * b * b * fs.h0(c.fam) / c.df
                    m = c.N if ex >= 2 * c.N - 2 else c.N - 1
                    fl_.check('scalar_product and exact integrals', got[:m], E[:m], tol * 10, scale=np.abs(E).max() + 1e-10)
        elif op == 'project':
            rs = np.random.RandomState(c.rnd.randrange(2**31))
            F = rs.uniform(-1, 1, (c.M, c.cols))
            if c.cplx:
                F = F + 1j * rs.uniform(-1, 1, F.shape)
            k2 = s['kind2'] if s['kind2'] in kinds else kinds[0]
            a = c.spread(F, c.phys_dtype())
            g = call(c, V.forward, a, 'output', kind, sh_spec, c.spec_dtype(), fl_)
            G = c.gather(g)
            want = project(c, F)
            if ctol > 1e-3:
                continue
            fl_.check('projection %s' % kind, G[:c.dim], want, ctol, scale=np.abs(want).max())
            b = call(c, V.backward, g, 'output', k2, sh_phys, c.phys_dtype(), fl_)
            g2 = c.gather(call(c, V.forward, b, 'none', kind, sh_spec, c.spec_dtype(), fl_))
            fl_.check('projecting twice', g2, G, ctol, scale=np.abs(G).max())
        elif op == 'points':
            D = regs[s['k'] - 1]
            xr, xp, d = arr(s['ref']), arr(s['phys']), s['d']
            w = {'La': np.exp(-xr / 2), 'H': np.exp(-xr**2 / 2)}.get(c.f, np.ones(len(xr)))
            b = fs.basis_scale(c.fam, c.N)
            T = arr(s['V']) * w[:, None] * b[None, :] @ c.S.T
            got = np.array(V.evaluate_basis_derivative_all(xr, k=d))[:, :c.dim]
            fl_.check('evaluate_basis_derivative_all k=%d' % d, got, T, tol * 10, scale=np.abs(T).max() + 1e-10)
            i = c.rnd.randrange(c.dim)
            g1 = np.array(V.evaluate_basis_derivative(xr, i, d))
            fl_.check('evaluate_basis_derivative k=%d' % d, g1, T[:, i], tol * 10, scale=np.abs(T).max() + 1e-10)
            T0 = basis_values(c.fam, c.N, xr) @ c.S.T
            if d == 0:
                fl_.check('harness', T0, T, tol * 10, scale=np.abs(T).max() + 1e-10)
            fl_.check('evaluate_basis', np.array(V.evaluate_basis(xr, i)), T0[:, i], tol * 10, scale=np.abs(T0).max())
            fl_.check('evaluate_basis_all', np.array(V.evaluate_basis_all(xr))[:, :c.dim], T0, tol * 10, scale=np.abs(T0).max())
            if c.ndim == 1:
                U = T0 @ D[:c.dim]
                if c.name == 'Orthogonal' and c.f != 'H':
                    E = np.array([arr(q['re']) for q in s['u']]).T
                    if c.cplx:
                        E = E + 1j * np.array([arr(q['im']) for q in s['u']]).T
                    fl_.check('harness', U, E * w[:, None], tol * 10, scale=np.abs(U).max() + 1e-3)
                u = Function(V)
                u[:] = D[:, 0]
                keep = np.array(u)
                got = V.eval(xp.copy(), u)
                fl_.check('space.eval', got, U[:, 0], tol * 10, scale=np.abs(U).max() + np.abs(D).max())
                got = u.eval(xp.copy())
                fl_.check('Function.eval', got, U[:, 0], tol * 10, scale=np.abs(U).max() + np.abs(D).max())
                got = u(float(xp[1]))
                fl_.check('Function.eval of a number', np.ravel(got), U[1:2, 0], tol * 10, scale=np.abs(U).max() + np.abs(D).max())
                fl_.check('eval changed the function', np.array(u), keep, 0, scale=1)
                v = u.to_ortho()
                got = np.array(v)
                want = np.zeros(len(got), dtype=got.dtype)
                want[:] = c.S.T @ D[:c.dim, 0]
                fl_.check('to_ortho', got, want, tol, scale=np.abs(want).max() + 1e-3)
        elif op == 'quad' and not c.fourier:
            ex = fs.quad_exact(V, c.N)
            mom = arr(s['mom'])
            h = fs.h0(c.fam)
            w = {'La': np.exp(-c.xq), 'H': np.exp(-c.xq**2)}.get(c.f, np.ones(len(c.xq)))
            kmax = min(ex, len(mom) - 1, 60 if c.f not in ('La', 'H') else 14)
            got = np.array([np.sum(c.wq * w * c.xq**k) for k in range(kmax + 1)])
            sc = h * np.maximum(np.abs(mom[:kmax + 1]), 1e-2)
            fl_.check('quadrature moments (in units of their size)', got / sc, h * mom[:kmax + 1] / sc, tol * (1 if c.f not in ('La', 'H') else 100), scale=1)
            x2, w2 = V.points_and_weights(c.M, map_true_domain=True)
            want = [float(c.dom[0]) + (x + 1) / c.df if c.f not in ('La', 'H') else x for x in c.xq]
            fl_.check('points of the true domain', np.array(x2), np.array(want), 1e-12)
            m = np.array(V.mesh(bcast=False))
            fl_.check('mesh', m, np.array(want), 1e-12)
    return list(fl_)


def run(rec):
    sp0 = rec['steps'][0]
    f, N = sp0['fam']['f'], sp0['n']
    h = zlib.crc32(json.dumps(rec['steps'][1:2]).encode()) + N
    rnd = random.Random(h)
    cases = []
    if f in 'RF':
        cases.append(('Fourier', {}, ''))
    else:
        cat = [x for x in fs.catalogue(f) if x[2] <= N and x[0] != 'Orthogonal' and not (x[0] == 'Generic' and f in 'QJW')]
        # functions with boundary bases or test functions only are left to P03
        # weighted conditions are singular on some domains (P04)
        cat = [x for x in cat if not x[0].startswith('BC') and not (x[0] == 'Generic' and (N > 20 or 'W' in str(x[1])))]
        cases.append(('Orthogonal', {}, rnd.choice(fs.QUADS[f])))
        for name, extra, mn in rnd.sample(cat, min(len(cat), OPT['composites'])):
            cases.append((name, extra, rnd.choice(fs.QUADS[f])))
    out = []
    for name, extra, quad in cases:
        COUNT['spaces'] += 1
        LABEL['at'] = 'at %s %s %s' % (name, extra, quad)
        c = Case(rec, rnd, name, extra, quad)
        out += run_case(c, rec['steps'])
    return out
