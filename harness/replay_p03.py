"""Replay of Galerkin behaviours: assembled one-dimensional matrices (P03)."""
import os
import zlib
import numpy as np
import sympy as sp
from collections import Counter
from num import fl, arr, close, diff
import famspaces as fs
from shenfun.spectralbase import inner_product
from shenfun.matrixbase import SpectralMatrix

COUNT = Counter()
TIMEOUT_IS_FAILURE = bool(os.environ.get('VERIF_SLOW'))    # symbolic stencils and exact integrals can take minutes
OPT = dict(pairs=10, exact=1)


def setup(args):
    OPT.update(args or {})


def stats():
    return dict(COUNT)


def exact_ok(fam, a, b, dw):
    # sympy finds these integrals in reasonable time
    return a + b <= 3 and (fam['f'] in ('L', 'U') or fam['f'] == 'Q' and '/' not in fam['al'] or fam['f'] == 'C' and a + b + dw == 0)


def degs(S):
    return np.array([np.max(np.nonzero(np.abs(r) > 1e-13)[0]) if np.any(np.abs(r) > 1e-13) else -100 for r in S])


def dense(A, shape):
    D = A.diags('csr').todense()
    return np.array(D)[:shape[0], :shape[1]]


PARTIAL = []      # what was found before a time-out


def run(rec):
    F = PARTIAL
    del F[:]
    steps = rec['steps']
    b0 = steps[0]
    ft, fu, n = b0['test'], b0['trial'], b0['n']
    dom = tuple(fs.num(x) for x in b0['dom'])
    seed = zlib.crc32(repr((ft, fu, n, b0['dom'], [(s.get('a'), s.get('b'), s.get('w')) for s in steps])).encode())
    rng = np.random.RandomState(seed)
    x = sp.Symbol('x', real=True)
    st_, su_ = fs.basis_scale(ft, n), fs.basis_scale(fu, n)
    same = ft == fu

    def spaces(fam):
        out = []
        for name, extra, mn in fs.catalogue(fam['f']):
            if n >= mn:
                for q in fs.QUADS[fam['f']]:
                    out.append((name, extra, q))
        gen = [o for o in out if o[0] == 'Generic']
        keep = gen[rng.randint(len(gen))] if gen else None
        return [o for o in out if o[0] != 'Generic' or o is keep]
    cache = {}
    impl_ok = lambda m, k: getattr(dict.__getitem__(m, k), 'assemble', SpectralMatrix.assemble) is not SpectralMatrix.assemble

    def get(fam, spec):
        k = repr((fam, spec))
        if k not in cache:
            name, extra, q = spec
            V = fs.make(fam['f'], name, n, fam, dom, q, **extra)
            S = fs.stencil(V)
            cache[k] = (V, S, degs(S))
        return cache[k]
    for g in steps[1:]:
        if g['op'] == 'recursion':
            F += recursion(ft, n, g)
            continue
        a, b = g['a'], g['b']
        G = arr(g['G']) * fs.h0(ft) * st_[:, None] * su_[None, :]
        w = sum((sp.Rational(c) * x**i for i, c in enumerate(g['w'])), sp.S(0))
        w = sp.expand(w)
        dw = sp.degree(w, x)
        one = w == 1
        T, U = spaces(ft), spaces(fu)
        pairs = []
        # every pair of spaces that has its own matrix class for these derivatives
        if not T or not U:
            continue
        mats = get(ft, T[0])[0]._get_mat()
        impl = set()
        for key in mats:
            if len(key) == 2 or len(key) == 3:
                (c0, d0), (c1, d1) = key[:2]
                if d0 == a and d1 == b and impl_ok(mats, key):
                    impl.add((c0.__name__, c1.__name__))
        # a W condition can be singular together with the other one: there is no such space
        for fam_, L_ in ((ft, T), (fu, U)):
            for o in [o for o in L_ if 'W' in str(o[1])]:
                if not np.all(np.isfinite(get(fam_, o)[1])):
                    L_.remove(o)
        for t in T:
            for u in U:
                if (t[0], u[0]) in impl and same and (t[2] == u[2]):
                    pairs.append((t, u))
        for _ in range(OPT['pairs']):
            t = T[rng.randint(len(T))]
            u = U[rng.randint(len(U))]
            if same:
                u = (u[0], u[1], t[2])
            pairs.append((t, u))
        for t, u in pairs:
            Vt, St, dt = get(ft, t)
            Vu, Su, du = get(fu, u)
            exp = St.dot(G).dot(Su.T)
            deg = dt[:, None] + du[None, :] + dw + (a + b if ft['f'] == 'H' else 0)
            if ft['f'] not in ('La', 'H'):
                deg = deg - a - b
                dead = (dt[:, None] < a) | (du[None, :] < b)
            else:
                dead = np.zeros_like(deg, dtype=bool)
            ok = dead | (deg <= fs.quad_exact(Vt, n))
            scale = max(np.abs(St).dot(np.abs(G)).dot(np.abs(Su.T)).max(), 1e-8)
            where = '%s(%s,%s) %s%s/%s(%s,%s) %s%s N=%d domain=%s quad=%s (a,b)=(%d,%d) weight %s' % (
                ft['f'], ft['al'], ft['be'], t[0], t[1] or '', fu['f'], fu['al'], fu['be'], u[0], u[1] or '', n, b0['dom'], t[2], a, b, w)
            kinds = [(None, {})]
            r = rng.randint(6)
            if r == 0:
                kinds.append(('vandermonde', {}))
            elif r == 1 and Vt.is_jacobi and Vu.is_jacobi and t[0] != 'Orthogonal':
                kinds.append(('stencil', {}))
            elif r == 2 and ft['f'] not in ('La', 'H') and not Vt.short_name().startswith('P'):
                kinds.append((None, dict(fixed_resolution=n + 3)))
            elif r == 3 and n <= 5 and rng.randint(8) < OPT['exact'] and exact_ok(ft, a, b, dw):
                kinds.append((None, dict(assemble='exact')))
            elif r == 4 and n <= 7 and rng.randint(2) < OPT['exact'] and ft['f'] not in ('La', 'H') and 'J' not in (ft['f'], fu['f']):   # sympy: nan for floats -1/2
                kinds.append((None, dict(assemble='adaptive')))
            key = ((Vt.__class__, a), (Vu.__class__, b))
            sc = [getattr(V, '_scaled', False) for V in (Vt, Vu)]
            if one and dict.__contains__(mats, key) and impl_ok(mats, key) and sc[0] == sc[1]:
                kinds.append(('implemented', {}))
            for kind, kw in kinds:
                try:
                    A = inner_product((Vt, a), (Vu, b), measure=1 if one else w, kind=kind, **kw)
                    D = np.zeros(exp.shape) if isinstance(A, (int, float)) else dense(A, exp.shape)
                except Exception as e:
                    import traceback
                    fr = traceback.extract_tb(e.__traceback__)[-1]
                    F.append(dict(key='raised:%s:%s,%s:%d,%d:%s:%s' % (ft['f'], Vt.short_name(), Vu.short_name(), a, b, type(e).__name__, fr.name), what=where + ' kind=%s %s raised %r in %s:%d' % (kind, kw, e, fr.filename, fr.lineno)))
                    continue
                m = ok
                if kw.get('assemble'):
                    m = np.ones_like(ok)
                COUNT['matrices'] += 1
                COUNT[(A._assembly_method if hasattr(A, '_assembly_method') else 'zero')] += 1
                tol = 1e-10 * (1 if not kw.get('assemble') else 1e3) * (n / 8.)**(a + b)
                if D.shape != exp.shape or not close(np.where(m, D, 0), np.where(m, exp, 0), rtol=tol, scale=scale):
                    F.append(dict(key='matrix:%s:%s,%s:%d,%d:%s:%s:%s' % (ft['f'], Vt.short_name(), Vu.short_name(), a, b, '1' if one else 'x', kind, ','.join('%s' % v for v in kw.values())),
                                  what=where + ' kind=%s %s: ' % (kind, kw) + diff(np.where(m, D, 0), np.where(m, exp, 0))))
    return list(F)


def recursion(fam, n, g):
    from shenfun.jacobi import recursions as rc
    F = []
    if fam['f'] not in ('C', 'U', 'L', 'Q', 'J', 'W'):
        return F
    V = fs.make(fam['f'], 'Orthogonal', n, fam)
    al, be, gn = V.alpha, V.beta, V.gn
    q = g['q']
    X = arr(g['X'])          # X[j] = coefficients of x^q Q_j
    COUNT['recursions'] += 1
    al, be = sp.nsimplify(al), sp.nsimplify(be)

    def bad(name, got, exp):
        if not close(got, exp, rtol=1e-11, scale=max(1, np.abs(exp).max())):
            F.append(dict(key='recursion:%s:%s' % (name, fam['f']), what='%s q=%d n=%d alpha=%s beta=%s: %s' % (name, q, n, al, be, diff(got, exp))))
    # x Q = A^T Q : A[i, j] multiplies Q_i in x Q_j
    for again in ('', ' after changes to one asked for earlier'):
        P = rc.pmat(rc.a, q, al, be, n + 4, n, gn)
        A = np.array(P.diags('csr').todense())
        bad('pmat(a)' + again, A, X.T)
        for k in P:
            P[k][...] += 1
        P *= 2
    D = arr(g['D'])
    if q == 1:
        # Q_j = sum_i B[i, j] Q_i'
        B = np.array(rc.pmat(rc.b, 1, al, be, n + 1, n, gn).diags('csr').todense())
        Dm = D.T     # Dm[:, j] = Q_j'
        lhs = (Dm[:n, :].dot(B[:n, :]))
        # the last column needs Q_n', beyond the sequence
        bad('b', lhs[:, 1:n-1], np.eye(n)[:, 1:n-1])
        C = np.array(rc.pmat(rc.c, 1, al, be, n + 1, n, gn).diags('csr').todense())
        # (1-x^2) Q_j' = sum_i C[i, j] Q_i, with X the multiplication by x
        Xs = X.T[:n + 1, :]                       # (n+1) x n
        exp = Dm[:n, :] - 0
        XX = np.zeros((n + 2, n))
        big = np.zeros((n + 2, n + 1))
        big[:, :n] = X.T[:n + 2, :]
        D1 = Dm[:n, :]
        x1 = X.T[:n + 1, :].dot(D1)               # x Q_j', degree j <= n-1
        x2 = X.T[:n + 1, :].dot(x1[:n, :])        # x^2 Q_j', degree j+1 <= n
        exp = np.vstack([D1, np.zeros((1, n))]) - x2
        bad('c', C, exp)
    return F
