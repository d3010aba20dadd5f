"""Replay of BoundarySpaces behaviours (P04)."""
import os
import zlib
from collections import Counter
from fractions import Fraction
import numpy as np
import sympy as sp
from num import fl, arr, close, diff
import famspaces as fs
from shenfun import FunctionSpace, Function, Array, TensorProductSpace, comm
from shenfun.spectralbase import Domain

COUNT = Counter()
TIMEOUT_IS_FAILURE = bool(os.environ.get('VERIF_SLOW'))   # symbolic stencils can take minutes
PARTIAL = []
OPT = dict(forms=2)
ORDER = dict(D=0, R=0, N=1, W=1, N2=2, N3=3, N4=4, N5=5)
LR = dict(left=0, right=1)


def setup(args):
    OPT.update(args or {})


def stats():
    return dict(COUNT)


def rat(s):
    f = Fraction(s)
    return int(f) if f.denominator == 1 else float(f)


def dict_form(conds, vals):
    bc = {'left': {}, 'right': {}}
    for c, v in zip(conds, vals):
        bc[c['side']][c['kind']] = (rat(c['c']), v) if c['kind'] in 'RW' else v
    return bc


def forms(f, conds, vals, dom, numeric):
    """All ways to write the conditions down: (label, bc, basis keyword)."""
    bc = dict_form(conds, vals)
    names = [c['side'][0] + c['kind'] for c in conds]
    out = []
    one = {k: v for k, v in bc.items() if v}
    out.append(('dict', bc))
    if len(one) == 1:
        out.append(('dict one-sided', one))
    out.append(('old list form', {k: [(a, b) for a, b in v.items()] for k, v in bc.items() if v}))
    out.append(('old list form', {k: [(a, b) for a, b in reversed(list(v.items()))] for k, v in bc.items() if v}))
    m = len(conds) // 2
    seq = ['D', 'N', 'N2', 'N3', 'N4', 'N5'][:m]
    if names == ['l' + k for k in seq] + ['r' + k for k in seq]:
        out.append(('tuple', tuple(vals)))
        out.append(('tuple', tuple(vals)))
    if names == ['lD']:
        out.append(('tuple', (vals[0],) if f == 'La' else (vals[0], None)))
    if names == ['rD']:
        out.append(('tuple', (None, vals[0])))
    if numeric and all(c['kind'] in ('D', 'N', 'N2', 'N3', 'N4') for c in conds) and f != 'La':
        s = ["u%s(%r)=%r" % ("'" * ORDER[c['kind']], float(dom[LR[c['side']]]), float(v)) for c, v in zip(conds, vals)]
        out.append(('string', '&&'.join(s)))
        out.append(('string reordered', '&&'.join(reversed(s))))
    return out


def space(f, n, fam, bc, dom, **kw):
    p = fs.params(fam)
    if f != 'La':
        p['domain'] = dom
    if f in ('Q', 'J'):
        p.update({k: v for k, v in p.items()})
    p.update(kw)
    return FunctionSpace(n, dict(C='C', L='L', U='U', Q='Q', J='J', La='La')[f], bc=bc, **p)


def unscaled(v):
    return [float(x) for x in v]


def run(rec):
    F = PARTIAL
    del F[:]
    s0 = rec['steps'][0]
    fam, n, conds = s0['fam'], s0['n'], s0['conds']
    f = fam['f']
    dom = tuple(fs.num(x) for x in s0['dom'])
    L = arr(s0['L'])
    m = len(conds)
    dim = n - m
    rng = np.random.RandomState(zlib.crc32(repr((fam, n, conds, s0['dom'])).encode()))
    half = 1.0 if f == 'La' else float(dom[1] - dom[0]) / 2
    names = [c['side'][0] + c['kind'] for c in conds]
    base = '%s(%s,%s) N=%d domain=%s conditions %s' % (f, fam['al'], fam['be'], n, s0['dom'], [(a, c['c']) if 'R' in a or 'W' in a else a for a, c in zip(names, conds)])
    rowscale = np.abs(L).max(axis=1)

    def bad(key, what):
        F.append(dict(key='%s:%s:%s' % (key, f, ''.join(names)), what=base + ' ' + what))

    def create(label, make):
        try:
            return make()
        except Exception as e:
            if s0['singular']:
                COUNT['declined'] += 1
                return None
            import traceback
            fr = [x for x in traceback.extract_tb(e.__traceback__) if '/shenfun/' in x.filename]
            bad('raised:' + type(e).__name__, '%s: %r at %s' % (label, e, fr[-1:] and '%s:%d' % (os.path.basename(fr[-1].filename), fr[-1].lineno)))
            return None

    def satisfied(label, uo, d, tol=1e-9):
        """The orthogonal coefficients satisfy the prescribed values."""
        got = L.dot(uo)
        d = np.asarray(d)
        size = np.abs(L).dot(np.abs(uo)) + np.abs(d) + 1e-14
        COUNT['values'] += 1
        if not np.all(np.abs(got - d) <= tol * size):
            bad(label, '%s: conditions give %s instead of %s' % (label, got, d))

    def check_basis(V, label):
        COUNT['bases'] += 1
        if V.dim() != dim:
            bad('dim', '%s: dim() %s instead of %d' % (label, V.dim(), dim))
            return
        S = fs.stencil(V)
        if np.linalg.matrix_rank(S, tol=1e-9 * np.abs(S).max()) != dim:
            bad('rank', '%s: rank %d of %d basis functions' % (label, np.linalg.matrix_rank(S), dim))
        res = L.dot(S.T)
        if not np.all(np.abs(res) <= 1e-9 * (np.abs(L).dot(np.abs(S.T)) + 1e-14)):
            bad('basis', '%s: functionals of the basis functions\n%s' % (label, res))
        # through the evaluation of the basis functions themselves
        x = np.array([-1., 1.]) if f != 'La' else np.array([0.])
        B = {}

        def val(k):
            if k not in B:
                B[k] = V.evaluate_basis_derivative_all(x=x, k=k)[:, :dim] / half**k if k else V.evaluate_basis_all(x=x)[:, :dim]
            return B[k]
        for i, c in enumerate(conds):
            k, e = ORDER[c['kind']], LR[c['side']]
            if f == 'La' and k + (c['kind'] in 'RW') > 2:
                continue
            v = val(k)[e] + (float(Fraction(c['c'])) * val(k + 1)[e] if c['kind'] in 'RW' else 0)
            if not np.all(np.abs(v) <= 1e-7 * (np.abs(L[i]).dot(np.abs(S.T)) + 1e-10)):
                bad('evaluate', '%s: %s of the evaluated basis functions %s' % (label, names[i], v))
        if rng.randint(4) == 0 and n < 10 and not any(a[1] in 'RW' for a in names):
            X = sp.Symbol('x', real=True)
            i = rng.randint(dim)
            phi = V.basis_function(i, x=X)
            for c, a, row in zip(conds, names, L):
                k = ORDER[c['kind']]
                v = float(sp.N(sp.diff(phi, X, k).subs(X, x[LR[c['side']]]) if f != 'La' else sp.diff(phi, X, k).subs(X, 0))) / half**k
                if not abs(v) <= 1e-7 * (np.abs(row).dot(np.abs(S[i])) + 1e-10):
                    bad('sympy', '%s: %s of the symbolic basis function %d is %s' % (label, a, i, v))

    def physical(V):
        """Values of the orthogonal basis at the quadrature points of V."""
        T = V.get_orthogonal()
        return T.evaluate_basis_all(x=V.mpmath_points_and_weights()[0] if False else V.points_and_weights()[0])[:, :n]

    for g in rec['steps'][1:]:
        if g['op'] == 'values':
            p, q, d, e = arr(g['p']), arr(g['q']), arr(g['d']), arr(g['e'])
            vals = [rat(v) for v in g['d']]
            fo = forms(f, conds, vals, dom, True)
            pick = [fo[0]] + [fo[rng.randint(len(fo))] for _ in range(OPT['forms'])]
            for label, bc in pick[rng.randint(2):]:
                quad = fs.QUADS[f][rng.randint(len(fs.QUADS[f]))]
                V = create(label, lambda: space(f, n, fam, bc, dom, quad=quad))
                if V is None:
                    continue
                COUNT[label] += 1
                lab = '%s (%s, quad %s)' % (label, V.__class__.__name__, quad)
                check_basis(V, lab)
                u = Function(V)
                u[:dim] = rng.randn(dim)
                u.set_boundary_dofs()
                satisfied('set_boundary_dofs ' + label, np.asarray(u.to_ortho()), d)
                # a function with these values is recovered, and keeps them
                P = physical(V)
                ua = Array(V)
                ua[:] = P.dot(p)
                sc = np.abs(P).dot(np.abs(p)).max() + 1e-14
                u = Function(V)
                u = V.forward(ua, u)
                uo = np.asarray(u.to_ortho())
                satisfied('forward ' + label, uo, d, tol=1e-8)
                cond = np.linalg.norm(uo - p) / (np.abs(p).max() + np.abs(d).max() + 1e-3)
                if not cond < 1e-7 and f != 'La':
                    bad('recover', '%s: forward does not recover the function: coefficients %s instead of %s' % (lab, uo, p))
                ub = V.backward(u)
                if not close(ub, ua, rtol=1e-8, scale=sc + np.abs(d).max()) and f != 'La':
                    bad('backward', '%s: backward %s' % (lab, diff(ub, ua)))
                if f != 'La':
                    ends = [float(dom[0]), float(dom[1])]
                    ev = np.atleast_1d(u.eval(np.array(ends)))
                    for c, dv in zip(conds, d):
                        if c['kind'] == 'D' and not abs(ev[LR[c['side']]] - dv) < 1e-8 * (sc + abs(dv)):
                            bad('eval', '%s: value at the %s end %s instead of %s' % (lab, c['side'], ev[LR[c['side']]], dv))
            # values that depend on time
            t = sp.Symbol('t', real=True)
            tv = [sp.Rational(a) + t * sp.Rational(b) for a, b in zip(g['d'], g['e'])]
            fo = forms(f, conds, tv, dom, False)
            if all(isinstance(x, sp.Expr) for x in tv):
                label, bc = fo[rng.randint(len(fo))]
                V = create('time ' + label, lambda: space(f, n, fam, bc, dom))
                if V is not None:
                    P = physical(V)
                    for tt in list(g['times']) + [g['times'][0]]:
                        ft = fl(tt)
                        V.bc.update(ft)
                        u = Function(V)
                        u[:dim] = rng.randn(dim)
                        u.set_boundary_dofs()
                        satisfied('time dependent', np.asarray(u.to_ortho()), d + ft * e)
                        ua = Array(V)
                        ua[:] = P.dot(p + ft * q)
                        uo = np.asarray(V.forward(ua, Function(V)).to_ortho())
                        satisfied('time dependent forward', uo, d + ft * e, tol=1e-8)
                        COUNT['time'] += 1
        else:
            tensor(g, F, f, fam, n, conds, dom, L, rng, bad, create, base)
    return list(F)


def tensor(g, F, f, fam, n, conds, dom, L, rng, bad, create, base):
    """Values that vary along other axes."""
    if f == 'La':
        return
    m = len(conds)
    polys = [arr(p) for p in g['polys']]
    vals = [[sp.Rational(v) for v in d] for d in g['vals']]
    k1, k2 = g['k1'], g['k2']
    other = g['other']
    # two nonhomogeneous axes are for values and derivatives only
    if other == 'I' and any(c['kind'] not in ('D', 'N', 'N2', 'N3', 'N4') for c in conds):
        other = 'B'
    axis = 0 if g['first'] else 1
    y = sp.Symbol('xy'[1 - axis], real=True)
    t = sp.Symbol('t', real=True)
    if other in ('F', 'Fc'):
        fun = [sp.S(1), sp.cos(k1 * y), sp.sin(k2 * y)]
        make = lambda: FunctionSpace(8, 'F', dtype='d' if other == 'F' else 'D')
    elif other == 'P':
        fun = [sp.S(1), y**k1, y**k2]
        make = lambda: FunctionSpace(5, 'L' if k1 == 1 else 'C', domain=(-1, 2))
    elif other == 'B':
        # homogeneous in y
        w = (1 + y) * (2 - y)
        fun = [w, w * y, w * y**2]
        make = lambda: FunctionSpace(6, 'L' if k1 == 1 else 'C', bc=(0, 0), domain=(-1, 2))
    else:
        fun = [sp.S(1), y**k1, y**k2]
        # the values along the other pair of edges are those of the function itself
        make = None
    time = not g['third'] and other != 'I'
    bcs = []
    for i in range(m):
        ex = vals[0][i] * fun[0] + vals[1][i] * fun[1] * (t if time else 1) + vals[2][i] * fun[2]
        bcs.append(sp.expand(ex))
    ft = fl(g['t']) if time else 1.0
    X = sp.Symbol('xy'[axis], real=True)
    dt = 'D' if other == 'Fc' else 'd'
    bc = dict_form(conds, [b if isinstance(b, sp.Expr) and b.free_symbols else float(b) for b in bcs])
    if other == 'I':
        # p(x) in monomials for the conditions on the other axis
        if any(c['side'] == 'left' and c['kind'] == 'D' for c in conds) and any(c['side'] == 'right' and c['kind'] == 'D' for c in conds) and f in ('C', 'L'):
            h = sp.Rational(dom[1] - dom[0]) / 2
            r = (X - (sp.Rational(dom[0]) + h)) / h
            Q = [sp.chebyshevt_poly(j, r) if f == 'C' else sp.legendre(j, r) for j in range(n)]
            px = [sum(sp.Rational(c) * Q[j] for j, c in enumerate(pp)) for pp in g['polys']]
            U = sum(a * b for a, b in zip(px, fun))
            lo, hi = sp.expand(U.subs(y, -1)), sp.expand(U.subs(y, 2))
            if lo.free_symbols and hi.free_symbols and all(sp.S(b).free_symbols for b in bcs):
                make = lambda: FunctionSpace(6, f, bc=(lo, hi), domain=(-1, 2))
        if make is None:
            return
    lab = 'axis %d with %s, values %s%s' % (axis, other, [str(b) for b in bcs], ' at t=%s' % ft if time else '')

    def build():
        V = space(f, n, fam, bc, dom)
        W = make()
        bases = (V, W) if axis == 0 else (W, V)
        kw = {}
        if other in ('F', 'Fc') and rng.randint(2):
            kw['axes'] = (1, 0) if other == 'Fc' or axis == 1 else (0, 1)
        return TensorProductSpace(comm, bases, dtype=dt, **kw)
    T = create(lab, build)
    if T is None:
        return
    COUNT['tensor ' + other] += 1
    V = T.bases[axis]
    if time:
        V.bc.update(ft)
    # exact values on the mesh
    P = V.get_orthogonal().evaluate_basis_all(x=V.points_and_weights()[0])[:, :n]
    ym = np.asarray(T.bases[1 - axis].mesh(), dtype=float).ravel()
    ua = Array(T)
    G = [np.broadcast_to(sp.lambdify(y, e)(ym), ym.shape) * (ft if i == 1 and time else 1) for i, e in enumerate(fun)]
    M = sum(np.outer(P.dot(p), gg) for p, gg in zip(polys, G))
    ua[:] = M if axis == 0 else M.T
    sc = sum(np.outer(np.abs(P).dot(np.abs(p)), np.abs(gg)) for p, gg in zip(polys, G)).max() + 1e-14
    big = sc + max(abs(float(v)) for d in vals for v in d)

    def ends(uh, label, tol=1e-8):
        """Values of the conditions along the other axis, of the function uh."""
        ub = np.asarray(uh.backward())
        A = ub if axis == 0 else ub.T
        # coefficients along this axis from the values, by the inverse of the exact basis
        c = np.linalg.lstsq(P, A, rcond=None)[0]
        got = L.dot(c)
        exp = np.array([sum(float(vals[j][i]) * G[j] for j in range(3)) for i in range(m)])
        size = (np.abs(L).dot(np.abs(c)).max(axis=1) + np.abs(exp).max(axis=1) + 1e-14)[:, None]
        assert got.shape == exp.shape, (got.shape, exp.shape)
        if not np.all(np.abs(got - exp) <= tol * size):
            i = int(np.argmax((np.abs(got - exp) / size).max(axis=1)))
            bad('tensor ' + label + ':' + other, '%s: condition %d gives %s instead of %s along the other axis' % (lab, i, got[i], exp[i]))
    u = T.forward(ua, Function(T))
    ub = np.asarray(u.backward())
    if not close(ub, np.asarray(ua), rtol=1e-7, scale=big):
        bad('tensor recover:' + other, '%s: the function is not recovered: %s' % (lab, diff(ub, np.asarray(ua))))
    ends(u, 'forward')
    # any other function of the space
    v = Function(T)
    r = Array(T)
    r[:] = rng.randn(*r.shape)
    v = T.forward(r, v)
    w = Function(T)
    w[:] = v
    sl = [slice(None)] * 2
    sl[axis] = slice(-m, None)
    if other != 'I':
        w[tuple(sl)] = 0
        w.set_boundary_dofs()
        ends(w, 'set_boundary_dofs')
