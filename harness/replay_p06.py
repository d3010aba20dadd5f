"""Replay of Calculus behaviours (P06; also under MPI for P07)."""
import os
from collections import Counter
from fractions import Fraction
import numpy as np
import sympy as sp
from shenfun import Function, Array, project, Dx, inner, TestFunction, TrialFunction, Expr, comm
from mpi4py import MPI
import fields as fd
from fields import SYM
from num import fl, diff

COUNT = Counter()
LABEL = {}
PARTIAL = []


def stats():
    return dict(COUNT)


class Run:
    def __init__(self, rec, F, comm=comm, spacekw=None):
        self.F, self.comm = F, comm
        s0 = rec['steps'][0]
        self.axes, self.perm, self.cplx, self.lift = s0['axes'], s0['perm'], s0['cplx'], s0['lift']
        self.dim = len(self.axes)
        kw = dict(collapse_fourier=True) if s0['collapse'] and self.dim > 1 else {}
        kw.update(spacekw or {})
        if self.dim == 1:
            kw = {}
        self.desc = '%s axes=%s%s' % ('x'.join('%s%d%s%s' % (a['k'], a['n'], '' if a['bc'] == 'none' else a['bc'], a['quad']) for a in self.axes),
                                    tuple(p - 1 for p in self.perm), ' collapsed' if kw.get('collapse_fourier') else '')
        self.kw = kw
        self.T = fd.space(self.axes, self.perm, self.cplx, self.lift, comm=comm, **kw)
        self.homaxes = [dict(a, bc='none') for a in self.axes]
        self.flip = sum(a['n'] for a in self.axes) % 2 == 0
        self.O = self.T.get_orthogonal() if self.flip else fd.space(self.axes, self.perm, self.cplx, comm=comm, ortho=True, **kw)
        self.sig = ''.join(sorted('B' if not fd.isF(a) else a['k'] for a in self.axes))

    def bad(self, key, what):
        self.F.append(dict(key='%s:%s' % (key, self.sig), what='%s: %s' % (self.desc, what)))

    def mesh(self, S, kind='quadrature'):
        if self.dim == 1:
            return [S.mesh() if kind == 'quadrature' else S.mesh(kind=kind)]
        return S.local_mesh(True) if kind == 'quadrature' else S.local_mesh(True, kind=kind)

    def exact(self, f, S, kind='quadrature'):
        return fd.values(self.axes, f, self.mesh(S, kind), self.cplx)

    def sp(self, tag):
        return self.T if tag == 'T' else self.O

    def agree(self, key, got, exp, tol, what):
        COUNT['values'] += int(np.size(exp))
        got, exp = np.asarray(got), np.asarray(exp)
        ok = got.shape == exp.shape and bool(np.all(np.isfinite(got))) and (exp.size == 0 or np.abs(got - exp).max() <= tol)
        ok = self.comm.allreduce(bool(ok), op=MPI.LAND)
        if not ok:
            self.bad(key, '%s: %s (tolerance %.2g)' % (what, diff(got, exp), tol))
        return ok

    def make(self, f, how, tag='T', out=None):
        S = self.sp(tag)
        if how in ('sympy', 'project'):
            e = fd.symbolic(self.axes, f, self.cplx)
            if how == 'sympy' and e.free_symbols:
                return Function(S, buffer=e)
            if how == 'project' and e.free_symbols:
                return project(e, S)
        u = Array(S)
        u[:] = self.exact(f, S)
        if how == 'set' and out is not None:
            S.forward(u, out)
            return out
        return u.forward()

    def coordinate(self, i):
        return SYM[i]

    def piece(self, u, p):
        e = Expr(u)
        for i, k in enumerate(p['d']):
            if k:
                e = Dx(e, i, k)
        sc = sp.Rational(p['c'])
        for i, k in enumerate(p['e']):
            sc = sc * SYM[i]**k
        if sc != 1:
            e = e * sc if p['d'][0] % 2 == 0 else sc * e
        return e

    def total(self, u, ps, style):
        es = [self.piece(u, p) for p in ps]
        e = es[0]
        for q in es[1:]:
            e = e - (-q) if style == 'sub' else e + q
        if style == 'neg':
            e = -(-e)
        return e


def run(rec):
    F = PARTIAL
    del F[:]
    R = Run(rec, F)
    replay(R, rec['steps'][1:])
    return list(F)


def replay(R, steps):
    axes, cplx, dim = R.axes, R.cplx, R.dim
    U, ex, tags, err = {}, {}, {}, {}
    EPS = 2e-12

    def size(f):
        return fd.magnitude(axes, f, cplx) + 1e-12

    def check(key, what):
        for k in U:
            S = R.sp(tags[k])
            ub = U[k].backward()
            if not R.agree(key[0] if k == key[1] else 'other register:' + key[0], ub, R.exact(ex[k], S), err[k] + EPS * size(ex[k]), '%s, register %d' % (what, k)):
                return False
        return True

    for g in steps:
        op = g['op']
        LABEL['at'] = '%s %s' % (R.desc, {k: v for k, v in g.items() if k not in ('reg', 'f', 'vals')})
        what = str({k: v for k, v in g.items() if k not in ('reg', 'f', 'vals')})[:300]
        t = g.get('t', 0)
        if op == 'start':
            for k, (f, how) in enumerate(zip(g['reg'], g['how']), 1):
                U[k] = R.make(f, how, out=Function(R.T))
                ex[k], tags[k], err[k] = f, 'T', 5 * EPS * size(f)
        elif op == 'set':
            U[t] = R.make(g['f'], g['how'], out=U[t] if tags[t] == 'T' else Function(R.T))
            ex[t], tags[t], err[t] = g['f'], 'T', 5 * EPS * size(g['f'])
        elif op == 'lin':
            a, b, c1, c2 = U[g['s']], U[g['s2']], fl(g['c1']), fl(g['c2'])
            e = abs(c1) * err[g['s']] + abs(c2) * err[g['s2']]
            r = terms_lin(ex[g['s']], g['c1'], ex[g['s2']], g['c2'])
            if g['style'] == 'new':
                w = c1 * a + c2 * b
            elif g['style'] == 'inplace':
                w = a.copy()
                w *= c1
                w += c2 * b
            else:
                w = Function(R.sp(g['tag']))
                w[:] = c1 * a.v + c2 * b.v
            if not isinstance(w, Function) or w.function_space() is None:
                R.bad('linear combination', '%s gives %s' % (what, type(w)))
                return
            U[t], ex[t], tags[t], err[t] = w, r, g['tag'], e
        elif op == 'expr':
            u = U[g['ps'][0]['u']]
            s = g['ps'][0]['u']
            amp = sum(abs(fl(p['c'])) * fd.amplification(axes, p['d']) * scale_of(axes, p['e']) for p in g['ps'])
            e = R.total(u, g['ps'], g['style'])
            w = project(e, R.O, output_array=Function(R.O)) if g['style'] == 'output' else project(e, R.O)
            U[t], ex[t], tags[t], err[t] = w, g['f'], 'O', amp * (err[s] + EPS * size(ex[s])) + EPS * size(g['f'])
            COUNT['expressions'] += 1
        elif op == 'up':
            s = g['s']
            u = U[s]
            w = u.to_ortho() if g['how'] == 'to_ortho' else project(u, R.O, use_to_ortho=g['how'] == 'project')
            if g['how'] == 'to_ortho':
                w2 = Function(R.O)
                w2[:] = w
                w = w2
            U[t], ex[t], tags[t], err[t] = w, ex[s], 'O', 50 * err[s]
            if w is u:
                R.bad('alias:up', what)
                U[t] = w.copy()
        elif op == 'down':
            s = g['s']
            w = project(U[s], R.T)
            U[t], ex[t], tags[t], err[t] = w, ex[s], 'T', 50 * err[s]
            if w is U[s]:
                U[t] = w.copy()
        elif op == 'again':
            s = g['s']
            u = U[s]
            S = R.sp(tags[s])
            if g['how'] == 'copy':
                w = u.copy()
            elif g['how'] == 'expr':
                w = project(Expr(u), S)
            elif g['how'] == 'kinds':
                w = S.forward(S.backward(u, kind='vandermonde').copy(), Function(S), kind='vandermonde')
            else:
                w = u.backward().forward()
            U[t], ex[t], tags[t], err[t] = w, ex[s], tags[s], 50 * err[s]
        elif op in ('eval', 'evalexpr'):
            pts = np.array([[fd.point(ax, x) for ax, x in zip(axes, p)] for p in g['pts']]).T
            val = np.array([complex(fl(v[0]), fl(v[1])) for v in g['vals']])
            if op == 'evalexpr':
                if dim > 3:
                    continue
                s = g['ps'][0]['u']
                amp = sum(abs(fl(p['c'])) * fd.amplification(axes, p['d']) * scale_of(axes, p['e']) for p in g['ps'])
                w = R.total(U[s], g['ps'], 'project').eval(pts if dim > 1 else pts[0])
                tol = amp * (err[s] + EPS * size(ex[s]))
                what = 'Expr.eval ' + what
            else:
                s = g['s']
                tol = err[s] + EPS * size(ex[s])
                S = R.sp(tags[s])
                how = g['how']
                P = pts if dim > 1 else pts[0]
                if dim > 3:
                    continue
                if how == 'call':
                    w = U[s](P)
                elif how == 'output':
                    w = np.full(pts.shape[1], 3., dtype=complex if cplx else float)
                    w2 = U[s].eval(P, output_array=w)
                    if w2 is not w:
                        R.agree('eval output', w, w2, 0, what)
                elif how == 'expr':
                    w = Expr(U[s]).eval(P)
                elif how[0] == 'm' and dim > 1:
                    w = S.eval(P, U[s], method=int(how[1]))
                else:
                    w = U[s].eval(P)
            R.agree(op + (':' + g['how'] if op == 'eval' else ''), w, val if cplx else val.real, tol, what)
            COUNT['points'] += len(val)
        elif op == 'mesh':
            s = g['s']
            S = R.sp(tags[s])
            kw = {}
            if g['mesh'] == 'uniform':
                kw['mesh'] = 'uniform'
            elif g['kind'] != 'default':
                kw['kind'] = g['kind'] if dim == 1 else {'chebyshev': g['kind'], 'legendre': g['kind'], 'chebyshevu': g['kind'], 'ultraspherical': g['kind'],
                                                         'fourier': 'vandermonde' if g['kind'] == 'vandermonde' else 'fast'}
                if dim == 1 and fd.isF(axes[0]) and g['kind'] == 'recursive':
                    kw = {}
            w = U[s].backward(**kw)
            R.agree('mesh:%s:%s' % (g['mesh'], g['kind']), w, R.exact(ex[s], S, g['mesh']), err[s] + EPS * size(ex[s]), what)
        elif op == 'int':
            s = g['s']
            v = complex(fl(g['v'][0]), fl(g['v'][1])) * fl(g['c']) * (2 * np.pi)**sum(fd.isF(a) for a in axes)
            S = R.sp(tags[s])
            vol = np.prod([float(b - a) for a, b in (fd.fdom(a) for a in axes)])
            c = fl(g['c'])
            arg = U[s] if g['how'] == 'function' else U[s].backward()
            w = inner(arg, c) if g['how'] == 'right' else inner(c, arg)
            R.agree('integral', w, v if cplx else v.real, abs(c) * vol * (err[s] + EPS * size(ex[s])), what)
        elif op == 'other':
            s = g['s']
            ax2 = [dict(a, k=k, bc='none', quad='' if not fd.isF(a) else a['quad']) for a, k in zip(axes, g['fams'])]
            W = fd.space(ax2, R.perm, cplx, comm=R.comm, **R.kw)
            w = project(U[s], W)
            ok = R.agree('other family', w.backward(), fd.values(axes, ex[s], R.mesh(W), cplx), 50 * (err[s] + EPS * size(ex[s])), what)
        if not check((op + (':' + str(g['how']) if 'how' in g and op != 'start' else ''), t), what):
            return


def scale_of(axes, e):
    a = 1.0
    for ax, k in zip(axes, e):
        if k:
            a *= max(1, abs(float(Fraction(ax['dom'][0]))), abs(float(Fraction(ax['dom'][1]))))**k
    return a


def terms_lin(f, c1, g, c2):
    c1, c2 = Fraction(c1), Fraction(c2)
    return [dict(t, re=str(c1 * Fraction(t['re'])), im=str(c1 * Fraction(t['im']))) for t in f] + \
        [dict(t, re=str(c2 * Fraction(t['re'])), im=str(c2 * Fraction(t['im']))) for t in g]
