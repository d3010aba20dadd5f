"""Replay Resizing behaviours on Function.refine and Function.assign."""
from collections import Counter
from fractions import Fraction
import warnings
import numpy as np
import sympy as sp
from mpi4py import MPI
from shenfun import Function, VectorSpace, TensorSpace, comm
import fields as fd
from num import diff

warnings.simplefilter('ignore')
COUNT = Counter()
LABEL = {}
PARTIAL = []


def stats():
    return dict(COUNT)


def sized(axes, z):
    return [dict(a, n=n) for a, n in zip(axes, z)]


class Run:
    def __init__(self, s0, F):
        self.s0, self.F = s0, F
        self.axes, self.perm, self.cplx, self.rank = s0['axes'], s0['perm'], s0['cplx'], s0['rank']
        self.dim = len(self.axes)
        zero = [dict(k=0, p=[])] * self.dim
        inh = [i for i, a in enumerate(self.axes) if a['bc'] == 'DI']
        self.lift = dict(left=[], right=[])
        if inh:
            one = [dict(k=0, p=['1']) for _ in self.axes]
            self.lift = dict(left=[dict(re='3/2', im='0', fac=one)], right=[dict(re='-1/2', im='0', fac=one)])
        self.desc = '%s axes=%s rank %d' % ('x'.join('%s%s%s' % (a['k'], '' if a['bc'] == 'none' else a['bc'], a['quad']) for a in self.axes),
                                            tuple(p - 1 for p in self.perm), self.rank)
        self.sig = ''.join(sorted('B' if not fd.isF(a) else a['k'] for a in self.axes)) + ('' if not self.rank else ':rank%d' % self.rank)
        self.spaces = {}

    def bad(self, key, what):
        self.F.append(dict(key='%s:%s' % (key, self.sig), what='%s: %s' % (self.desc, what)))

    def space(self, z):
        z = tuple(z)
        if z not in self.spaces:
            T = fd.space(sized(self.axes, z), self.perm, self.cplx, self.lift)
            if self.rank == 1:
                T = VectorSpace(T)
            elif self.rank == 2:
                T = TensorSpace(T)
            self.spaces[z] = T
        return self.spaces[z]

    def parts(self, u):
        if self.rank == 0:
            return [u]
        if self.rank == 1:
            return [u[i] for i in range(self.dim)]
        return [u[i][j] for i in range(self.dim) for j in range(self.dim)]

    def shape(self, z):
        return [n // 2 + 1 if a['k'] == 'R' else n for a, n in zip(self.axes, z)]

    def dense(self, coef, z):
        """Global coefficient array (without boundary values)."""
        a = np.zeros(self.shape(z), dtype=complex)
        for t in coef:
            a[tuple(t['m'])] += complex(float(Fraction(t['re'])), float(Fraction(t['im'])))
        return a

    def local(self, u, a):
        T = u.function_space()
        if self.dim == 1:
            return a
        return a[T.local_slice(True)]

    def fill(self, u, coef, z):
        for p, c in zip(self.parts(u), coef):
            T = p.function_space()
            keep = self.bnd(p)
            a = self.local(p, self.dense(c, z))
            p[keep] = (a if np.iscomplexobj(p) else a.real)[keep]

    def bnd(self, p):
        """True at the places of the array that are not boundary values."""
        keep = np.ones(p.shape, dtype=bool)
        T = p.function_space()
        N = self.shape([b.N for b in (T.bases if self.dim > 1 else [T])])
        g = np.ones(N, dtype=bool)
        for i, nb in enumerate(self.s0['nb']):
            if nb:
                s = [slice(None)] * self.dim
                s[i] = slice(-nb, None)
                g[tuple(s)] = False
        return self.local(p, g)

    def check(self, key, u, coef, z, what):
        COUNT['coefficients'] += 1
        for c, (p, f) in enumerate(zip(self.parts(u), coef)):
            keep = self.bnd(p)
            exp = self.local(p, self.dense(f, z))
            ok = p.shape == exp.shape
            if ok:
                got = np.asarray(p)
                d = np.abs(got - exp)[keep]
                ok = d.size == 0 or d.max() < 1e-13 * 20
            if not comm.allreduce(bool(ok), op=MPI.LAND):
                self.bad(key, '%s, component %d: %s' % (what, c, diff(np.where(keep, np.asarray(p), 0), np.where(keep, exp, 0)) if p.shape == exp.shape else 'shape %s' % (p.shape,)))
                return False
        return True

    def points(self, u):
        pts = self.s0['pts']
        X = np.array([[fd.point(a, p[i]) for p in pts] for i, a in enumerate(self.axes)])
        if self.dim == 1:
            X = X[0]
        return [np.array(p.eval(X)) for p in self.parts(u)]


def run(rec):
    F = PARTIAL
    del F[:]
    s0 = rec['steps'][0]
    R = Run(s0, F)
    Z = [tuple(z) for z in s0['size']]
    at = {i + 1: Z[z - 1] for i, z in enumerate(s0['at'])}
    U, coef = {}, {}
    for i, c in enumerate(s0['reg'], 1):
        U[i] = Function(R.space(at[i]))
        U[i].set_boundary_dofs() if hasattr(U[i], 'set_boundary_dofs') else None
        R.fill(U[i], c, at[i])
        coef[i] = c
    for g in rec['steps'][1:]:
        op = g['op']
        what = '%s %s' % (op, {k: v for k, v in g.items() if k in ('how', 's', 't')})
        LABEL['at'] = '%s %s' % (R.desc, what)
        if op == 'set':
            R.fill(U[g['t']], g['coef'], at[g['t']])
            coef[g['t']] = g['coef']
            continue
        u = U[g['s']]
        za = at[g['s']]
        if op == 'bounce':
            zb = tuple(g['up'])
            COUNT['bounce'] += 1
            before = R.points(u)
            v = u.refine(zb if R.dim > 1 else zb[0])
            what = '%s -> %s -> %s' % (za, zb, za)
            if not R.check('up', v, g['mid'], zb, what):
                break
            after = R.points(v)
            if g['same'] and not values(R, 'up', before, after, what):
                break
            w = v.refine(za if R.dim > 1 else za[0])
            if not R.check('up and down', w, g['coef'], za, what):
                break
            if g['same'] and not values(R, 'up and down', before, R.points(w), what):
                break
        else:
            z = Z[g['z'] - 1]
            what = '%s %s -> %s' % (what, za, z)
            before = R.points(u) if g['same'] else None
            COUNT[op] += 1
            if op == 'assign':
                v = U[g['t']]
                u.assign(v)
            else:
                n = z if R.dim > 1 else z[0]
                if g['how'] == 'new' and R.dim > 1:
                    n = list(n)
                elif g['how'] == 'array' and R.dim > 1:
                    n = np.array(n)
                if g['how'] == 'output':
                    out = Function(R.space(z))
                    v = u.refine(n, output_array=out)
                    if v is not out:
                        R.bad('refine', 'does not return the output array')
                else:
                    v = u.refine(n)
            got = tuple(b.N for b in (lambda T: T.bases if R.dim > 1 else [T])(R.parts(v)[0].function_space()))
            if got != z:
                R.bad('size', '%s gives size %s' % (what, got))
                break
            if not R.check(op, v, g['coef'], z, what):
                break
            if before is not None and not values(R, op, before, R.points(v), what):
                break
            U[g['t']], at[g['t']], coef[g['t']] = v, z, g['coef']
        for k in U:
            if not R.check('other register after ' + op if k != g.get('t') else op, U[k], coef[k], at[k], '%s, register %d' % (what, k)):
                return list(F)
    return list(F)


def values(R, key, a, b, what):
    COUNT['values'] += 1
    for x, y in zip(a, b):
        s = 1 + np.abs(x).max()
        if not (np.all(np.isfinite(y)) and np.abs(x - y).max() < 1e-10 * s):
            R.bad(key + ':values', '%s: %s' % (what, diff(y, x)))
            return False
    return True
