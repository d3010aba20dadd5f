"""Replay Products behaviours: padded products, 2/3 rule, convolutions and Nyquist masks."""
from collections import Counter
from fractions import Fraction
import warnings
import numpy as np
from mpi4py import MPI
from shenfun import Function, Array, VectorSpace, TensorProductSpace, FunctionSpace, comm
from shenfun.tensorproductspace import Convolve
import fields as fd
from num import diff

warnings.simplefilter('ignore')
COUNT = Counter()
LABEL = {}
PARTIAL = []


def stats():
    return dict(COUNT)


def num(t):
    return complex(float(Fraction(t['re'])), float(Fraction(t['im'])))


class Run:
    def __init__(self, s0, F):
        self.F = F
        self.axes, self.perm, self.cplx, self.rank = s0['axes'], s0['perm'], s0['cplx'], s0['rank']
        self.dim = len(self.axes)
        self.T = fd.space(self.axes, self.perm, self.cplx)
        self.V = VectorSpace(self.T) if self.rank else self.T
        self.desc = '%s axes=%s rank %d' % ('x'.join('%s%d' % (a['k'], a['n']) for a in self.axes), tuple(p - 1 for p in self.perm), self.rank)
        self.sig = ''.join(sorted('B' if not fd.isF(a) else a['k'] for a in self.axes)) + (':v' if self.rank else '')

    def bad(self, key, what):
        self.F.append(dict(key='%s:%s' % (key, self.sig), what='%s: %s' % (self.desc, what)))

    def parts(self, u):
        return [u[i] for i in range(self.dim)] if self.rank else [u]

    def dense(self, coef, z):
        a = np.zeros([n // 2 + 1 if x['k'] == 'R' else n for x, n in zip(self.axes, z)], dtype=complex)
        for t in coef:
            a[tuple(t['m'])] += num(t)
        return a

    def local(self, a, space=None):
        return a if self.dim == 1 else a[(space or self.T).local_slice(True)]

    def fill(self, u, coef):
        z = [a['n'] for a in self.axes]
        for p, c in zip(self.parts(u), coef):
            a = self.local(self.dense(c, z))
            p[:] = a if np.iscomplexobj(p) else a.real

    def check(self, key, u, coef, what, top=None, scale=1.0, space=None, z=None):
        COUNT['coefficients'] += 1
        z = z or [a['n'] for a in self.axes]
        for c, (p, f) in enumerate(zip(self.parts(u) if space is None else [u], coef)):
            e = self.dense(f, z)
            keep = np.ones(e.shape, dtype=bool)
            if top:
                for i, n in enumerate(top[c]):
                    if not fd.isF(self.axes[i]):
                        s = [slice(None)] * self.dim
                        s[i] = slice(max(n, 0), None)
                        keep[tuple(s)] = False
            e, keep = self.local(e, space), self.local(keep, space)
            g = np.asarray(p)
            ok = g.shape == e.shape and (not keep.any() or (np.all(np.isfinite(g[keep])) and np.abs(g - e)[keep].max() < 1e-11 * scale))
            if not comm.allreduce(bool(ok), op=MPI.LAND):
                self.bad(key, '%s, component %d: %s' % (what, c, diff(np.where(keep, g, 0), np.where(keep, e, 0)) if g.shape == e.shape else 'shape %s, want %s' % (g.shape, e.shape)))
                return False
        return True

    def built(self, pf, direct):
        """The padded space from bases made with padding."""
        B = []
        for i, a in enumerate(self.axes):
            kw = dict(padding_factor=pf[i], dealias_direct=direct)
            if fd.isF(a):
                B.append(FunctionSpace(a['n'], 'F', dtype='d' if a['k'] == 'R' else 'D', domain=fd.fdom(a), **kw))
            else:
                if a['quad']:
                    kw['quad'] = a['quad']
                B.append(FunctionSpace(a['n'], a['k'], domain=fd.fdom(a), **kw))
        if self.dim == 1:
            return B[0]
        T = TensorProductSpace(comm, B, axes=tuple(p - 1 for p in self.perm), dtype=complex if self.cplx else float)
        return VectorSpace(T) if self.rank else T

    def derived(self, pf, direct, form=tuple):
        if direct:
            return self.V.get_dealiased(1, dealias_direct=True)
        if len(set(pf)) == 1 and (self.dim == 1 or form is list):
            return self.V.get_dealiased(pf[0])
        return self.V.get_dealiased(form(pf))

    def product(self, how, a, b, pf, direct):
        if how == 'function' and not direct:
            q = pf[0] if len(set(pf)) == 1 else tuple(pf)
            ua = np.array(a.backward(padding_factor=q))
            ub = np.array(b.backward(padding_factor=q))
            Tp = a.get_dealiased_space(q)
            w = Array(Tp)
            w[:] = ua * ub
            return Tp.forward(w, Function(self.V))
        if how == 'built' and comm.size == 1:
            Tp = self.built(pf, direct)
        else:
            Tp = self.derived(pf, direct, list if how == 'convolve' else tuple)
        if how == 'convolve' and (self.dim > 1 or (fd.isF(self.axes[0]) and pf[0] > 1)):
            c = Function(self.V)
            if self.dim > 1:
                return Tp.convolve(a, b, c)
            return Tp.convolve(a, b, c, fast=True)
        ua = Tp.backward(a, Array(Tp))
        ub = Tp.backward(b, Array(Tp))
        return Tp.forward(ua * ub, Function(self.V))


def run(rec):
    F = PARTIAL
    del F[:]
    s0 = rec['steps'][0]
    R = Run(s0, F)
    U, coef = {}, {}
    for i, c in enumerate(s0['reg'], 1):
        U[i] = Function(R.V)
        R.fill(U[i], c)
        coef[i] = c
    size = lambda c: sum(abs(num(t)) for x in c for t in x)
    for g in rec['steps'][1:]:
        op = g['op']
        if op == 'none':
            continue
        LABEL['at'] = what = '%s %s' % (op, {k: g[k] for k in ('how', 'pf', 'a', 'b') if k in g})
        COUNT[op] += 1
        if op == 'set':
            R.fill(U[g['t']], g['coef'])
            coef[g['t']] = g['coef']
        elif op in ('multiply', 'direct'):
            pf = [float(Fraction(p)) for p in g['pf']]
            w = R.product(g['how'], U[g['a']], U[g['b']], pf, op == 'direct')
            scale = 1 + size(coef[g['a']]) * size(coef[g['b']])
            ok = R.check(op + ':' + g['how'], w, g['coef'], what, g['top'], scale)
            if not ok:
                break
            if g['t']:
                coef[g['t']] = g['coef']
                R.fill(U[g['t']], g['coef'])
        elif op == 'convolve':
            pf = [float(Fraction(p)) for p in g['pf']]
            Tp = R.derived(pf, False)
            C = Convolve(Tp)
            w = C(U[g['a']], U[g['b']])
            R.check('convolve', w, g['coef'], what, None, 1 + size(coef[g['a']]) * size(coef[g['b']]), C.newspace, g['M'])
        elif op == 'sums':
            a, b = U[g['a']], U[g['b']]
            n = s0['axes'][0]['n']
            real = s0['axes'][0]['k'] == 'R'
            e = np.zeros(n + 1 if real else 2 * n, dtype=complex)
            for t in g['terms']:
                if real and t['m'][0] >= 0:
                    e[t['m'][0]] += num(t)
                elif not real:
                    e[t['m'][0] % (2 * n)] += num(t)
            out = np.full(e.shape, 7.0 + 1j) if g['out'] else None
            w = R.T.convolve(np.array(a), np.array(b), out, fast=False)
            if w.shape != e.shape or np.abs(w - e).max() > 1e-12 * (1 + size(coef[g['a']]) * size(coef[g['b']])):
                R.bad('sums' + (':out' if g['out'] else ''), '%s: %s' % (what, diff(w, e)))
        elif op == 'mask':
            u = U[g['a']]
            if g['given']:
                w = R.V.mask_nyquist(u, R.V.get_mask_nyquist()) if R.dim > 1 else R.T.mask_nyquist(u, R.T.get_mask_nyquist(bcast=False) if fd.isF(s0['axes'][0]) else None) if fd.isF(s0['axes'][0]) else u
            else:
                w = R.V.mask_nyquist(u) if R.dim > 1 or fd.isF(s0['axes'][0]) else u
            R.check('mask', w, g['coef'], what)
            R.fill(u, g['coef'])
            coef[g['a']] = g['coef']
        for k in U:
            if not R.check('other register after ' + op, U[k], coef[k], '%s, register %d' % (what, k)):
                return list(F)
        if len(F) > 12:
            break
    return list(F)
