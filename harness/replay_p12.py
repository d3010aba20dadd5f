"""Replay TimeStepping behaviours on the integrators of the library."""
from collections import Counter
from fractions import Fraction
import warnings
import numpy as np
from mpi4py import MPI
from shenfun import FunctionSpace, TensorProductSpace, VectorSpace, Function, Array, TestFunction, TrialFunction, \
    Dx, div, grad, inner, BlockMatrix, Expr, comm
from shenfun.utilities import integrators as ig

warnings.simplefilter('ignore')
COUNT = Counter()
LABEL = {}
PARTIAL = []
TIMED = ('IRK3', 'BackwardEuler')


def stats():
    return dict(COUNT)


def fl(r):
    return float(Fraction(r))


def cx(c):
    return complex(fl(c[0]), fl(c[1]))


class Run:
    def __init__(self, s0, F):
        self.F, self.scheme, p = F, s0['scheme'], s0['prob']
        self.p = p
        self.imex = self.scheme.startswith('IMEX')
        n, nB = p['n'], p['nB']
        nF = len(n)
        self.pos = p['pos'] - 1 if nB else None
        fax = [i for i in range(nF + (1 if nB else 0)) if i != self.pos]
        dim = nF + (1 if nB else 0)
        self.dim, self.fax = dim, fax
        bases = [None] * dim
        for j, i in enumerate(fax):
            bases[i] = FunctionSpace(n[j], 'F', dtype='d' if p['real'] and j == nF - 1 else 'D')
        if nB:
            bases[self.pos] = FunctionSpace(nB, 'L', bc=(0, 0), quad='LG')
        if dim == 1:
            self.S = bases[0]
        else:
            ax = [i for i in range(dim) if i != fax[-1]] + [fax[-1]]
            if self.pos is not None:
                ax = [self.pos] + [i for i in ax if i != self.pos]
            self.S = TensorProductSpace(comm, bases, axes=tuple(ax), dtype=float if p['real'] or not nF else complex)
        self.T = VectorSpace(self.S) if p['nc'] > 1 else self.S
        self.desc = '%s on %s n=%s nB=%s pos=%s %s, L=(%s)u+(%s)lap u+(%s)u_1+(%s)u_111 as %s, N=(%s)u+(%s)u^2+f' % (
            self.scheme, p['kind'], n, nB, self.pos, 'real' if p['real'] else 'complex', p['c'], p['nu'], p['a'], p['e'], p['form'], p['s'], p['q'])
        self.f = self.dense([b['f'] for b in p['blocks']])
        self.g = self.dense([b['g'] for b in p['blocks']])
        self.s, self.q = fl(p['s']), fl(p['q'])
        self.calls = []
        self.tag = object()
        self.M = None
        if nB and not self.imex:
            m = inner(TestFunction(self.T), TrialFunction(self.T))
            self.M = m if dim == 1 else BlockMatrix(m if isinstance(m, list) else [m])
        self.u = Array(self.T)
        self.uh = Function(self.T)

    def bad(self, key, what):
        self.F.append(dict(key='%s:%s:%s' % (key, self.scheme, self.p['kind']), what='%s: %s' % (self.desc, what)))

    def dense(self, x):
        """Local coefficient array with the given values on the blocks."""
        p, S = self.p, self.S
        shape = [0] * self.dim
        for j, i in enumerate(self.fax):
            shape[i] = p['n'][j] // 2 + 1 if p['real'] and j == len(p['n']) - 1 else p['n'][j]
        if p['nB']:
            shape[self.pos] = p['nB']
        out = np.zeros([p['nc']] + shape, dtype=complex)
        for b, v in zip(p['blocks'], x):
            idx = [None] * self.dim
            for j, i in enumerate(self.fax):
                idx[i] = b['k'][j] % p['n'][j]
            if p['nB']:
                idx[self.pos] = slice(0, p['nB'] - 2)
            val = [cx(c) for c in v]
            out[(b['comp'] - 1,) + tuple(idx)] = val if p['nB'] else val[0]
        if self.dim > 1:
            out = out[(slice(None),) + tuple(S.local_slice(True))]
        return out if p['nc'] > 1 else out[0]

    def fill(self, x):
        d = self.dense(x)
        self.uh[:] = d if np.iscomplexobj(self.uh) else d.real

    # what the user supplies
    def lap(self, u):
        return Dx(u, 0, 2) if self.dim == 1 else div(grad(u))

    def linear(self, u):
        p = self.p
        e = None
        for c, term in ((fl(p['c']), lambda: u), (fl(p['nu']), lambda: self.lap(u)),
                        (fl(p['a']), lambda: Dx(u, self.fax[0], 1)), (fl(p['e']), lambda: Dx(u, self.fax[0], 3))):
            if c:
                e = c * term() if e is None else e + c * term()
        return e

    def lam(self):
        p = self.p
        if self.dim == 1:
            K = [self.S.wavenumbers()]
        else:
            K = self.S.local_wavenumbers(True)
        k2 = sum(np.asarray(k, dtype=float)**2 for k in K)
        k1 = np.asarray(K[self.fax[0]], dtype=float)
        im = fl(p['a']) * k1 - fl(p['e']) * k1**3
        L = fl(p['c']) - fl(p['nu']) * k2
        return L + 1j * im if fl(p['a']) or fl(p['e']) else L

    def nonlinear(self, uh, t):
        uh = np.asarray(uh)
        w = self.s * uh + self.q * uh * uh + (self.f if np.iscomplexobj(uh) else self.f.real)
        if self.scheme in TIMED:
            w = w + t * (self.g if np.iscomplexobj(uh) else self.g.real)
        return w

    def integrator(self, dt=None):
        p, R = self.p, self
        if self.imex:
            u = self.uh
            self.H = Function(self.T)
            L = (lambda f: 0 * f) if p['zero'] else self.linear
            N = self.H
            self.split = self.s != 0 and p['form'] == 'expr'
            if self.split:
                N = [self.s * Expr(u), self.H]
            return_ = getattr(ig, self.scheme)(TestFunction(self.T), u, L, N, dt)
            return_.assemble()
            return return_

        def NonlinearRHS(self, u, u_hat, rhs, **par):
            R.params.append(par)
            w = R.nonlinear(u_hat, par.get('ti', 0))
            if R.M is None:
                rhs[:] = w
            else:
                W = Function(R.T)
                W[:] = w
                rhs = R.M.matvec(W, rhs)
            return rhs

        def update(self, u, u_hat, t, tstep, **par):
            R.params.append(par)
            R.calls.append((t, tstep, np.array(u_hat), u is R.u, u_hat is R.uh))

        kw = {}
        if not p['zero']:
            if self.scheme in TIMED:
                kw['L'] = lambda self, u: R.linear(u)
            elif p['form'] == 'array' and p['nc'] == 1:
                kw['L'] = lambda self, u, **par: R.lam()
            else:
                kw['L'] = lambda self, u, **par: R.linear(u)
        return getattr(ig, self.scheme)(self.T, N=NonlinearRHS, update=update, tag=self.tag, alpha=0.25, **kw)

    def close(self, got, exp):
        if not np.iscomplexobj(got):
            exp = exp.real
        s = max(1.0, np.abs(exp).max() if exp.size else 0)
        d = np.abs(got - exp)
        return d.size == 0 or (np.isfinite(d).all() and d.max() < 2e-11 * s)

    def allok(self, ok):
        return comm.allreduce(bool(ok), op=MPI.LAND)

    def same(self, key, got, x, what):
        COUNT['states'] += 1
        exp = self.dense(x)
        if not self.allok(self.close(np.asarray(got), exp)):
            e = exp if np.iscomplexobj(got) else exp.real
            i = np.unravel_index(np.argmax(np.abs(np.asarray(got) - e)), e.shape) if e.size else ()
            self.bad(key, '%s: at %s got %s, scheme gives %s' % (what, i, np.asarray(got)[i] if e.size else '', e[i] if e.size else ''))
            return False
        return True


def run(rec):
    F = PARTIAL
    del F[:]
    s0 = rec['steps'][0]
    R = Run(s0, F)
    R.fill(s0['x'])
    integ, idt = None, None
    for g in rec['steps'][1:]:
        LABEL['at'] = '%s %s' % (R.desc, g['op'])
        if g['op'] == 'resume':
            integ = None
            continue
        if g['op'] == 'none':
            continue
        dt, t0, t1 = fl(g['dt']), fl(g['t0']), fl(g['t1'])
        what = 'dt=%s interval (%s, %s)' % (g['dt'], g['t0'], g['t1'])
        COUNT['calls'] += 1
        if R.imex:
            if integ is None or idt != dt:
                integ, idt = R.integrator(dt), dt
            for c in g['calls']:
                for rk in range(integ.steps()):
                    w = R.nonlinear(R.uh, 0)
                    R.H[:] = w - R.s * np.asarray(R.uh) if R.split else w
                    integ.compute_rhs(rk)
                    integ.solve_step(rk)
                if not R.same('iterates', R.uh, c['x'], '%s, step %d' % (what, c['n'])):
                    return F
            continue
        if integ is None:
            integ = R.integrator()
        R.calls, R.params = [], []
        r = integ.solve(R.u, R.uh, dt, (t0, t1))
        if len(R.calls) != len(g['calls']):
            R.bad('count', '%s: %d call-backs for %d steps' % (what, len(R.calls), len(g['calls'])))
            return F
        for c, (t, n, x, isu, isuh) in zip(g['calls'], R.calls):
            if n != c['n'] or abs(t - fl(c['t'])) > 1e-9 * max(1, abs(t)):
                R.bad('callback', '%s: call-back with t=%s, step %s instead of t=%s, step %s' % (what, t, n, c['t'], c['n']))
            if not isu or not isuh:
                R.bad('callback', '%s: call-back gets other arrays than the ones passed to solve' % what)
            if not R.same('iterates', x, c['x'], '%s, step %d' % (what, n)):
                return F
        if any(p.get('tag') is not R.tag or p.get('alpha') != 0.25 or p.get('dt') != dt for p in R.params):
            R.bad('params', '%s: parameters not passed through' % what)
        x = g['calls'][-1]['x'] if g['calls'] else None
        if x is not None:
            R.same('returned', r, x, what + ', returned')
            R.same('returned', R.uh, x, what + ', in place')
        if F:
            return F
    return F
