"""Replay Components behaviours: functions on composite spaces, views of components, and block matrices."""
from collections import Counter
from fractions import Fraction
import warnings
import numpy as np
from mpi4py import MPI
from shenfun import (Function, Array, VectorSpace, TensorSpace, CompositeSpace, MixedFunctionSpace, TestFunction, TrialFunction, BlockMatrix,
                     inner, Dx, div, grad, comm)
import fields as fd
from num import diff

warnings.simplefilter('ignore')
COUNT = Counter()
LABEL = {}
PARTIAL = []


def stats():
    return dict(COUNT)


def num(c):
    return float(Fraction(c))


class Run:
    def __init__(self, s0, F):
        self.F = F
        self.axes, self.perm, self.cplx = s0['axes'], s0['perm'], s0['cplx']
        self.dim, self.tree = len(self.axes), s0['tree']
        self.bcs = s0['bcs']
        self.leaf, self.nodes = [], 0
        self.Q = self.make(self.tree)
        self.nl = len(self.leaf)
        self.cls = Function if s0['out'] else Array
        self.out = s0['out']
        self.cache = {}
        self.desc = '%s axes=%s tree %s %s' % ('x'.join('%s%d' % (a['k'], a['n']) for a in self.axes), tuple(p - 1 for p in self.perm), self.show(self.tree), self.bcs[:self.nodes])
        self.sig = ''.join(sorted('B' if not fd.isF(a) else a['k'] for a in self.axes)) + ':' + self.tree['k']

    def show(self, t):
        return t['k'] if t['k'] != 'M' else '[%s]' % ','.join(self.show(c) for c in t['c'])

    def scalar(self):
        bc = self.bcs[self.nodes % len(self.bcs)]
        self.nodes += 1
        axes = [dict(a, bc='none' if fd.isF(a) else bc) for a in self.axes]
        return lambda: fd.space(axes, self.perm, self.cplx)

    def make(self, t):
        k = t['k']
        if k == 'M':
            return (MixedFunctionSpace if self.dim == 1 else CompositeSpace)([self.make(c) for c in t['c']])
        mk = self.scalar()
        S, ref = mk(), mk()
        self.leaf += [ref] * {'S': 1, 'V': self.dim, 'T': self.dim ** 2}[k]
        return S if k == 'S' else VectorSpace(S) if k == 'V' else TensorSpace(S)

    def bad(self, key, what):
        self.F.append(dict(key='%s:%s' % (key, self.sig), what='%s: %s' % (self.desc, what)))

    def shape(self, l, out=None):
        S = self.leaf[l]
        T = S.forward.output_array if (self.out if out is None else out) else S.forward.input_array
        return T.shape, T.dtype

    def atom(self, a, l):
        if (a, l) not in self.cache:
            sh, dt = self.shape(l)
            g = np.random.default_rng([a, l, comm.Get_rank()])
            v = g.integers(-4, 5, size=sh).astype(float)
            if np.dtype(dt).char in 'FDG':
                v = v + 1j * g.integers(-4, 5, size=sh)
            self.cache[(a, l)] = v.astype(dt)
        return self.cache[(a, l)]

    def lin(self, f, l):
        sh, dt = self.shape(l)
        v = np.zeros(sh, dtype=dt)
        for t in f:
            a, leaf = t['m']
            v = v + num(t['c']) * self.atom(a, leaf - 1)
        return v

    def leaves(self, node):
        return 1 if node['k'] == 'S' else sum(self.leaves(c) for c in node['c'])

    def offset(self, path):
        t, o = self.tree, 0
        for i in path:
            o += sum(self.leaves(c) for c in t['c'][:i - 1])
            t = t['c'][i - 1]
        return o, self.leaves(t), t

    @staticmethod
    def pick(u, idx):
        for i in idx:
            u = u[int(i)]
        return u

    def stack(self, parts, scalar):
        return parts[0] if scalar else np.array(parts)

    def check(self, u, reg, what):
        for r, (v, g) in enumerate(zip(u, reg)):
            for l, f in enumerate(g):
                COUNT['components'] += 1
                e = self.lin(f, l)
                x = np.asarray(v.__array__())[l]
                ok = x.shape == e.shape and np.array_equal(x, e)
                if not comm.allreduce(bool(ok), op=MPI.LAND):
                    self.bad('value', '%s: leaf %d of function %d: %s' % (what, l, r, diff(x, e)))
                    return False
        return True

    # ---- expressions of components
    def expr(self, u, path):
        for i in path:
            u = u[i - 1]
        return u

    def op(self, v, u, kind):
        d = self.dim
        return {'mass': lambda: inner(v, u), 'd0': lambda: inner(v, Dx(u, 0, 1)), 'd1': lambda: inner(v, Dx(u, d - 1, 1)),
                'd0d0': lambda: inner(Dx(v, 0, 1), Dx(u, 0, 1)), 'lap': lambda: inner(v, div(grad(u)))}[kind]()

    def form(self, d):
        v, u = TestFunction(self.Q), TrialFunction(self.Q)
        A = self.op(self.expr(v, d['p']), self.expr(u, d['q']) * num(d['c']), d['k'])
        return list(A) if isinstance(A, (list, tuple)) else [A]

    def refop(self, i, j, kind):
        key = ('op', id(self.leaf[i]), id(self.leaf[j]), kind)
        if key not in self.cache:
            A = self.op(TestFunction(self.leaf[i]), TrialFunction(self.leaf[j]), kind)
            self.cache[key] = A if isinstance(A, (list, tuple)) else [A]
        return self.cache[key]

    def product(self, blk, x):
        """Product of the block matrix with the components x, from operators of the scalar spaces."""
        y = []
        for i in range(self.nl):
            S = self.leaf[i]
            w = np.zeros(self.shape(i, True)[0], dtype=self.shape(i, True)[1])
            for j in range(self.nl):
                for t in blk[i][j]:
                    for m in self.refop(i, j, t['m'][0]):
                        v, c = Function(self.leaf[j]), Function(S)
                        v[:] = x[j]
                        w = w + num(t['c']) * np.asarray(m.matvec(v, c))
            y.append(w)
        return y

    def inside(self, l):
        S = self.leaf[l]
        m = np.zeros(self.shape(l, True)[0], dtype=bool)
        sl = S.slice()
        if self.dim == 1:
            m[sl] = True
            return m
        ls = S.local_slice(True)
        s = tuple(slice(max(a.start or 0, b.start) - b.start, min(a.stop, b.stop) - b.start) if isinstance(a, slice) else a for a, b in zip(sl, ls))
        m[s] = True
        return m


def near(a, b, scale, mask=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if mask is not None:
        a, b = a[mask], b[mask]
    return a.size == 0 or bool(np.all(np.isfinite(a)) and np.abs(a - b).max() <= 1e-10 * max(1.0, scale))


def whole(R, s, reg):
    path = s['sel']['path']
    o, n, node = R.offset(path)
    what = s['what']
    if node['k'] == 'M' and what in ('ortho', 'padded', 'eval'):
        what = 'forward'
    if R.dim == 1 and what == 'mask':
        what = 'backward'
    if node['k'] != 'S' and what == 'eval':
        what = 'scalar'
    COUNT['whole operations'] += 1
    # contents of the components, inside the spaces
    W = []
    for l in range(R.nl):
        S = R.leaf[l]
        if R.out:
            f = Function(S)
            f[:] = R.lin(reg[l], l)
            w = S.forward(S.backward(f, Array(S)), Function(S))
        else:
            w = Array(S)
            w[:] = R.lin(reg[l], l)
        W.append(np.array(w.__array__()))
    u = R.cls(R.Q)
    for l in range(R.nl):
        u.v[l] = W[l]
    x = R.pick(u, s['sel']['neg'])
    T = x.function_space()
    one = node['k'] == 'S'

    def each(f):
        res = []
        for l in range(o, o + n):
            w = R.cls(R.leaf[l])
            w[:] = W[l]
            res.append(np.asarray(f(w, R.leaf[l])))
        return res
    if R.out:
        if what == 'backward':
            got, want = x.backward(), each(lambda w, S: w.backward())
        elif what in ('forward', 'eval') and not (what == 'eval' and one):
            got, want = x.backward().forward(), each(lambda w, S: w.backward().forward())
        elif what == 'scalar':
            got = T.scalar_product(x.backward(), Function(T))
            want = each(lambda w, S: S.scalar_product(w.backward(), Function(S)))
        elif what == 'mask':
            x.mask_nyquist()
            got = x

            def f(w, S):
                w.mask_nyquist()
                return w
            want = each(f)
        elif what == 'ortho':
            got, want = x.to_ortho(), each(lambda w, S: w.to_ortho())
        elif what == 'padded':
            got, want = x.backward(padding_factor=1.5), each(lambda w, S: w.backward(padding_factor=1.5))
        else:
            p = np.array([[(0.3 + 0.1 * i) if not fd.isF(a) else fd.point(a, Fraction(1, 3)) for i in range(2)] for a in R.axes])
            for i, a in enumerate(R.axes):
                if not fd.isF(a):
                    lo, hi = (float(v) for v in fd.fdom(a))
                    p[i] = lo + (hi - lo) * p[i]
            p = p[0] if R.dim == 1 else p
            got, want = x.eval(p), each(lambda w, S: w.eval(p))
    else:
        if what in ('backward', 'forward', 'padded', 'eval'):
            got, want = x.forward(), each(lambda w, S: w.forward())
        elif what == 'scalar':
            got, want = T.scalar_product(x, Function(T)), each(lambda w, S: S.scalar_product(w, Function(S)))
        else:
            got, want = x.forward().backward(), each(lambda w, S: w.forward().backward())
    got = np.asarray(got)
    want = np.asarray(want[0] if one else np.array(want))
    ok = near(got, want, np.abs(want).max() if want.size else 1)
    if not comm.allreduce(ok, op=MPI.LAND):
        R.bad('whole:' + what, '%s of component %s (%s): %s' % (what, s['sel']['neg'], 'Function' if R.out else 'Array', diff(got, want) if got.shape == want.shape else 'shape %s, want %s' % (got.shape, want.shape)))
    for l in range(R.nl):  # nothing else has changed
        if what == 'mask' and R.out and o <= l < o + n:
            continue
        if not comm.allreduce(bool(np.array_equal(u.v[l], W[l])), op=MPI.LAND):
            R.bad('whole:changes', '%s of component %s changes leaf %d' % (what, s['sel']['neg'], l))
            return


def apply(R, s, reg, A):
    blk = s['blk']
    COUNT['products'] += 1
    x = []
    for l in range(R.nl):
        f = Function(R.leaf[l])
        if R.out:
            f[:] = np.where(R.inside(l), R.lin(reg[l], l), 0)
        else:
            a = Array(R.leaf[l])
            a[:] = R.lin(reg[l], l)
            f = a.forward(f)
        x.append(np.asarray(f) * R.inside(l))
    u = Function(R.Q)
    for l in range(R.nl):
        u.v[l] = x[l]
    full = all(any(blk[i][j] for j in range(R.nl)) for i in range(R.nl)) and all(any(blk[i][j] for i in range(R.nl)) for j in range(R.nl))
    want = R.product(blk, x)
    scale = max([float(np.abs(w).max()) for w in want if w.size] + [1.0])
    ways = [('matvec', dict(use_scipy=False))]
    if s['scipy'] and full and comm.Get_size() == 1:
        ways.append(('scipy', dict(use_scipy=True)))
    elif not R.out:
        ways.append(('default', {}))
    for name, kw in ways:
        COUNT[name] += 1
        c = Function(R.Q)
        c.v[:] = 3
        c = A.matvec(u, c, **kw)
        for l in range(R.nl):
            if not comm.allreduce(near(c.v[l], want[l], scale, R.inside(l)), op=MPI.LAND):
                m = R.inside(l)
                R.bad('product:' + name, 'product %s, leaf %d: %s' % (kw, l, diff(np.where(m, c.v[l], 0), np.where(m, want[l], 0))))
                return
            if not comm.allreduce(bool(np.array_equal(u.v[l], x[l])), op=MPI.LAND):
                R.bad('product:changes', 'the product %s changes its argument' % kw)
                return
    if s['solve'] and full and comm.Get_size() == 1:
        keys = [(0,)]
        daxes = A.get_diagonal_axes()
        if 0 < len(daxes) < R.dim:
            keys = list(np.ndindex(tuple(np.array(u.shape[1:])[daxes])))
        worst = 1.0
        size = max(1, sum(int(R.inside(l).sum()) for l in range(R.nl)) // len(keys))
        if size > 400 or len(keys) > 40:
            COUNT['solve skipped'] += 1
            return
        for k in keys:
            M = A.diags(k[0] if len(k) == 1 else k, format='csr').toarray()
            worst = max(worst, np.linalg.cond(M) if np.all(np.isfinite(M)) and M.any() else np.inf)
        if worst > 1e9:
            COUNT['solve skipped'] += 1
            return
        COUNT['solves'] += 1
        b = Function(R.Q)
        b.v[:] = u.v
        w = A.solve(b)
        y = R.product(blk, [np.asarray(w.v[l]) for l in range(R.nl)])
        scale = max([float(np.abs(v).max()) for v in x if v.size] + [1.0])
        for l in range(R.nl):
            m = R.inside(l)
            a, e = np.asarray(y[l])[m], x[l][m]
            if a.size and not (np.all(np.isfinite(a)) and np.abs(a - e).max() <= 1e-13 * worst * scale + 1e-9 * scale):
                R.bad('solve', 'A x differs from b in leaf %d (condition %.1e): %s' % (l, worst, diff(np.where(m, y[l], 0), x[l])))
                return
            if not np.array_equal(b.v[l], x[l]):
                R.bad('solve:changes', 'solve changes the right hand side')
                return


def run(rec):
    F = []
    s0 = rec['steps'][0]
    LABEL['at'] = 'space'
    R = Run(s0, F)
    u = [R.cls(R.Q) for _ in range(3)]
    reg = s0['reg']
    for r in range(3):
        for l in range(R.nl):
            u[r].v[l] = R.lin(reg[r][l], l)
    if not R.check(u, reg, 'at the start'):
        return F
    held, A = [], None
    regs = [[list(f) for f in g] for g in reg]
    for k, s in enumerate(rec['steps'][1:]):
        op = s['op']
        LABEL['at'] = op
        COUNT[op] += 1
        if op in ('fill', 'scale', 'combine'):
            x = R.pick(u[s['r'] - 1], s['sel']['neg'])
            o, n, node = R.offset(s['sel']['path'])
        if op == 'fill':
            parts = [num(s['c']) * R.atom(s['atom'], l - 1) for l in s['leaves']]
            v = R.stack(parts, node['k'] == 'S')
            if s['form'] == 'slice':
                x[:] = v
            elif s['form'] == 'array':
                x.__array__()[...] = v
            else:
                x.v[...] = v
        elif op == 'scale':
            x *= num(s['c'])
        elif op == 'combine':
            y = R.pick(u[s['s'] - 1], [i - 1 for i in s['from']])
            if s['how'] == 'put':
                x[:] = np.array(y.__array__())
            elif s['how'] == 'add':
                x += np.array(y.__array__()) if s['r'] == s['s'] else y
            else:
                x -= np.array(y.__array__()) if s['r'] == s['s'] else y
        elif op == 'copy':
            r = s['r'] - 1
            held = [h for h in held if h[0] != r]
            u[r] = u[s['s'] - 1] * 2
        elif op == 'hold' or (op == 'through' and False):
            held.append((s['r'] - 1, R.pick(u[s['r'] - 1], s['sel']['neg'])))
        elif op == 'through':
            r, x = held[s['h'] - 1]
            o, n, node = R.offset(s['path'])
            if s['atom']:
                x[:] = R.stack([num(s['c']) * R.atom(s['atom'], l - 1) for l in s['leaves']], node['k'] == 'S')
            else:
                x *= num(s['c'])
        elif op == 'whole':
            whole(R, s, regs[s['r'] - 1])
        elif op == 'blocks':
            M = [m for d in s['ds'] for m in R.form(d)]
            if s['add'] and A is not None and s['how'] == 'iadd':
                A += BlockMatrix(M)
            elif s['add'] and A is not None:
                A = A + BlockMatrix(M)
            else:
                A = BlockMatrix(M)
        elif op == 'apply':
            apply(R, s, regs[s['r'] - 1], A)
        if F:
            return F
        track(R, regs, s)
        if op not in ('whole', 'blocks', 'apply', 'hold') and not R.check(u, regs, 'after step %d %s %s' % (k + 1, op, s.get('sel', {}).get('neg', s.get('path')))):
            return F
    R.check(u, rec['last'], 'at the end')
    return F


def track(R, regs, s):
    """Contents after a step, which the specification gives in full at the end."""
    if 'after' in s:
        for r, g in enumerate(s['after']):
            regs[r] = g
