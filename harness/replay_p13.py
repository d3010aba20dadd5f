"""Replay FileStore behaviours: files written and read through ShenfunFile."""
from collections import Counter
import os
import shutil
import tempfile
import warnings
import numpy as np
from mpi4py import MPI
from shenfun import VectorSpace, TensorSpace, CompositeSpace, Function, Array, ShenfunFile, comm
import fields as fd
import famspaces as fs

warnings.simplefilter('ignore')
COUNT = Counter()
LABEL = {}
PARTIAL = []


def stats():
    return dict(COUNT)


SPECIAL = [0.0, -0.0, np.inf, -np.inf, np.nan, 5e-324, -1.7976931348623157e308, np.pi]


def bits(rng, n):
    """Random doubles: any mantissa, with special values among them."""
    v = rng.standard_normal(n) * 10.0**rng.integers(-300, 300, n)
    k = rng.integers(0, n, max(1, n // 7))
    v[k] = rng.choice(SPECIAL, k.size)
    return v


def same(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()


class Run:
    def __init__(self, s0, F, folder):
        self.F, self.s0, self.folder = F, s0, folder
        self.axes, self.perm, self.cplx = s0['axes'], s0['perm'], s0['cplx']
        self.dim = len(self.axes)
        self.T = fd.space(self.axes, self.perm, self.cplx)
        self.sp = {'scalar': self.T}
        self.desc = '%s axes=%s' % ('x'.join('%s%d' % (a['k'], a['n']) for a in self.axes), tuple(p - 1 for p in self.perm))
        self.field, self.glob = {}, {}
        for i, f in enumerate(s0['field'], 1):
            self.field[i] = (Function if f['out'] else Array)(self.space(f['kind']))
            self.change(i, 0)
        self.file = {}
        for i in (1, 2):
            self.open(i, 'w')

    def bad(self, key, what):
        self.F.append(dict(key=key, what='%s: %s' % (self.desc, what)))

    def space(self, kind):
        if kind not in self.sp:
            T = self.T
            self.sp[kind] = VectorSpace(T) if kind == 'vector' else TensorSpace(T) if kind == 'tensor' else CompositeSpace([VectorSpace(T), T])
        return self.sp[kind]

    def name(self, i):
        return os.path.join(self.folder, 'data%d' % i)

    def open(self, i, mode):
        self.file[i] = ShenfunFile(self.name(i), self.T, mode=mode, mesh=self.s0['mesh'][i - 1])

    def shape(self, out):
        return [a['n'] // 2 + 1 if out and a['k'] == 'R' else a['n'] for a in self.axes]

    def change(self, i, ver):
        f = self.s0['field'][i - 1]
        u = self.field[i]
        rng = np.random.default_rng(1000 * i + ver)
        nc = {'scalar': 1, 'vector': self.dim, 'tensor': self.dim**2, 'mixed': self.dim + 1}[f['kind']]
        sh = [nc] + self.shape(f['out'])
        n = int(np.prod(sh))
        if np.dtype(u.dtype).kind == 'c':
            v = np.empty(n, dtype=complex)
            v.real, v.imag = bits(rng, n), bits(rng, n)
        else:
            v = bits(rng, n)
        v = v.reshape(sh)
        self.glob[i, ver] = v
        u[:] = self.local(u, v)

    def local(self, u, v):
        out = isinstance(u, Function)
        v = v[(slice(None),) + tuple(self.T.local_slice(out))]
        return v[0] if u.ndim == self.dim else v

    def value(self, v):
        """Global array (component first) of stored contents."""
        g = self.glob[v['f'], v['ver']]
        kind = self.s0['field'][v['f'] - 1]['kind']
        if v['c']:
            g = g[v['c'] - 1]
        elif kind == 'scalar':
            g = g[0]
        if v['form']:
            s = tuple(slice(None) if x == -1 else x for x in v['form'])
            g = g[s if (v['c'] or kind == 'scalar') else (slice(None),) + s]
        return np.array(g)

    def path(self, k):
        g, form, step = k
        name = g[0] + (str(g[1] - 1) if g[1] else '')
        nd = len([x for x in form if x == -1]) if form else self.dim
        sl = '_'.join('slice' if x == -1 else str(x) for x in form)
        return '/'.join([name, '%dD' % nd] + ([sl] if form else []) + [str(step)])

    def allok(self, ok):
        return comm.allreduce(bool(ok), op=MPI.LAND)

    def write(self, g):
        d = {}
        for e in g['d']:
            items = []
            for it in e['items']:
                u = self.field[it['f']]
                if it['comp']:
                    u = u[it['comp'] - 1]
                items.append((u, [slice(None) if x == -1 else x for x in it['form']]) if it['form'] else u)
            d[e['name']] = items
        before = {i: np.array(u).tobytes() for i, u in self.field.items()}
        self.file[g['file']].write(g['step'], d, as_scalar=g['scalar'])
        if not self.allok(all(before[i] == np.array(u).tobytes() for i, u in self.field.items())):
            self.bad('operand', 'writing changes a field')
        COUNT['writes'] += 1

    def read(self, g):
        u = (Function if g['out'] else Array)(self.space(g['kind']))
        u[:] = 1
        name = g['name'][0] + (str(g['name'][1] - 1) if g['name'][1] else '')
        self.file[g['file']].read(u, name, step=g['step'])
        v = self.value(g['val'])
        exp = v[tuple(self.T.local_slice(g['out']))] if u.ndim == self.dim else v[(slice(None),) + tuple(self.T.local_slice(g['out']))]
        ok = same(np.asarray(u), exp)
        COUNT['reads'] += 1
        if not self.allok(ok):
            self.bad('read:' + g['kind'], 'reading %s at step %d of %s data gives other data than written' % (name, g['step'], 'spectral' if g['out'] else 'physical'))

    def mesh(self, i):
        out = []
        for a, b in zip(self.axes, self.T.bases):
            lo, hi = (float(x) for x in fd.fdom(a))
            n = a['n']
            if fd.isF(a):
                x = lo + (hi - lo) * np.arange(n) / n
            elif self.s0['mesh'][i - 1] == 'uniform':
                x = np.linspace(lo, hi, n)
            else:
                x = np.asarray(b.mesh()).ravel()
            out.append(x)
        return out

    def look(self, g):
        import h5py
        comm.barrier()
        if comm.Get_rank() == 0:
            with h5py.File(self.name(g['file']) + '.h5', 'r') as f:
                have = []
                f.visititems(lambda n, o: have.append(n) if isinstance(o, h5py.Dataset) else None)
                want = {self.path(e['k']): e for e in g['all']}
                data = {n for n in have if n.split('/')[1] != 'mesh'}
                if data != set(want):
                    self.bad('datasets', 'stored are %s, written were %s' % (sorted(data - set(want)), sorted(set(want) - data)))
                for n in sorted(data & set(want)):
                    COUNT['datasets'] += 1
                    exp = self.value(want[n]['v'])
                    if not same(np.array(f[n]), exp):
                        self.bad('stored:%s' % ('slice' if want[n]['k'][1] else 'whole'), '%s holds other data than written' % n)
                for e in g['grp']:
                    name = e['g'][0] + (str(e['g'][1] - 1) if e['g'][1] else '')
                    at = f[name].attrs
                    if tuple(at['shape']) != tuple(self.shape(e['s']['out'])) or bool(at['rank']) != (e['s']['kind'] != 'scalar'):
                        self.bad('attributes', '%s: shape %s rank %s' % (name, tuple(at['shape']), at['rank']))
                    for j, x in enumerate(self.mesh(g['file'])):
                        m = '%s/mesh/x%d' % (name, j)
                        COUNT['meshes'] += 1
                        if m not in f or f[m].shape != x.shape or np.abs(np.array(f[m]) - x).max() > 1e-13 * (1 + np.abs(x).max()):
                            self.bad('mesh', '%s is not the %s mesh' % (m, self.s0['mesh'][g['file'] - 1]))
        n = comm.bcast(len(self.F))
        if comm.Get_rank() and n > len(self.F):
            self.F.append(dict(key='rank0', what='see process 0'))


def run(rec):
    F = PARTIAL
    del F[:]
    s0 = rec['steps'][0]
    folder = comm.bcast(tempfile.mkdtemp(prefix='shenverif-io') if comm.Get_rank() == 0 else None)
    try:
        R = Run(s0, F, folder)
        for g in rec['steps'][1:]:
            op = g['op']
            LABEL['at'] = '%s %s' % (R.desc, op)
            if op == 'change':
                R.change(g['f'], g['ver'])
            elif op == 'write':
                R.write(g)
            elif op == 'read':
                R.read(g)
            elif op == 'look':
                R.look(g)
            elif op == 'reopen':
                R.open(g['file'], g['mode'])
            if F:
                break
    finally:
        comm.barrier()
        if comm.Get_rank() == 0:
            shutil.rmtree(folder, ignore_errors=True)
    return F
