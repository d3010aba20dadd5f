"""Replay CheckpointStore behaviours with real Checkpoint objects, and look at what each crash would leave."""
from collections import Counter
import ctypes
import hashlib
import os
import shutil
import tempfile
import warnings
import h5py
import numpy as np
from shenfun import VectorSpace, TensorSpace, CompositeSpace, Function, Checkpoint, comm
import fields as fd

warnings.simplefilter('ignore')
COUNT = Counter()
LABEL = {}
PARTIAL = []
NAMES = ['U', 'phi', 'p']
NONE = (0, 0)
SHIM = hasattr(ctypes.CDLL(None), 'crash_watch')


def stats():
    return dict(COUNT)


def watch(folder, snaps):
    ctypes.CDLL(None).crash_watch(folder.encode(), snaps.encode())


def bits(a):
    return np.ascontiguousarray(a).tobytes()


class Setup:
    """The spaces of a record and the uninterrupted runs on them."""
    def __init__(self, s0):
        self.s0 = s0
        T = fd.space(s0['axes'], s0['perm'], s0['cplx'])
        dim = len(s0['axes'])
        mk = {'scalar': lambda: T, 'vector': lambda: VectorSpace(T), 'tensor': lambda: TensorSpace(T), 'mixed': lambda: CompositeSpace([VectorSpace(T), T])}
        nc = {'scalar': 1, 'vector': dim, 'tensor': dim**2, 'mixed': dim + 1}
        self.spaces, self.shape = [], []
        sh = [a['n'] // 2 + 1 if a['k'] == 'R' else a['n'] for a in s0['axes']]
        for g in s0['groups']:
            self.spaces.append(mk[g['kind']]())
            if g['kind'] == 'tensor':
                self.shape.append([dim**2] + sh)
            else:
                self.shape.append(([nc[g['kind']]] if g['kind'] != 'scalar' else []) + sh)
        self.dtype = [np.dtype(Function(V).dtype) for V in self.spaces]
        self.levels, self.every = s0['levels'], s0['every']
        self.desc = '%s axes=%s %s levels=%d every=%d' % ('x'.join('%s%d' % (a['k'], a['n']) for a in s0['axes']), tuple(p - 1 for p in s0['perm']), [g['kind'] for g in s0['groups']], self.levels, self.every)
        self.runs = {}

    def time(self, step):
        return step * self.s0['dt'] / 997.0

    def start(self, run, g, level):
        rng = np.random.default_rng([run, g, level])
        sh = self.shape[g]
        n = int(np.prod(sh))
        u = rng.standard_normal(n) * 10.0**rng.integers(-20, 20, n)
        return (u + 1j * rng.standard_normal(n) if self.dtype[g].kind == 'c' else u).reshape(sh)

    @staticmethod
    def advance(cur, last):
        a, b = cur.view(float), last.view(float)
        return (a * 0.9 + np.roll(b, 0) * -0.3 + 0.01).view(cur.dtype)

    def state(self, v, g):
        """The global arrays of group g at all time levels of version v."""
        r = self.runs.setdefault((v[0], g), [[self.start(v[0], g, l) for l in range(self.levels)]])
        while len(r) <= v[1]:
            r.append([self.advance(r[-1][0], r[-1][-1])] + r[-1][:-1])
        return r[v[1]]


def slice_of(u):
    return u.local_slice()


class Program:
    """A running simulation with its checkpoint object."""
    def __init__(self, P, folder, start, F):
        self.P, self.F = P, F
        self.name = os.path.join(folder, 'run')
        self.u = [[Function(V) for l in range(P.levels)] for V in P.spaces]
        data = {str(l): {NAMES[g]: [self.u[g][l]] for g in range(len(P.spaces))} for l in range(P.levels)}
        self.ck = Checkpoint(self.name, checkevery=P.every, data=data)
        self.v = start

    def fresh(self):
        for g, us in enumerate(self.u):
            for l, u in enumerate(us):
                np.asarray(u)[...] = self.P.state((self.v[0], 0), g)[l][u.local_slice()]
        self.t = 0.0
        return self

    def restore(self, bad):
        """What a program that restarts does."""
        for g, us in enumerate(self.u):
            for l, u in enumerate(us):
                np.asarray(u)[...] = -7
                self.ck.read(u, NAMES[g], step=l)
        self.ck.open()
        tstep, self.t = int(self.ck.f.attrs['tstep']), float(self.ck.f.attrs['t'])
        self.ck.close()
        if tstep != self.v[1] or self.t != self.P.time(self.v[1]):
            bad('restore', 'restart from step %d finds step %d, time %r' % (self.v[1], tstep, self.t))
        self.check('restored', bad)
        return self

    def check(self, when, bad):
        """The run is where an uninterrupted run would be."""
        for g, us in enumerate(self.u):
            for l, u in enumerate(us):
                COUNT['states'] += 1
                want = self.P.state(self.v, g)[l][u.local_slice()]
                if bits(want) != bits(u):
                    bad('continue', '%s: group %s level %d differs from the uninterrupted run at step %d' % (when, NAMES[g], l, self.v[1]))
                    np.asarray(u)[...] = want

    def step(self):
        self.v = (self.v[0], self.v[1] + 1)
        self.t = self.P.time(self.v[1])
        for g, us in enumerate(self.u):
            a = [np.array(u) for u in us]
            new = self.P.advance(np.ascontiguousarray(a[0]), np.ascontiguousarray(a[-1]))
            for l, u in enumerate(us):
                np.asarray(u)[...] = new if l == 0 else a[l - 1]


def classify(P, path, versions):
    """The version a stored file holds: (0, 0) if there is no such file, None if it holds no complete one."""
    if not os.path.exists(path):
        return NONE
    try:
        with h5py.File(path, 'r') as f:
            tstep, t = int(f.attrs['tstep']), float(f.attrs['t'])
            got = {(g, l): f['%s/%d' % (NAMES[g], l)][()] for g in range(len(P.spaces)) for l in range(P.levels)}
    except Exception:
        return None
    for v in versions:
        if v[1] == tstep and v != NONE:
            if t == P.time(tstep) and all(x.dtype == P.dtype[g] and list(x.shape) == P.shape[g] and bits(x) == bits(P.state(v, g)[l]) for (g, l), x in got.items()):
                return v
    return None


def tup(v):
    return (v[0], v[1])


class Crashes:
    """Watches a folder during an update."""
    def __init__(self, folder, on):
        self.folder, self.on = folder, on and SHIM and comm.size == 1
        self.items = []

    def __enter__(self):
        if self.on:
            self.snaps = tempfile.mkdtemp(prefix='s-')
            watch(self.folder, self.snaps)
        return self

    def __exit__(self, *a):
        if self.on:
            watch('', '')
            seen = set()
            for n in sorted(os.listdir(self.snaps)):
                d = os.path.join(self.snaps, n)
                h = hashlib.sha1()
                for f in sorted(os.listdir(d)):
                    h.update(f.encode() + b'|' + open(os.path.join(d, f), 'rb').read())
                COUNT['crash_points'] += 1
                if h.digest() not in seen:
                    seen.add(h.digest())
                    self.items.append(d)

    def close(self):
        if self.on:
            shutil.rmtree(self.snaps, True)


def recovered(P, folder, versions):
    a = classify(P, os.path.join(folder, 'run.chk.h5'), versions)
    if a not in (None, NONE):
        return a, 'chk'
    b = classify(P, os.path.join(folder, 'run.old.chk.h5'), versions)
    if b not in (None, NONE):
        return b, 'old'
    return NONE, (a, b)


def bywalk(P, F, bad, folder, op, at, depth=0):
    """Restart from what a crash left and run to the next checkpoint."""
    known = [tup(b['from']) for b in op['branch']]
    L, how = recovered(P, folder, known)
    if L == NONE:
        if NONE not in known:
            bad('recover', 'a process that dies during the update at step %d (crash point %s) leaves no complete checkpoint' % (op['v'][1], at))
        return
    COUNT['recovered_' + how] += 1
    nxt = [tup(b['next']) for b in op['branch'] if tup(b['from']) == L][0]
    work = tempfile.mkdtemp(prefix='c-')
    try:
        shutil.copytree(folder, work, dirs_exist_ok=True)
        if how == 'old':
            shutil.copyfile(work + '/run.old.chk.h5', work + '/run.chk.h5')
        pr = Program(P, work, L, F).restore(bad)
        while pr.v != nxt:
            pr.step()
            if pr.v == nxt:
                break
            pr.ck.update(pr.t, pr.v[1])
        pr.check('after a crash', bad)
        with Crashes(work, True) as cr:
            pr.ck.update(pr.t, pr.v[1])
        got = [classify(P, work + '/run%s.chk.h5' % x, [L, nxt]) for x in ('', '.old')]
        if got != [nxt, L]:
            bad('after_crash', 'after a crash in step %d and a restart from %s: stored %s, previous %s, want %s, %s' % (op['v'][1], L, got[0], got[1], nxt, L))
        for d in cr.items:
            if recovered(P, d, [L, nxt])[0] == NONE:
                bad('recover2', 'a second crash, at step %d, leaves no complete checkpoint' % nxt[1])
        cr.close()
    finally:
        shutil.rmtree(work, True)


def run(rec):
    F = []
    steps = rec['steps']
    P = Setup(steps[0])
    top = comm.bcast(tempfile.mkdtemp(prefix='k-') if comm.rank == 0 else None)
    folder = os.path.join(top, 'my run' if steps[0]['dt'] % 3 == 0 else 'run')
    if comm.rank == 0:
        os.mkdir(folder)
    comm.barrier()

    def bad(key, what):
        F.append(dict(key=key, what='%s: %s' % (P.desc, what)))
    try:
        pr = Program(P, folder, (1, 0), F).fresh()
        known = {(1, 0)}
        for n, s in enumerate(steps[1:]):
            op = s['op']
            LABEL['at'] = 'step %d %s' % (n, op)
            COUNT[op] += 1
            if op == 'die':
                pr = None
            elif op == 'anew':
                pr = Program(P, folder, tup(s['v']), F).fresh()
            elif op == 'restart':
                pr = Program(P, folder, tup(s['v']), F).restore(bad)
            else:
                pr.step()
                assert pr.v == tup(s['v'])
                known.add(pr.v)
                pr.check('running', bad)
                if s['kill']:
                    if comm.rank == 0:
                        open('killshenfun', 'w').close()
                    comm.barrier()
                stopped = False
                with Crashes(folder, s['snap']) as cr:
                    try:
                        pr.ck.update(pr.t, pr.v[1])
                    except SystemExit:
                        stopped = True
                comm.barrier()
                if stopped != s['kill']:
                    bad('stop', 'step %d: %s' % (pr.v[1], 'stopped without request' if stopped else 'not stopped on request'))
                if s['kill'] and os.path.exists('killshenfun'):
                    bad('stop', 'the request to stop is still there')
                    comm.barrier()
                    if comm.rank == 0:
                        os.remove('killshenfun')
                pr.check('updated', bad)
                if s['stored']:
                    COUNT['stored'] += 1
                    for d in cr.items:
                        if recovered(P, d, [tup(b['from']) for b in s['branch']])[0] == NONE and [0, 0] not in s['may']:
                            bad('recover', 'a process that dies during the update at step %d (crash point %s) leaves no complete checkpoint' % (pr.v[1], os.path.basename(d)))
                    for a in s['at']:
                        if cr.items:
                            d = cr.items[a * len(cr.items) // 1000]
                            bywalk(P, F, bad, d, s, os.path.basename(d))
                    cr.close()
                if s['kill']:
                    pr = None
            if op == 'update' and comm.rank == 0:
                vs = [tup(s['chk']), tup(s['old'])]
                for x, v in zip(('', '.old'), vs):
                    if v != NONE:
                        got = classify(P, os.path.join(folder, 'run%s.chk.h5' % x), vs)
                        if got != v:
                            bad('stored' if x == '' else 'previous', 'after the update at step %d, run%s.chk.h5 holds %s, want run %d step %d' % (s['v'][1], x, 'nothing' if got == NONE else 'no complete checkpoint of this run' if got is None else 'run %d step %d' % got, v[0], v[1]))
            comm.barrier()
            if len(F) > 20:
                break
    finally:
        comm.barrier()
        if comm.rank == 0:
            shutil.rmtree(top, True)
    return F
