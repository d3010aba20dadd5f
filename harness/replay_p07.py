"""Replay the behaviours of the Distribution specification on spaces distributed over processes.

The oracle for index ranges is the specification; for results it is the same space on one process."""
import os
import h5py
import numpy as np
from mpi4py import MPI
from mpi4py_fft.pencil import Subcomm
from shenfun import FunctionSpace, TensorProductSpace, VectorSpace, TensorSpace, CompositeSpace, Function, Array, inner, \
    project, Dx, TestFunction, TrialFunction, div, grad
from shenfun import ShenfunFile
from num import diff

COMM = MPI.COMM_WORLD
LABEL = {'at': 'distribution'}
PARTIAL = []
COUNT = {'blocks': 0, 'values': 0}


def stats():
    return dict(COUNT)


def bases(cfg, N):
    out = []
    for i, k in enumerate(cfg['kind']):
        n = N[i]
        if k == 'R':
            out.append(FunctionSpace(n, 'F', dtype='d', domain=(0, 4 * np.pi) if n % 3 == 0 else None))
        elif k == 'F':
            out.append(FunctionSpace(n, 'F', dtype='D'))
        else:
            bc = None if n % 3 == 0 else (0, 0)
            out.append(FunctionSpace(n, k, bc=bc, domain=(-1, 2) if i == 0 else (-1, 1)))
    return out


def build(comm, cfg, N=None, serial=False):
    N = N or cfg['phys']
    axes = tuple(p - 1 for p in cfg['perm'])
    dtype = complex if 'F' in cfg['kind'] and 'R' not in cfg['kind'] else float
    kw = {}
    c = comm
    if not serial:
        if cfg['mode'] == 'slab':
            kw['slab'] = True
        elif cfg['mode'] == 'grid':
            c = tuple(Subcomm(comm, cfg['dims']))
    if cfg['collapse']:
        kw['collapse_fourier'] = True
    return TensorProductSpace(c, bases(cfg, N), axes=axes, dtype=dtype, **kw)


def composite(T, rank):
    return T if rank == 0 else VectorSpace(T) if rank == 1 else TensorSpace(T)


def fill(shape, dtype, seed):
    r = np.random.RandomState(seed)
    a = r.uniform(-1, 1, shape)
    if np.dtype(dtype).kind == 'c':
        a = a + 1j * r.uniform(-1, 1, shape)
    return a


class World:
    def __init__(self, rec, comm=None):
        self.comm = comm or COMM
        self.cfg = cfg = rec['cfg']
        self.T = build(self.comm, cfg)
        self.S = build(MPI.COMM_SELF, cfg, serial=True)
        self.V, self.W = composite(self.T, cfg['rank']), composite(self.S, cfg['rank'])
        self.desc = 'np=%d %s dims=%s N=%s kinds=%s axes=%s rank=%d' % (cfg['np'], cfg['mode'], cfg['dims'], cfg['phys'], ''.join(cfg['kind']),
                                                                        [p - 1 for p in cfg['perm']], cfg['rank'])

    def report(self, ok, key, what):
        """Collective: every process reports the same."""
        bad = self.comm.allgather(None if ok else what)
        for r, b in enumerate(bad):
            if b is not None:
                PARTIAL.append(dict(key=key, what='%s: process %d: %s' % (self.desc, r, b)))
                return False
        return True

    def same(self, key, got, exp, what, tol=1e-10):
        got, exp = np.asarray(got), np.asarray(exp)
        COUNT['values'] += int(exp.size)
        ok = got.shape == exp.shape and bool(np.all(np.isfinite(got))) and (exp.size == 0 or np.abs(got - exp).max() <= tol * (1 + np.abs(exp).max()))
        return self.report(ok, key, what + ': ' + ('' if ok else diff(got, exp)))


def sl(space, fwd):
    return tuple(space.local_slice(fwd))


def run(rec):
    F = PARTIAL
    del F[:]
    w = World(rec)
    cfg, comm = w.cfg, w.comm
    me = comm.Get_rank()
    T, S, V, W = w.T, w.S, w.V, w.W
    d = cfg['d']
    # ---- index ranges: those of the specification
    for step, fwd in zip(rec['steps'], (False, True)):
        b = step['blocks'][me]
        COUNT['blocks'] += 1
        exp = [slice(s, s + n) for s, n in b]
        got = list(T.local_slice(fwd))
        w.report(got == exp, 'local_slice', '%s: local_slice is %s, specified %s' % (step['at'], got, exp))
        w.report(list(T.shape(fwd)) == [n for _, n in b], 'shape', '%s: shape is %s, specified %s' % (step['at'], T.shape(fwd), b))
        w.report(list(T.global_shape(fwd)) == step['shape'], 'global_shape', '%s: global shape is %s, specified %s' % (step['at'], T.global_shape(fwd), step['shape']))
        lead = (d ** cfg['rank'],) if cfg['rank'] else ()
        w.report(tuple(V.shape(fwd)) == lead + tuple(n for _, n in b), 'shape of composite', '%s %s' % (step['at'], V.shape(fwd)))
        w.report(list(V.local_slice(fwd))[-d:] == exp and len(V.local_slice(fwd)) == d + len(lead), 'slice of composite', '%s %s' % (step['at'], V.local_slice(fwd)))
        a = Function(V) if fwd else Array(V)
        w.report(tuple(a.shape)[-d:] == tuple(V.shape(fwd))[-d:] and a.size == np.prod(V.shape(fwd)), 'array shape', '%s %s %s' % (step['at'], a.shape, V.shape(fwd)))
        w.report(tuple(a.global_shape) == lead + tuple(step['shape']), 'array global shape', '%s %s' % (step['at'], a.global_shape))
    # ---- meshes and wavenumbers: the part of the global ones that the slices say
    for fwd, names in ((False, ['local_mesh', 'uniform']), (True, ['local_wavenumbers', 'scaled'])):
        s = sl(T, fwd)
        for name in names:
            for bcast in (True, False):
                if fwd and bcast and any(b.dim() != b.shape(True) for b in S.bases):
                    continue
                if name == 'local_mesh':
                    got, exp = T.local_mesh(bcast), S.mesh()
                elif name == 'uniform':
                    got, exp = T.local_mesh(bcast, kind='uniform'), S.mesh(kind='uniform')
                else:
                    got, exp = T.local_wavenumbers(bcast, scaled=name == 'scaled'), S.wavenumbers(scaled=name == 'scaled')
                for i in range(d):
                    e = np.asarray(exp[i])
                    sli = tuple(s[i] if j == i else slice(None) for j in range(d))
                    e = e[sli]
                    if bcast:
                        e = np.broadcast_to(e, T.shape(fwd))
                    w.same('%s%s' % (name, ' broadcast' if bcast else ''), got[i], e, '%s along %d' % (name, i))
    # ---- transforms
    real = S.forward.input_array.dtype
    gu = fill(W.shape(False), real, sum(cfg['phys']) + cfg['np'])
    us = Array(W)
    us[:] = gu.reshape(us.shape)
    gu = np.asarray(us).copy()
    uhs = us.forward(Function(W))
    u = Array(V)
    u[:] = gu[(Ellipsis,) + sl(T, False)].reshape(u.shape)
    s1 = (Ellipsis,) + sl(T, True)
    s0 = (Ellipsis,) + sl(T, False)
    uh = u.forward(Function(V))
    w.same('forward', uh, np.asarray(uhs)[s1], 'forward')
    w.same('forward input', u, gu[s0], 'the input of the forward transform')
    bs = uhs.backward(Array(W))
    b = uh.backward(Array(V))
    w.same('backward', b, np.asarray(bs)[s0], 'backward')
    w.same('backward input', uh, np.asarray(uhs)[s1], 'the input of the backward transform')
    for name in ('scalar_product',):
        got = V.scalar_product(u, Function(V)) if cfg['rank'] == 0 else np.array([np.asarray(T.scalar_product(Array(T, buffer=np.asarray(x).copy()), Function(T))) for x in np.asarray(u).reshape((-1,) + tuple(T.shape(False)))])
        exp = W.scalar_product(us, Function(W)) if cfg['rank'] == 0 else np.array([np.asarray(S.scalar_product(Array(S, buffer=np.asarray(x).copy()), Function(S))) for x in np.asarray(us).reshape((-1,) + tuple(S.shape(False)))])
        w.same('scalar product', got, np.asarray(exp)[s1], 'scalar product')
    # ---- uniform meshes
    w.same('backward uniform', uh.backward(mesh='uniform'), np.asarray(uhs.backward(mesh='uniform'))[s0], 'backward on the uniform mesh')
    # ---- gathered
    g = uh.get((slice(None),) * uh.ndim) if hasattr(uh, 'get') else None
    if hasattr(uh, 'get') and cfg['rank'] < 2:
        w.same('gather', g if me == 0 else 0, np.asarray(uhs) if me == 0 else 0, 'array gathered on process 0')
    # ---- padded transforms
    pf = [float(eval(x)) for x in cfg['pad']]
    if any(x > 1 for x in pf):
        P, Q = V.get_dealiased(tuple(pf)), W.get_dealiased(tuple(pf))
        ph, qh = Array(P), Array(Q)
        w.report(tuple(P.local_slice(True))[-d:] == s1[1:], 'padded slice', 'spectral slice of the padded space %s, of the space %s' % (P.local_slice(True), s1))
        bq = Q.backward(uhs, qh)
        bp = P.backward(uh, ph)
        p0 = (Ellipsis,) + tuple(P.local_slice(False))[-d:]
        box = [(x.start, x.stop) for x in p0[1:]]
        boxes = comm.allgather(box)
        cov = np.zeros(Q.global_shape(False)[-d:], int)
        for bx in boxes:
            cov[tuple(slice(x, y) for x, y in bx)] += 1
        w.report(bool((cov == 1).all()), 'padded partition', 'local parts of the padded physical array cover items %s times' % sorted(set(cov.ravel())))
        w.same('padded backward', bp, np.asarray(bq)[p0], 'padded backward')
        fq = Q.forward(bq, Function(Q))
        fp = P.forward(bp, Function(P))
        w.same('padded forward', fp, np.asarray(fq)[s1], 'padded forward')
        gq = fill(bq.shape, bq.dtype, 5)
        bq[:] = gq
        bp[:] = gq[p0]
        w.same('padded scalar product' if cfg['rank'] == 0 else 'padded forward of data',
               P.scalar_product(bp, Function(P)) if cfg['rank'] == 0 else P.forward(bp, Function(P)),
               np.asarray(Q.scalar_product(bq, Function(Q)) if cfg['rank'] == 0 else Q.forward(bq, Function(Q)))[s1], 'padded scalar product / forward')
        # the other way: a padded backward through the function
        w.same('padded function backward', np.asarray(uh.backward(padding_factor=tuple(pf))), np.asarray(uhs.backward(padding_factor=tuple(pf)))[(Ellipsis,) + tuple(V.get_dealiased(tuple(pf)).local_slice(False))[-d:]], 'backward with a padding factor')
    # ---- point evaluation
    if cfg['rank'] < 2 and d < 4:
        r = np.random.RandomState(3)
        pts = np.array([r.uniform(float(b.domain[0]), float(b.domain[1]), 4) for b in S.bases])
        e = uhs.eval(pts)
        w.same('eval', uh.eval(pts), e, 'eval')
        if cfg['rank'] == 0:
            for m in (0, 1, 2):
                if m and d > 3:
                    continue
                w.same('eval method %d' % m, T.eval(pts, uh, method=m), e, 'eval with method %d' % m)
    # ---- integrals, inner products of arrays
    w.same('integral', inner(1, u if cfg['rank'] == 0 else u[0] if cfg['rank'] == 1 else u[0][0]), inner(1, us if cfg['rank'] == 0 else us[0] if cfg['rank'] == 1 else us[0][0]), 'integral')
    # ---- derivatives
    if cfg['rank'] == 0:
        ax = cfg['phys'][0] % d
        OS, OT = S.get_orthogonal(), T.get_orthogonal()
        nb = [i for i, k in enumerate(cfg['kind']) if k in 'CL']
        # solves (within the projection) need the bounded axis to be undistributed in spectral space
        if not nb or (len(nb) == 1 and cfg['perm'][0] - 1 in nb and d < 4):
            w.same('projected derivative', project(Dx(uh, ax, 1), OT), np.asarray(project(Dx(uhs, ax, 1), OS))[sl(OT, True)], 'd/dx_%d projected' % ax, 1e-8)
        t, us_ = TestFunction(T), TrialFunction(T)
        tS, uS = TestFunction(S), TrialFunction(S)
        form = (lambda a, c: inner(a, c)) if cfg['phys'][-1] % 2 else (lambda a, c: inner(a, div(grad(c))))
        A, AS = form(t, us_), form(tS, uS)
        A = A if isinstance(A, list) else [A]
        AS = AS if isinstance(AS, list) else [AS]
        c, cS = Function(T), Function(S)
        for m in A:
            c += m.matvec(uh, Function(T))
        for m in AS:
            cS += m.matvec(uhs, Function(S))
        w.same('matrix vector product', c, np.asarray(cS)[s1], 'matvec', 1e-9)
        # masks, copies to flat arrays
        if any(k in 'RF' for k in cfg['kind']):
            m, mS = T.get_mask_nyquist(), S.get_mask_nyquist()
            m = np.broadcast_to(m, T.shape(True)) if m is not None else None
            mS = np.broadcast_to(mS, S.shape(True)) if mS is not None else None
            if m is not None and mS is not None:
                w.same('nyquist mask', m, mS[s1], 'mask')
            v = uh.copy()
            vS = uhs.copy()
            v.mask_nyquist(m)
            vS.mask_nyquist(mS)
            w.same('masked', v, np.asarray(vS)[s1], 'mask_nyquist')
    # ---- files
    if cfg['rank'] < 2 and cfg['phys'][0] % 2:
        files(w, u, uh, us, uhs)
    # ---- resizing
    N = list(cfg['refine'])
    try_refine(w, uh, uhs, N)
    return list(F)


def files(w, u, uh, us, uhs):
    """Written by all processes, read by one, by all, and by all what one has written."""
    comm, V, W = w.comm, w.V, w.W
    name = ['p07-%d' % os.getpid() if comm.Get_rank() == 0 else None][0]
    name = comm.bcast(name, root=0)
    try:
        for kind, a, g, S, G, fwd in (('physical', u, us, V, W, False), ('spectral', uh, uhs, V, W, True)):
            f = ShenfunFile(name + kind, S, backend='hdf5', mode='w')
            f.write(0, {'u': [a]}, as_scalar=False)
            f.write(3, {'u': [a, (a, [slice(None)] * (w.cfg['d'] - 1) + [1])]} if not fwd else {'u': [a]}, as_scalar=False)
            f.close()
            b = Function(V) if fwd else Array(V)
            f = ShenfunFile(name + kind, S, backend='hdf5', mode='r')
            f.read(b, 'u', step=3)
            f.close()
            w.same('file', b, np.asarray(a), '%s data read by all processes' % kind, 0)
            e = np.asarray(g)
            c = 0
            if comm.Get_rank() == 0:
                with h5py.File(name + kind + '.h5', 'r') as f:
                    path = 'u/%dD/0' % w.cfg['d']
                    c = f[path if path in f else 'u/Vector/%dD/0' % w.cfg['d']][()]
            w.same('file', c if comm.Get_rank() == 0 else 0, e if comm.Get_rank() == 0 else 0, '%s data read by process 0 alone' % kind, 1e-10)
    finally:
        comm.barrier()
        if comm.Get_rank() == 0:
            for x in ('physical', 'spectral'):
                if os.path.exists(name + x + '.h5'):
                    os.remove(name + x + '.h5')


def try_refine(w, uh, uhs, N):
    cfg = w.cfg
    phys = N
    spec = [n // 2 + 1 if k == 'R' else n for n, k in zip(N, cfg['kind'])]
    # the distributions on the way must be admissible too
    if min(phys + spec + cfg['phys'] + cfg['spec']) < max(cfg['dims']) or cfg['rank'] == 2:
        return
    vr = uh.refine(N)
    vs = uhs.refine(N)
    w.same('refine', vr, np.asarray(vs)[(Ellipsis,) + tuple(vr.function_space().local_slice(True))[-cfg['d']:]], 'refine to %s' % N)
    X = composite(build(w.comm, cfg, N=N), cfg['rank'])
    XS = composite(build(MPI.COMM_SELF, cfg, N=N, serial=True), cfg['rank'])
    a, aS = Function(X), Function(XS)
    if all((n % 3 == 0) == (m % 3 == 0) for n, m, k in zip(N, cfg['phys'], cfg['kind']) if k in 'CLR'):
        uh.assign(a)
        uhs.assign(aS)
        w.same('assign', a, np.asarray(aS)[(Ellipsis,) + tuple(X.local_slice(True))[-cfg['d']:]], 'assign to %s' % N)
