"""Replay SeriesConversion behaviours on the Legendre/Chebyshev conversions."""
from fractions import Fraction
import warnings
import numpy as np
import shenfun
from shenfun import config, FunctionSpace, Function, Array
from shenfun.legendre import dlt
from num import diff

warnings.simplefilter('ignore')
LABEL = {'at': 'series conversion'}
PARTIAL = []
COUNT = {}
_mat = {}


def stats():
    return dict(COUNT)


def matrix(n):
    """M[i, j]: Chebyshev coefficient i of the Legendre polynomial j (closed form checked in the specification)."""
    if n not in _mat:
        a = np.ones(n, dtype=np.longdouble)
        for k in range(1, n):
            a[k] = a[k - 1] * (2 * k - 1) / (2 * k)
        M = np.zeros((n, n))
        for d in range(0, n, 2):
            j = np.arange(d, n)
            M[j - d, j] = (a[d // 2] * a[j - d // 2] * np.where(j == d, 1, 2)).astype(float)
        if len(_mat) > 12:
            _mat.clear()
        _mat[n] = M
    return _mat[n]


def run(rec):
    F = PARTIAL
    del F[:]
    s0 = rec['steps'][0]
    n, big = s0['n'], s0['big']
    nd = s0['dims']
    if big and nd > 1 and n > 400:
        nd = 1 + (nd > 1)
    axis = s0['axis'] % nd
    shape = [3, 2, 2][:nd]
    shape[axis] = n
    dtype = complex if s0['cplx'] else float
    M = matrix(n)
    built = {}
    arg_axis = axis - nd if s0['negaxis'] else axis
    old = config['optimization']['mode']
    desc = 'N=%d shape=%s axis=%d %s' % (n, shape, arg_axis, 'complex' if s0['cplx'] else 'real')
    # other lines of the array hold multiples of the vector
    rest = [s for i, s in enumerate(shape) if i != axis]
    fac = np.arange(1, np.prod(rest, dtype=int) + 1).reshape(rest) - 0.5
    if s0['cplx']:
        fac = fac * (1 - 0.5j)

    def spread(v, c):
        return np.ascontiguousarray(np.moveaxis(np.multiply.outer(v, c * fac), 0, axis)).astype(dtype)

    def planned(cls, **kw):
        if cls not in built:
            built[cls] = getattr(dlt, cls)(np.zeros(shape, dtype=dtype), axis=arg_axis, **kw)
        return built[cls]

    direct = s0['direct'] or n < 200
    opts = {}
    if s0['domains']:
        opts['domains'] = s0['domains']
    elif s0['levels'] and n > 300:
        opts['levels'] = min(s0['levels'], 2 if n < 1000 else 3)
    try:
        for g in rec['steps'][1:]:
            mode = g['mode']
            if g['alg'] in ('dlt', 'HT') and mode == 'python':  # these load the compiled kernels of the mode by name
                mode = 'cython'
            if g['alg'] == 'FMM' and nd > 1 and not direct:     # stated limit of the plain version
                mode = 'cython'
            config['optimization']['mode'] = mode
            c = float(Fraction(g['scale']))
            if big:
                v = np.zeros(n)
                for e in g['inp']:
                    v[e['at']] += float(Fraction(e['v']))
            else:
                v = np.array([float(Fraction(x)) for x in g['inp']])
            kind, alg = g['op'], g['alg']
            if kind == 'c2l' and big:
                # the input is the Chebyshev series of a sparse Legendre series
                w, v = v, M @ v
            elif big:
                w = M @ v if kind == 'l2c' else M.T @ v
            else:
                w = np.array([float(Fraction(x)) for x in g['out']])
                mine = M @ v if kind == 'l2c' else M.T @ v if kind == 'l2cT' else np.linalg.solve(M, v)
                assert np.allclose(mine, w, 1e-11, 1e-11), 'the closed form disagrees with the specification'
            if kind == 'l2cT':
                # the library's transposed operation is that of M in the scaling of the forward transform
                pass
            x, exp = spread(v, c), spread(w, c)
            keep = x.copy()
            out = None
            if g['given']:
                out = np.full(shape, 7.0, dtype=dtype)
            tol = 1e-11 * n
            T = kind == 'l2cT'
            small = n < 4
            name = None
            if alg == 'dlt':
                fast_legendre(n, shape, axis, dtype, x, desc, F, T)
                continue
            if kind in ('l2c', 'l2cT'):
                if alg == 'fun' or small or (alg == 'HT' and n < 150):
                    name = 'leg2cheb'
                    got = dlt.leg2cheb(x, out, axis=arg_axis, transpose=T) if g['given'] else dlt.leg2cheb(x, axis=arg_axis, transpose=T)
                elif alg == 'HT':
                    name = 'Leg2chebHaleTownsend'
                    o = built.setdefault('HT', dlt.Leg2chebHaleTownsend(np.zeros(shape, dtype=dtype), axis=arg_axis, nM=20, Nmin=149))
                    tol = 1e-9 * n
                    got = o(x, out, transpose=T) if g['given'] else o(x, transpose=T)
                else:
                    name = 'Leg2Cheb' if alg == 'Leg2Cheb' else 'FMMLeg2Cheb'
                    if name == 'Leg2Cheb':
                        kw = dict(opts, maxs=s0['maxs'], use_direct=n + 1 if direct else -1)
                        if kw['use_direct'] < 0:
                            kw['diagonals'] = s0['diagonals']
                    else:
                        kw = dict(opts, maxs=s0['maxs'], use_direct=n + 1 if direct else -1)
                    o = planned(name, **kw)
                    got = (o(x, out, transpose=T) if g['given'] else o(x, transpose=T))
            else:
                if alg in ('fun', 'HT') or small:
                    name = 'cheb2leg'
                    got = dlt.cheb2leg(x, out, axis=arg_axis) if g['given'] else dlt.cheb2leg(x, axis=arg_axis)
                else:
                    name = 'Cheb2Leg' if alg == 'Leg2Cheb' else 'FMMCheb2Leg'
                    kw = dict(opts, maxs=s0['maxs'], use_direct=n + 1 if direct else -1)
                    if name == 'Cheb2Leg' and kw['use_direct'] < 0:
                        kw['diagonals'] = s0['diagonals']
                    o = planned(name, **kw)
                    got = o(x, out) if g['given'] else o(x)
                tol = 1e-10 * n
            tag = ' direct' if direct else ''
            COUNT[name] = COUNT.get(name, 0) + 1
            key = '%s%s%s:%dD:%s' % (name, tag if name not in ('leg2cheb', 'cheb2leg', 'Leg2chebHaleTownsend') else '', ' transposed' if T else '', nd, g['mode'] if name in ('leg2cheb', 'cheb2leg') else '')
            scale = max(1.0, np.abs(exp).max())

            def bad(what):
                F.append(dict(key=key, what='%s %s mode=%s options=%s: %s' % (desc, name, g['mode'], opts, what)))
            if got is None or np.shape(got) != tuple(shape):
                bad('returned shape %s' % (np.shape(got),))
                continue
            if not np.all(np.isfinite(got)) or np.abs(got - exp).max() > tol * scale:
                bad('%s: %s' % (kind, diff(np.asarray(got), exp)))
            elif g['given'] and np.abs(out - exp).max() > tol * scale:
                bad('%s: the output array that was passed is not filled: %s' % (kind, diff(out, exp)))
            if name != 'Leg2chebHaleTownsend' and not np.array_equal(x, keep):
                bad('%s changed its input' % kind)
    finally:
        config['optimization']['mode'] = old
    return list(F)


def fast_legendre(n, shape, axis, dtype, x, desc, F, scalar):
    """The fast Legendre transform against the direct one."""
    if n < 4 or n > 1300:
        return
    nd = len(shape)
    L = FunctionSpace(n, 'L', dtype=dtype)
    L.plan(tuple(shape), axis, dtype, {})
    fast = FunctionSpace(n, 'L', dtype=dtype)
    fast.plan(tuple(shape), axis, dtype, {})
    COUNT['dlt'] = COUNT.get('dlt', 0) + 1
    for name in ('backward', 'scalar_product', 'forward'):
        a = np.array(getattr(L, name)(x, np.zeros(shape, dtype), kind='recursive'))
        y = x.copy()
        b = np.array(getattr(fast, name)(y, np.zeros(shape, dtype), kind='fast'))
        if not np.all(np.isfinite(b)) or np.abs(a - b).max() > 1e-10 * n * max(1, np.abs(a).max()):
            F.append(dict(key='fast Legendre %s:%dD' % (name, nd), what='%s: %s' % (desc, diff(b, a))))
        if not np.array_equal(x, y):
            F.append(dict(key='fast Legendre %s changes its input:%dD' % (name, nd), what=desc))
