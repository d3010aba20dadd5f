"""Spaces and functions of module Fields in the library, and their values in floats."""
from fractions import Fraction
import numpy as np
import sympy as sp
from mpi4py import MPI
from shenfun import FunctionSpace, TensorProductSpace, Function, Array, project, Dx, comm
import famspaces as fs

SYM = sp.symbols('x,y,z,r,s', real=True)
BC = {'none': None, 'D': (0, 0), 'LD': (0, None), 'RD': (None, 0), 'DN': (0, 0, 0, 0), 'N': {'left': {'N': 0}, 'right': {'N': 0}}}


def isF(ax):
    return ax['k'] in 'FR'


def fdom(ax):
    """Domain of an axis as the library takes it."""
    if isF(ax):
        s, r = (sp.Rational(x) for x in ax['dom'])
        return (s * sp.pi, s * sp.pi + 2 * r * sp.pi)
    return tuple(fs.num(x) for x in ax['dom'])


def to_ref(ax, x):
    if isF(ax):
        s, r = (float(Fraction(v)) for v in ax['dom'])
        return (x - s * np.pi) / r
    return x


def point(ax, p):
    """Float coordinate of an exact point."""
    if isF(ax):
        s, r = (float(Fraction(v)) for v in ax['dom'])
        return s * np.pi + r * p * np.pi / 2
    return float(Fraction(p))


def poly(p, x):
    v = np.zeros_like(x) if isinstance(x, np.ndarray) else 0
    for c in reversed(p):
        v = v * x + (float(Fraction(c)) if isinstance(x, (np.ndarray, float)) else sp.Rational(c))
    return v


def values(axes, f, X, cplx):
    """Values of function f on the mesh X (broadcastable arrays)."""
    shape = np.broadcast_shapes(*[np.shape(x) for x in X])
    out = np.zeros(shape, dtype=complex)
    for t in f:
        v = complex(float(Fraction(t['re'])), float(Fraction(t['im'])))
        ph = 0
        for ax, g, x in zip(axes, t['fac'], X):
            if isF(ax):
                ph = ph + g['k'] * to_ref(ax, x)
            else:
                v = v * poly(g['p'], np.asarray(x, dtype=float))
        out += v * np.exp(1j * ph)
    return out if cplx else out.real


def symbolic(axes, f, cplx, skip=None):
    """Function f as a sympy expression of the physical coordinates."""
    out = sp.S(0)
    for t in f:
        ph, v = sp.S(0), sp.S(1)
        for i, (ax, g) in enumerate(zip(axes, t['fac'])):
            if isF(ax):
                s, r = (sp.Rational(x) for x in ax['dom'])
                ph += g['k'] * (SYM[i] - s * sp.pi) / r
            else:
                v *= poly(g['p'], SYM[i])
        re, im = sp.Rational(t['re']), sp.Rational(t['im'])
        out += v * ((re + sp.I * im) * (sp.cos(ph) + sp.I * sp.sin(ph)) if cplx else re * sp.cos(ph) - im * sp.sin(ph))
    return sp.expand(out)


def axis_space(i, axes, lift, cplx, **over):
    ax = dict(axes[i], **over)
    if isF(ax):
        return FunctionSpace(ax['n'], 'F', dtype='d' if ax['k'] == 'R' else 'D', domain=fdom(ax))
    kw = {}
    if ax['quad']:
        kw['quad'] = ax['quad']
    bc = BC.get(ax['bc'])
    if ax['bc'] == 'DI':
        l, r = (symbolic(axes, lift[s], cplx) for s in ('left', 'right'))
        if len(axes) == 1 and not cplx:
            l, r = float(l), float(r)
        bc = (l, r)
    return FunctionSpace(ax['n'], ax['k'], bc=bc, domain=fdom(ax), **kw)


def space(axes, perm, cplx, lift=None, comm=comm, ortho=False, **kw):
    o = dict(bc='none') if ortho else {}
    B = [axis_space(i, axes, lift, cplx, **o) for i in range(len(axes))]
    if len(axes) == 1:
        return B[0]
    return TensorProductSpace(comm, B, axes=tuple(p - 1 for p in perm), dtype=complex if cplx else float, **kw)


def mesh(T, dim, kind='quadrature'):
    if dim == 1:
        return [T.mesh(kind=kind)] if kind != 'quadrature' else [T.mesh()]
    return T.local_mesh(broadcast=True, kind=kind) if kind != 'quadrature' else T.local_mesh(True)


def magnitude(axes, f, cplx):
    """Largest value of the function, on a mesh of its own."""
    if not f:
        return 0.0
    X = []
    for i, ax in enumerate(axes):
        a, b = (float(v) for v in fdom(ax))
        s = [1] * len(axes)
        s[i] = -1
        X.append(np.linspace(a, b, 13).reshape(s))
    return float(np.abs(values(axes, f, X, True)).max())


def amplification(axes, d):
    """How much a derivative may enlarge the roundoff of the coefficients."""
    a = 1.0
    for ax, k in zip(axes, d):
        if isF(ax):
            a *= (ax['n'] / 2 / float(Fraction(ax['dom'][1])))**k
        else:
            h = float(Fraction(ax['dom'][1]) - Fraction(ax['dom'][0])) / 2
            a *= (ax['n']**2 / h)**k
    return a
