"""Spaces of each family, and the float meaning of the specification's exact bases (module Families)."""
import importlib
import math
from fractions import Fraction
import numpy as np
import sympy as sp
from scipy.special import beta as betafn

MOD = dict(C='chebyshev', L='legendre', U='chebyshevu', Q='ultraspherical', J='jacobi', W='gegenbauer', La='laguerre', H='hermite', F='fourier')
QUADS = dict(C=('GC', 'GL'), L=('LG', 'GL'), U=('GU', 'GC'), Q=('QG',), J=('JG',), W=('CG',), La=('LG',), H=('HG',))
D0, N0, N20, N30 = {'D': 0}, {'N': 0}, {'N2': 0}, {'N3': 0}


def num(s):
    """Exact domain or parameter value as the library takes it."""
    f = Fraction(s)
    return int(f) if f.denominator == 1 else sp.Rational(f.numerator, f.denominator)


def h0(fam):
    f = fam['f']
    if f == 'La':
        return 1.0
    if f == 'H':
        return math.sqrt(math.pi)
    a, b = float(Fraction(fam['al'])), float(Fraction(fam['be']))
    return 2**(a + b + 1) * betafn(a + 1, b + 1)


def basis_scale(fam, n):
    """Factor from the exact basis to the library's."""
    if fam['f'] == 'H':
        return np.array([1 / math.sqrt(math.sqrt(math.pi) * 2**k * math.factorial(k)) for k in range(n)])
    return np.ones(n)


def params(fam):
    f = fam['f']
    fnum = lambda s: int(Fraction(s)) if Fraction(s).denominator == 1 else float(Fraction(s))
    if f == 'Q':
        return dict(alpha=num(fam['al']))
    if f == 'J':
        return dict(alpha=fnum(fam['al']), beta=fnum(fam['be']))
    if f == 'W':
        return dict(lambda_=num(fam['al']) + sp.Rational(1, 2))
    return {}


def quad_exact(space, N):
    return 2 * N - 3 if space.quad == 'GL' or (space.family() == 'chebyshevu' and space.quad == 'GC') else 2 * N - 1


def module(f):
    return importlib.import_module('shenfun.%s.bases' % MOD[f])


GENERIC = {
    'La': [{'left': {'D': 0}}, {'left': {'N': 0}}],
    None: [{'left': {'D': 0}, 'right': {'D': 0}}, {'left': {'N': 0}, 'right': {'N': 0}}, {'left': {'D': 0}, 'right': {'N': 0}},
           {'left': {'D': 0, 'N': 0}, 'right': {'D': 0, 'N': 0}}, {'left': {'D': 0}, 'right': {'N2': 0, 'N3': 0, 'D': 0}},
           {'left': {'D': 0, 'N2': 0}, 'right': {'D': 0, 'N2': 0}}, {'left': {'R': (1, 0)}, 'right': {'R': (2, 0)}},
           {'left': {'D': 0, 'N': 0}}, {'right': {'D': 0, 'N': 0}}, {'left': {'W': (1, 0)}, 'right': {'D': 0}},
           {'left': {'D': 0, 'N': 0, 'N2': 0}, 'right': {'D': 0, 'N': 0, 'N2': 0}}, {'left': {'N': 0}, 'right': {'D': 0, 'N2': 0}}]}
# smallest size at which a space of this name is supposed to work
MINN = dict(SP=7, C3=9, C4=11, P1=6, P2=8, P3=10, P4=12, P6=16, SB=9, C2=7, BF=7, W2=7, HH=6, PD=6)


def classes(f):
    m = module(f)
    return [n for n in m.bases + m.testbases if n != 'BCGeneric']


def kwargs_for(f, dom=None, quad=None):
    k = {}
    if f not in ('La', 'H'):
        if dom is not None:
            from shenfun.spectralbase import Domain
            k['domain'] = Domain(*dom)
        if quad is not None:
            k['quad'] = quad
    return k


def make(f, name, N, fam, dom=None, quad=None, **extra):
    cls = getattr(module(f), name)
    k = dict(kwargs_for(f, dom, quad), **params(fam))
    k.update(extra)
    return cls(N, **k)


def catalogue(f):
    """(class name, extra keywords, smallest N) of every space of the family."""
    out = []
    for n in classes(f):
        c = getattr(module(f), n)
        mn = MINN.get(c.short_name(), 5)
        if n == 'Generic':
            # the library's symbolic stencils take minutes for some families
            for bc in GENERIC.get(f, GENERIC[None])[:dict(J=1, W=1, Q=2, U=6).get(f)]:
                nb = sum(len(v) for v in bc.values())
                out.append((n, dict(bc=bc), 4 + nb))
        else:
            out.append((n, {}, mn))
            if 'scaled' in c.__init__.__code__.co_varnames:
                out.append((n, dict(scaled=True), mn))
    return out


def stencil(space):
    """Dense matrix whose rows are the coefficients of the basis functions."""
    if space.is_orthogonal:
        return np.eye(space.N)
    K = space.stencil_matrix()
    K.shape = (space.dim(), space.N)
    D = np.array(K.diags('csr').todense())
    K.shape = (space.N, space.N)
    return D[:space.dim()]
