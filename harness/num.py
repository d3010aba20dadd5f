"""Conversion of the specification's exact values, and tolerant comparison."""
from fractions import Fraction
import numpy as np


def fr(s):
    return Fraction(s)


def fl(s):
    return float(Fraction(s))


def arr(x):
    """Nested lists of "n/d" strings (or integers) as a float array."""
    if isinstance(x, (str, int)):
        return fl(x)
    return np.array([arr(y) for y in x], dtype=float)


def close(a, b, rtol=1e-10, scale=None, atol=0.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    s = scale if scale is not None else max(1e-300, float(np.abs(b).max()))
    d = np.abs(a - b)
    return bool(np.all(np.isfinite(d)) and d.max() <= rtol * s + atol)


def diff(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return 'shape %s instead of %s' % (a.shape, b.shape)
    if a.size == 0:
        return ''
    d = np.abs(a - b)
    i = np.unravel_index(np.argmax(np.where(np.isfinite(d), d, np.inf)), d.shape) if d.ndim else ()
    return 'max difference %.3g at %s: got %r, expected %r' % (float(d[i]), tuple(int(x) for x in i), a[i].item(), b[i].item())


def snapshot(x):
    return np.array(x, copy=True)
