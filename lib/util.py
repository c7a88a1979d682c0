"""Shared helpers of the checks."""
import itertools
import warnings
import numpy as np
warnings.simplefilter("ignore")
from CADMium import Psgrid, Pssolver, Kohnsham, Partition, Inverter
import seam
import ref

_G, _R = {}, {}


def mkgrid(NP, NM, a, R, n, cache=True):
    """Real grid reaching out to radius ~R, stencil half width n."""
    k = (NP, tuple(NM), a, R, n)
    if cache and k in _G:
        return _G[k]
    g = Psgrid(NP, list(NM), a, np.arccosh(R / a), np.array(range(-n, n + 1)))
    g.initialize()
    if cache:
        _G[k] = g
    return g


def mkref(NP, NM, a, R, n):
    k = (NP, tuple(NM), a, R, n)
    if k not in _R:
        _R[k] = ref.Grid(NP, list(NM), a, np.arccosh(R / a), n)
    return _R[k]


def pair(gc):
    return mkgrid(*gc), mkref(*gc)


def dense(M):
    return M.toarray() if hasattr(M, "toarray") else np.asarray(M)


def err(x, y):
    """largest deviation relative to the size of the reference"""
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    if x.shape != y.shape:
        return np.inf
    if x.size == 0:
        return 0.0
    if not np.all(np.isfinite(x)):
        return np.inf
    return float(np.max(np.abs(x - y)) / max(1e-300, np.max(np.abs(y)), 1e-12))


def aerr(x, y):
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    if x.shape != y.shape:
        return np.inf
    if x.size == 0:
        return 0.0
    d = np.abs(x - y)
    return float(np.max(d)) if np.all(np.isfinite(d)) else np.inf


def close(x, y, tol=1e-8):
    return abs(float(x) - float(y)) <= tol * max(1.0, abs(float(y)))


def zeros_ext(ks):
    ks.vext = np.zeros_like(ks.vnuc)
    ks.vhxc = np.zeros_like(ks.vnuc)


G_TINY = [3, [3, 4], 0.7, 7.0, 2]        # 7 x 9  = 63 points
G_SMALL = [4, [4, 5], 0.7, 9.0, 4]       # 13 x 16 = 208 points
