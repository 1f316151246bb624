"""Reference polynomial toolkit, written independently of FIAT."""
import itertools
from functools import lru_cache
from math import factorial

import numpy as np
from numpy.polynomial import legendre as L


def mis(d, order):
    """multi-indices of length d and total order exactly `order`"""
    if d == 0:
        return [()] if order == 0 else []
    if d == 1:
        return [(order,)]
    return [(i,) + r for i in range(order, -1, -1) for r in mis(d - 1, order - i)]


def mis_upto(d, order):
    return [a for o in range(order + 1) for a in mis(d, o)]


def _leg_table(n, x, der):
    """(n+1, npts) normalised Legendre derivatives at x"""
    out = np.zeros((n + 1, len(x)))
    for k in range(n + 1):
        c = np.zeros(k + 1)
        c[k] = np.sqrt(2 * k + 1.0)
        if der:
            c = L.legder(c, der) if der <= k else np.zeros(1)
        out[k] = L.legval(x, c)
    return out


class Basis(object):
    """Legendre products on a bounding box, of total degree K (K int) or with
    per-direction degrees (K tuple), or of degree K in each factor of a product
    of simplices (fdims = factor dimensions)."""

    def __init__(self, lo, hi, K, fdims=None):
        self.lo, self.hi = np.asarray(lo, float), np.asarray(hi, float)
        self.d = len(self.lo)
        self.K = K
        if fdims is not None:
            Ks = K if isinstance(K, tuple) else (K,) * len(fdims)
            per = [[e for o in range(k + 1) for e in mis(dd, o)] for dd, k in zip(fdims, Ks)]
            self.exps = [sum(t, ()) for t in itertools.product(*per)]
        elif isinstance(K, tuple):
            self.exps = list(itertools.product(*[range(k + 1) for k in K]))
        else:
            self.exps = [e for o in range(K + 1) for e in mis(self.d, o)]
        self.n = len(self.exps)
        self.Kmax = max(sum(e) for e in self.exps)

    def eval(self, pts, alpha=None):
        pts = np.asarray(pts, float).reshape(-1, self.d)
        if self.d == 0:
            return np.ones((1, len(pts)))
        alpha = alpha or (0,) * self.d
        tabs = []
        for i in range(self.d):
            n = max(e[i] for e in self.exps)
            h = self.hi[i] - self.lo[i]
            x = (2 * pts[:, i] - self.lo[i] - self.hi[i]) / h
            tabs.append(_leg_table(n, x, alpha[i]) * (2.0 / h) ** alpha[i])
        out = np.ones((self.n, len(pts)))
        for j, e in enumerate(self.exps):
            for i in range(self.d):
                out[j] *= tabs[i][e[i]]
        return out

    def fit(self, vals, pts):
        """vals (..., npts) -> coefficients (..., n) by least squares"""
        V = self.eval(pts)
        vals = np.asarray(vals, float)
        flat = vals.reshape(-1, vals.shape[-1])
        c = np.linalg.lstsq(V.T, flat.T, rcond=None)[0].T
        return c.reshape(vals.shape[:-1] + (self.n,))


@lru_cache(None)
def gauss01(m):
    x, w = L.leggauss(m)
    return (x + 1) / 2, w / 2


@lru_cache(None)
def unit_simplex_rule(d, m):
    """Collapsed Gauss rule on the unit simplex, exact to degree 2m-1-(d-1)
    (plain Gauss-Legendre in each Duffy direction)."""
    if d == 0:
        return np.zeros((1, 0)), np.ones(1)
    x, w = gauss01(m)
    pts, wts = [], []
    for idx in itertools.product(range(m), repeat=d):
        u = [x[i] for i in idx]
        ww = np.prod([w[i] for i in idx])
        p, rem = [], 1.0
        for k in range(d):
            p.append(u[k] * rem)
            ww = ww * (1 - u[k]) ** (d - 1 - k)
            rem = rem * (1 - u[k])
        pts.append(p)
        wts.append(ww)
    return np.array(pts), np.array(wts)


def simplex_rule(verts, deg):
    """points, weights exact to `deg` on the simplex with these vertices
    (weights in the intrinsic measure)"""
    verts = np.asarray(verts, float)
    if verts.size == 0:
        return np.zeros((1, verts.shape[1] if verts.ndim > 1 else 0)), np.ones(1)
    d = len(verts) - 1
    m = (deg + d + 1) // 2 + 1
    p, w = unit_simplex_rule(d, m)
    J = (verts[1:] - verts[0]).T
    vol = np.sqrt(abs(np.linalg.det(J.T @ J))) if d else 1.0
    return verts[0] + p @ J.T, w * vol


def simplex_monomial_integral(e):
    """exact integral of prod x_i^e_i over the unit simplex"""
    num = 1
    for k in e:
        num *= factorial(k)
    return num / factorial(sum(e) + len(e))


def dim_P(d, k):
    if k < 0:
        return 0
    r = 1
    for i in range(d):
        r = r * (k + 1 + i) // (i + 1)
    return r


def rank(A, tol=1e-9):
    if A.size == 0:
        return 0
    s = np.linalg.svd(A, compute_uv=False)
    return int(np.sum(s > tol * max(1e-300, s[0])))


def orth(A, tol=1e-10):
    """orthonormal basis of the row space"""
    if A.size == 0:
        return A.reshape(0, A.shape[-1])
    u, s, vt = np.linalg.svd(A, full_matrices=False)
    r = int(np.sum(s > tol * s[0])) if len(s) and s[0] > 0 else 0
    return vt[:r]


def nullspace(A, tol=1e-10):
    """rows spanning {c : A c = 0}"""
    u, s, vt = np.linalg.svd(np.atleast_2d(A))
    r = int(np.sum(s > tol * max(s[0], 1e-300))) if len(s) else 0
    return vt[r:]
