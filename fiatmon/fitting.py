"""Exact polynomial models of tabulated bases, from order-zero values only."""
import numpy as np

from fiatmon import catalog as C
from fiatmon import geom, poly


class Fit(object):
    """coef (nbf, *vs, n) such that f = coef . basis; resid = relative misfit at
    points that were not used"""

    def __init__(self, cell, K, f0, rng, extra=6):
        """f0(points) -> (nbf, *vs, npts)"""
        self.cell = cell
        facs = geom.factors(cell)
        lo, hi = geom.bbox(cell)
        self.basis = poly.Basis(lo, hi, K, fdims=[f.shape[1] for f in facs])
        rules = []
        pts, _ = geom.product_rule(facs, 2 * K + 1)
        chk = np.array(geom.random_points(cell, extra, rng))
        allp = np.vstack([pts, chk]) if len(chk) else pts
        vals = np.asarray(f0([tuple(float(z) for z in p) for p in allp]), dtype=float)
        self.coef = self.basis.fit(vals[..., :len(pts)], pts)
        pred = self.coef @ self.basis.eval(chk)
        self.scale = max(1e-300, float(np.max(np.abs(vals)))) if vals.size else 1.0
        self.resid = float(np.max(np.abs(pred - vals[..., len(pts):]))) / self.scale if vals.size else 0.0
        if not (self.resid == self.resid):
            self.resid = np.inf

    def eval(self, pts, alpha=None):
        return self.coef @ self.basis.eval(pts, alpha)


def fit_element(e, spec, rng, kmax_extra=4):
    """fit with the smallest K in degree..degree+kmax_extra that leaves no residual"""
    cell = C.cell_of(spec)
    sd = geom.sdim(cell)
    zero = (0,) * sd
    f0 = lambda p: e.tabulate(0, p)[zero]
    try:
        k = int(e.degree())
    except Exception:
        k = 0
        for x in (e.elements() if hasattr(e, "elements") else []):
            k = max(k, int(x.degree()))
    k = max(0, min(k, 14))
    best = None
    for extra in range(kmax_extra + 1):
        f = Fit(cell, k + extra, f0, rng)
        if best is None or f.resid < best.resid:
            best = f
        if f.resid < 1e-9:
            return f
    return best
