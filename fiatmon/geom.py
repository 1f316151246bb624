"""Cells of the workload and an independent view of their geometry."""
import itertools

import numpy as np

from fiatmon import poly

FIAT = None


def _fiat():
    global FIAT
    if FIAT is None:
        import FIAT as F
        FIAT = F
    return FIAT


NAMES = {"pt": "Point", "I": "UFCInterval", "T": "UFCTriangle", "Tet": "UFCTetrahedron",
         "DI": "DefaultLine", "DT": "DefaultTriangle", "DTet": "DefaultTetrahedron",
         "IT": "IntrepidTriangle", "ITet": "IntrepidTetrahedron",
         "Q": "UFCQuadrilateral", "H": "UFCHexahedron"}
SD = {"pt": 0, "I": 1, "T": 2, "Tet": 3, "DI": 1, "DT": 2, "DTet": 3, "IT": 2, "ITet": 3, "Q": 2, "H": 3}


def make_cell(c):
    """c: a key of NAMES, ["TP", c1, c2, ...] or ["V", base, vertices]"""
    R = _fiat().reference_element
    if isinstance(c, str):
        return getattr(R, NAMES[c])()
    if c[0] == "TP":
        return R.TensorProductCell(*[make_cell(x) for x in c[1:]])
    if c[0] == "V":
        cell = getattr(R, NAMES[c[1]])()
        cell.vertices = tuple(tuple(float(z) for z in v) for v in c[2])
        return cell
    raise ValueError(c)


def sdim(c):
    if isinstance(c, str):
        return SD[c]
    if c[0] == "TP":
        return sum(sdim(x) for x in c[1:])
    return SD[c[1]]


def cellname(c):
    if isinstance(c, str):
        return c
    if c[0] == "TP":
        return "(" + "x".join(cellname(x) for x in c[1:]) + ")"
    return c[1] + "*"


def is_simplex(c):
    return isinstance(c, str) and c not in ("Q", "H") or (not isinstance(c, str) and c[0] == "V")


def ref_vertices(c):
    """independent table of the documented vertex coordinates"""
    if isinstance(c, str):
        d = SD[c]
        if c in ("DI", "DT", "DTet"):
            base = -np.ones((d + 1, d))
            for i in range(d):
                base[i + 1, i] = 1
            return base
        if c in ("Q", "H"):
            return np.array(list(itertools.product((0., 1.), repeat=d)))
        base = np.zeros((d + 1, d))
        for i in range(d):
            base[i + 1, i] = 1
        return base
    if c[0] == "V":
        return np.array(c[2], float)
    vs = [ref_vertices(x) for x in c[1:]]
    return np.array([np.concatenate(t) if len(t) else [] for t in itertools.product(*vs)])


def bbox(c):
    v = ref_vertices(c)
    return v.min(axis=0), v.max(axis=0)


def factors(c):
    """simplex factors of a cell, as vertex arrays, in coordinate order"""
    if isinstance(c, str):
        if c in ("Q", "H"):
            return [ref_vertices("I")] * SD[c]
        return [ref_vertices(c)]
    if c[0] == "V":
        return [np.array(c[2], float)]
    return [f for x in c[1:] for f in factors(x)]


def product_rule(facs, deg):
    """Gauss rule on a product of simplices, exact to degree deg per factor"""
    rules = [poly.simplex_rule(f, deg) for f in facs]
    pts = np.array([np.concatenate(t) for t in itertools.product(*[r[0] for r in rules])])
    wts = np.array([np.prod(t) for t in itertools.product(*[r[1] for r in rules])])
    return pts, wts


def cell_rule(c, deg):
    return product_rule(factors(c), deg)


def random_points(c, n, rng, spread=0.0):
    """uniform points in the cell (spread>0: dilated about the centroid)"""
    out = []
    for _ in range(n):
        p = []
        for f in factors(c):
            lam = rng.exponential(size=len(f)) if len(f) > 1 else np.ones(1)
            lam = lam / lam.sum()
            x = lam @ f
            if spread:
                x = x + spread * (x - f.mean(axis=0))
            p.append(x)
        out.append(tuple(float(z) for z in np.concatenate(p)))
    return out


# -- entities -----------------------------------------------------------
def entity_factors(cell, dim, ent):
    """vertex arrays (in the coordinates of the factor) of the factor entities
    whose product is entity (dim, ent) of a FIAT cell object"""
    cells = getattr(cell, "cells", None)
    if cells is None and hasattr(cell, "product"):
        dim, ent = cell.unflattening_map[(dim, ent)]
        return entity_factors(cell.product, dim, ent)
    if cells is not None:
        shape = tuple(len(c.get_topology()[d]) for c, d in zip(cells, dim))
        idx = np.unravel_index(ent, shape)
        return [f for c, d, i in zip(cells, dim, idx) for f in entity_factors(c, d, int(i))]
    vids = cell.get_topology()[dim][ent]
    V = [np.asarray(cell.get_vertices()[i], float) for i in vids]
    return [np.array(V).reshape(len(vids), -1)]


def entity_rule(cell, dim, ent, deg):
    """points in cell coordinates and weights on an entity (own maps)"""
    facs = entity_factors(cell, dim, ent)
    return product_rule(facs, deg)


def entity_vertices(cell, dim, ent):
    return np.array([np.asarray(cell.get_vertices()[i], float) for i in cell.get_topology()[dim][ent]])


def entities(cell):
    """all (dim, ent), sorted"""
    top = cell.get_topology()
    return [(d, e) for d in sorted(top) for e in sorted(top[d])]


def tdim(dim):
    """total dimension of a (possibly nested tuple) entity dimension"""
    if isinstance(dim, tuple):
        return sum(tdim(x) for x in dim)
    return dim


def celldim(cell):
    return cell.get_dimension()


def entity_dim_lengths(cell, dim):
    return dim


def sub_ref_rule_points(cell, dim, n, rng):
    """random points in the reference coordinates of the sub-entity cell"""
    sub = cell.construct_subelement(dim)
    return random_points_of(sub, n, rng)


def cell_factors_obj(cell):
    cells = getattr(cell, "cells", None)
    if cells is None and hasattr(cell, "product"):
        cells = cell.product.cells
    if cells is not None:
        return [f for c in cells for f in cell_factors_obj(c)]
    return [np.array([np.asarray(v, float) for v in cell.get_vertices()]).reshape(len(cell.get_vertices()), -1)]


def random_points_of(cell, n, rng, spread=0.0):
    out = []
    facs = cell_factors_obj(cell)
    for _ in range(n):
        p = []
        for f in facs:
            lam = rng.exponential(size=len(f)) if len(f) > 1 else np.ones(1)
            lam = lam / lam.sum()
            x = lam @ f
            if spread:
                x = x + spread * (x - f.mean(axis=0))
            p.append(x)
        out.append(tuple(float(z) for z in np.concatenate(p)))
    return out


def in_hull(c, x, tol):
    """is x in the closed cell, up to tol (own barycentric coordinates)"""
    x = np.asarray(x, float)
    o = 0
    for f in factors(c):
        d = f.shape[1]
        y = x[o:o + d]
        o += d
        if d == 0:
            continue
        lam = np.linalg.solve(np.vstack([f.T, np.ones(len(f))]), np.append(y, 1.0))
        if lam.min() < -tol:
            return False
    return True


# -- arbitrary simplices --------------------------------------------------
FORCED = {}


def siblings(base, rng, sizes=()):
    """cells that share vertices, orientation, volume or centre with one another and the base cell (a cache keyed by too little confuses them)"""
    V = ref_vertices(base)
    d = SD[base]
    W = np.array(random_simplex(base, rng)[2])
    out = [V, W - W[0] + V[0]]
    det = lambda X: abs(np.linalg.det(X[1:] - X[0]))
    diam = max(np.linalg.norm(a - b) for a in V for b in V)
    for k in (len(V) - 1, 0):
        while True:                 # one vertex moved
            X = V.copy()
            X[k] = X[k] + rng.normal(size=d) * 0.4 * diam
            if 0.4 * det(V) < det(X) < 3 * det(V) and abs(det(X) - det(V)) > 0.1 * det(V):
                break
        out.append(X)
    S = np.eye(d) + np.triu(rng.uniform(-0.8, 0.8, size=(d, d)), 1)
    if d == 1:
        S = -S
    out.append(V.mean(axis=0) + (V - V.mean(axis=0)) @ S.T)          # same volume, same centre
    out.append(np.array(out[2])[np.roll(np.arange(d + 1), 1)])       # same vertices in another order
    out = [np.round(X, 6) for X in out]
    for z in sizes:                  # far from unit size
        out.append((out[2] - out[2][0]) * z)
    return [["V", base, X.tolist()] for X in out]


def random_simplex(base, rng, orient=None, cond=2.0, scale=(0.5, 2.0), offset=1.0):
    """an affine image of the base cell with bounded condition number"""
    if base in FORCED:
        return FORCED[base]
    d = SD[base]
    v = ref_vertices(base)
    while True:
        A = rng.normal(size=(d, d))
        u, s, vt = np.linalg.svd(A)
        s = np.exp(rng.uniform(-np.log(cond) / 2, np.log(cond) / 2, size=d))
        A = u @ np.diag(s) @ vt * np.exp(rng.uniform(np.log(scale[0]), np.log(scale[1])))
        if orient is not None and np.sign(np.linalg.det(A)) != orient:
            A[:, 0] *= -1
        b = rng.uniform(-1, 1, size=d) * offset
        w = v @ A.T + b
        w = np.round(w, 6 if scale[0] > 1e-4 else 13 if scale[0] > 1e-7 else 20)
        return ["V", base, w.tolist()]


def is_ufc(c):
    return isinstance(c, str) and c in ("pt", "I", "T", "Tet", "Q", "H") or (not isinstance(c, str) and c[0] == "V")
