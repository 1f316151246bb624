"""The documented finite-element spaces, built independently of FIAT.

space(spec) returns g(points) -> array (nfun, *value_shape, npts) whose rows
span the documented space (possibly redundantly).
"""
import itertools

import numpy as np

from fiatmon import catalog as C
from fiatmon import geom, poly


def P(cell, k, pts):
    """total degree k"""
    lo, hi = geom.bbox(cell)
    if k < 0:
        return np.zeros((0, len(pts)))
    return poly.Basis(lo, hi, k).eval(pts)


def bary(cell, pts):
    v = geom.ref_vertices(cell)
    A = np.vstack([v.T, np.ones(len(v))])
    return np.linalg.solve(A, np.vstack([np.asarray(pts, float).reshape(-1, v.shape[1]).T, np.ones(len(pts))]))


def vec(S, d):
    """(n, npts) -> all vector fields (n*d, d, npts)"""
    n, q = S.shape
    out = np.zeros((n * d, d, q))
    for i in range(d):
        out[i * n:(i + 1) * n, i] = S
    return out


def sym(S, d):
    n, q = S.shape
    out = []
    for i in range(d):
        for j in range(i, d):
            E = np.zeros((n, d, d, q))
            E[:, i, j] = S
            E[:, j, i] = S
            out.append(E)
    return np.concatenate(out)


def rt(cell, k, pts):
    d = geom.sdim(cell)
    x = np.asarray(pts, float).T
    S = P(cell, k - 1, pts)
    return np.concatenate([vec(S, d), x[None] * S[:, None]])


def ned(cell, k, pts):
    d = geom.sdim(cell)
    x = np.asarray(pts, float).T
    S = P(cell, k - 1, pts)
    if d == 2:
        r = np.array([x[1], -x[0]])
        return np.concatenate([vec(S, 2), r[None] * S[:, None]])
    V = vec(S, 3)
    return np.concatenate([V, np.cross(np.broadcast_to(x[None], V.shape), V, axis=1)])


def bubble(cell, k, pts):
    lam = bary(cell, pts)
    return np.prod(lam, axis=0) * P(cell, k - len(lam), pts)


def lattice(d, k):
    """all multi-indices summing to k in d+1 variables"""
    return poly.mis(d + 1, k)


def facet_bubble(cell, k, pts):
    """equispaced Lagrange functions attached to facet interiors"""
    d = geom.sdim(cell)
    v = geom.ref_vertices(cell)
    nod = [np.array(a) for a in lattice(d, k)]
    X = np.array([(a / k) @ v for a in nod])
    V = P(cell, k, X)
    keep = [i for i, a in enumerate(nod) if np.sum(a == 0) == 1]
    L = np.linalg.solve(V, P(cell, k, pts))
    return L[keep]


def kmv(cell, k, pts):
    d = geom.sdim(cell)
    out = [P(cell, k, pts)]
    lam = bary(cell, pts)
    if d == 2 and k > 1:
        out.append(bubble(cell, k + (2 if k == 5 else 1), pts))
    if d == 3 and k > 1:
        for f in range(4):
            b = np.prod(np.delete(lam, f, axis=0), axis=0)
            out.append(b * P(cell, k + 1 - 3, pts))
        out.append(bubble(cell, k + 2, pts))
    return np.concatenate(out)


def sldeg(e):
    return sum(x for x in e if x > 1)


def serendipity(cell, r, pts):
    d = geom.sdim(cell)
    x = 2 * np.asarray(pts, float).T - 1
    es = [e for o in range(r + d + 1) for e in poly.mis(d, o) if sldeg(e) <= r or sum(e) <= r]
    out = np.ones((len(es), len(pts)))
    from numpy.polynomial import legendre as L
    # Legendre products span the same space: superlinear-degree sets are closed downwards
    for j, e in enumerate(es):
        for i in range(d):
            c = np.zeros(e[i] + 1)
            c[-1] = np.sqrt(2 * e[i] + 1)
            out[j] *= L.legval(x[i], c)
    return out


def constrained(full, rows, pts):
    """the subspace of `full` (callable) on which the linear conditions vanish;
    rows: array (nfun, ncond) of condition values of the spanning functions"""
    N = poly.nullspace(rows.T)
    return np.tensordot(N, full(pts), axes=1)


def edges2d(cell):
    v = geom.ref_vertices(cell)
    for a, b in [(0, 1), (0, 2), (1, 2)]:
        t = v[b] - v[a]
        yield v[a], v[b], t, np.array([t[1], -t[0]])


def high_moments(f1d, deg, top):
    """rows of edge traces (nfun, npts at Gauss pts s) against Legendre polynomials deg+1..top"""


def edge_condition(cell, full, trace, keep, top):
    """conditions: on each edge the scalar trace has degree <= keep"""
    s, w = poly.gauss01(top + 2)
    from numpy.polynomial import legendre as L
    rows = []
    for a, b, t, n in edges2d(cell):
        pts = a + np.outer(s, b - a)
        T = trace(full(pts), pts, n, t)
        for j in range(keep + 1, top + 1):
            c = np.zeros(j + 1)
            c[-1] = 1
            rows.append((T * (w * L.legval(2 * s - 1, c))).sum(axis=-1))
    return np.array(rows).T


def grad_P(cell, k, pts):
    d = geom.sdim(cell)
    lo, hi = geom.bbox(cell)
    B = poly.Basis(lo, hi, k)
    return np.stack([B.eval(pts, tuple(int(i == j) for j in range(d))) for i in range(d)], axis=1)


def bdfm(cell, pts):
    full = lambda p: vec(P(cell, 2, p), 2)
    R = edge_condition(cell, full, lambda V, p, n, t: np.einsum("fcq,c->fq", V, n), 1, 2)
    return constrained(full, R, pts)


def bell18(cell, pts):
    full = lambda p: P(cell, 5, p)
    R = edge_condition(cell, full, lambda V, p, n, t: np.einsum("fcq,c->fq", grad_P(cell, 5, p), n), 3, 4)
    return constrained(full, R, pts)


def div_sym(cell, k, pts):
    G = grad_P(cell, k, pts)
    n, d, q = G.shape
    out = []
    for i in range(2):
        for j in range(i, 2):
            E = np.zeros((n, 2, q))
            E[:, i] += G[:, j]
            if i != j:
                E[:, j] += G[:, i]
            out.append(E)
    return np.concatenate(out)


def interior_condition(cell, vals, keep, top):
    """conditions: a field (callable -> (nfun, ..., npts)) has components of degree <= keep"""
    pts, w = geom.cell_rule(cell, 2 * top + 1)
    V = vals(pts)
    V = V.reshape(V.shape[0], -1, V.shape[-1])
    lowb = poly.orth(P(cell, keep, pts) * np.sqrt(w))
    X = V * np.sqrt(w)
    X = X - (X @ lowb.T) @ lowb
    return X.reshape(X.shape[0], -1)


def aw24(cell, pts):
    full = lambda p: sym(P(cell, 3, p), 2)
    R = interior_condition(cell, lambda p: div_sym(cell, 3, p), 1, 3)
    return constrained(full, R, pts)


def awnc15(cell, pts):
    full = lambda p: sym(P(cell, 2, p), 2)
    R = edge_condition(cell, full, lambda V, p, n, t: np.einsum("fabq,a,b->fq", V, n, n), 1, 2)
    return constrained(full, R, pts)


def mtw9(cell, pts):
    full = lambda p: vec(P(cell, 3, p), 2)

    def div(p):
        G = grad_P(cell, 3, p)
        return np.concatenate([G[:, 0], G[:, 1]])[:, None]
    R = np.hstack([interior_condition(cell, div, 0, 3),
                   edge_condition(cell, full, lambda V, p, n, t: np.einsum("fcq,c->fq", V, n), 1, 3)])
    return constrained(full, R, pts)


CONSTRAINED_FIRST = {"Bell": (18, bell18), "AW": (24, aw24), "AWnc": (15, awnc15), "MTW": (9, mtw9)}


def known(spec):
    k = spec[0]
    if k in ("Res",):
        return False
    if k in C.COMPOSITE:
        return all(known(s) for s in spec[1:])
    return k not in ("HDT", "QE")


def tp_outer(a, b):
    """(n, [c], q), (m, [c], q) -> (n*m, [c], q)"""
    if a.ndim == 3:
        return (a[:, None] * b[None, :, None]).reshape((-1,) + a.shape[1:])
    if b.ndim == 3:
        return (a[:, None, None] * b[None, :]).reshape((-1,) + b.shape[1:])
    return (a[:, None] * b[None, :]).reshape(-1, a.shape[-1])


def space(spec, pts):
    pts = np.asarray(pts, float).reshape(len(pts), -1)
    k = spec[0]
    if k in ("Flat", "Disc"):
        return space(spec[1], pts)
    if k in ("Enr", "NEnr"):
        return np.concatenate([space(s, pts) for s in spec[1:]])
    if k == "Mix":
        parts = [space(s, pts) for s in spec[1:]]
        parts = [p.reshape(p.shape[0], -1, p.shape[-1]) for p in parts]
        n, c = sum(p.shape[0] for p in parts), sum(p.shape[1] for p in parts)
        out = np.zeros((n, c, len(pts)))
        i = j = 0
        for p in parts:
            out[i:i + p.shape[0], j:j + p.shape[1]] = p
            i += p.shape[0]
            j += p.shape[1]
        return out
    if k == "TP":
        da = geom.sdim(C.cell_of(spec[1]))
        return tp_outer(space(spec[1], pts[:, :da]), space(spec[2], pts[:, da:]))
    if k in ("Hdiv", "Hcurl"):
        A, B = spec[1][1], spec[1][2]
        da, db = geom.sdim(C.cell_of(A)), geom.sdim(C.cell_of(B))
        sd = da + db
        v = space(spec[1], pts)
        out = np.zeros((v.shape[0], sd, len(pts)))
        if v.ndim == 2:
            # scalar x scalar: the 0-form (Hdiv) / 1-form (Hcurl) factor names the direction
            fa = form_of(A, da)
            first = fa == 0 if k == "Hdiv" else fa == 1
            if k == "Hcurl" and da == 1 and db == 1 or k == "Hdiv":
                pass
            out[:, 0 if first else -1] = v
            return out
        inA = is_vector(A)
        other = map_of(A if inA else B)
        want = "div" if k == "Hdiv" else "curl"
        w = v
        if other != want:
            w = np.stack([v[:, 1], -v[:, 0]], axis=1)     # a rotation: same span up to sign
        if inA:
            out[:, :da] = w
        else:
            out[:, da:] = w
        return out
    return simple_space(spec, pts)


def is_vector(spec):
    return spec[0] in ("RT", "N1", "BDM", "N2", "DRT", "BDFM", "Hdiv", "Hcurl", "MTW") or \
        spec[0] in ("TP", "Enr", "Flat", "Disc") and any(is_vector(s) for s in spec[1:])


def map_of(spec):
    if spec[0] in ("RT", "BDM", "DRT", "BDFM", "Hdiv", "MTW"):
        return "div"
    if spec[0] in ("N1", "N2", "Hcurl"):
        return "curl"
    return map_of(spec[1])


def form_of(spec, d):
    """form degree of a scalar family on a d-dimensional cell"""
    if spec[0] == "TP":
        da = geom.sdim(C.cell_of(spec[1]))
        return form_of(spec[1], da) + form_of(spec[2], d - da)
    if spec[0] in ("DG", "GL", "GR", "P0", "DT", "DPC"):
        return d
    return 0


def simple_space(spec, pts):
    fam, cell = spec[0], spec[1]
    a = spec[2:]
    d = geom.sdim(cell)
    if fam in ("Lag", "DG", "GLL", "GL", "GR", "DT", "Bern", "Arg", "DPC", "CR"):
        return P(cell, a[0], pts)
    if fam == "P0":
        return P(cell, 0, pts)
    if fam == "Her":
        return P(cell, 3, pts)
    if fam == "Mor":
        return P(cell, 2, pts)
    if fam in ("QArg", "Bell"):
        return P(cell, 5, pts)
    if fam == "KMV":
        return kmv(cell, a[0], pts)
    if fam == "S":
        return serendipity(cell, a[0], pts)
    if fam in ("RT", "DRT"):
        return rt(cell, a[0], pts)
    if fam == "N1":
        return ned(cell, a[0], pts)
    if fam in ("BDM", "N2"):
        return vec(P(cell, a[0], pts), d)
    if fam == "BDFM":
        return bdfm(cell, pts)
    if fam in ("Reg", "HHJ"):
        return sym(P(cell, a[0], pts), d)
    if fam == "AW":
        return sym(P(cell, 3, pts), 2)
    if fam == "AWnc":
        return sym(P(cell, 2, pts), 2)
    if fam == "MTW":
        return vec(P(cell, 3, pts), 2)
    if fam == "Bub":
        return bubble(cell, a[0], pts)
    if fam == "FBub":
        return facet_bubble(cell, a[0], pts)
    raise KeyError(fam)


def formula(spec):
    """closed dimension formula where the literature gives one, else None"""
    if spec[0] in C.COMPOSITE:
        if spec[0] in ("Flat", "Disc", "Hdiv", "Hcurl"):
            return formula(spec[1])
        if spec[0] == "Res":
            return None
        f = [formula(s) for s in spec[1:]]
        if None in f:
            return None
        return f[0] * f[1] if spec[0] == "TP" else sum(f)
    fam, cell = spec[0], spec[1]
    d = geom.sdim(cell)
    a = spec[2:]
    D = poly.dim_P
    if fam in ("Lag", "DG", "GLL", "GL", "GR", "DT", "Bern", "Arg", "DPC", "CR"):
        return D(d, a[0])
    if fam in ("P0", "Her", "Mor", "QArg", "Bell"):
        return D(d, {"P0": 0, "Her": 3, "Mor": 2}.get(fam, 5))
    if fam in ("RT", "DRT"):
        k = a[0]
        return k * (k + 2) if d == 2 else k * (k + 1) * (k + 3) // 2
    if fam == "N1":
        k = a[0]
        return k * (k + 2) if d == 2 else k * (k + 2) * (k + 3) // 2
    if fam in ("BDM", "N2"):
        return d * D(d, a[0])
    if fam in ("Reg", "HHJ"):
        return d * (d + 1) // 2 * D(d, a[0])
    if fam == "Bub":
        return D(d, a[0] - d - 1)
    if fam == "FBub":
        return (d + 1) * (D(d - 1, a[0] - d) if d > 1 else 1)
    if fam == "KMV":
        return {2: {1: 3, 2: 7, 3: 12, 4: 18, 5: 30}, 3: {1: 4, 2: 15, 3: 32}}[d][a[0]]
    if fam == "S":
        r = a[0]
        return sum(1 for o in range(r + d + 1) for e in poly.mis(d, o) if sldeg(e) <= r or sum(e) <= r)
    return {"AW": 30, "AWnc": 18, "MTW": 20, "BDFM": 9}[fam]
