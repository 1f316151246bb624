"""C19: collocated elements have diagonal lumped mass matrices of full accuracy."""
import numpy as np
from numpy.polynomial import legendre as L

from fiatmon import catalog as C
from fiatmon import geom, poly, spaces

RULE = ("one case = one collocated element (mass-lumping, spectral, and tensor products of them) with its companion rule, on one cell; nodes, "
        "weights, lumped mass matrix and exactness are judged; non-trivial = the element has at least two functions")
REQUIRED = {"oracle:nodes-are-the-points": 100, "oracle:positive-weights": 100, "oracle:diagonal": 100, "oracle:exactness": 100,
            "oracle:lumping-accuracy": 8, "oracle:not-more-points": 100, "oracle:weights-are-integrals": 70, "oracle:endpoints": 60,
            "rules on random intervals": 30}
ASSUMPTIONS = ["mass-lumping rules are judged on the reference cell, their only documented domain",
               "tolerance 1e-12 for spectral rules (growing with the number of points), 1e-9 for the tabulated mass-lumping rules"]

EXACT = {("T", 1): 1, ("T", 2): 3, ("T", 3): 5, ("T", 4): 7, ("T", 5): 10, ("Tet", 1): 1, ("Tet", 2): 3, ("Tet", 3): 5}
FAMS = {"GLL": (1, lambda k: 2 * k - 1), "GL": (0, lambda k: 2 * k + 1), "GR": (0, lambda k: 2 * k)}


def jobs(tier, seed):
    out = [{"key": "KMV[%s,%d]" % c, "kmv": list(c), "cost": 5 if c[0] == "Tet" else 2} for c in EXACT]
    top = 24 if tier == "quick" else 64
    degs = list(range(0, 13)) + [16, 20, 24] + ([32, 40, 48, 64] if tier != "quick" else [])
    for fam in FAMS:
        for k in degs:
            if FAMS[fam][0] <= k <= top:
                for c in ("I", "DI", "rnd+", "rnd-"):
                    out.append({"key": "%s[%s,%d]" % (fam, c, k), "line": [fam, c, k], "cost": 1 + k // 8})
    I = "I"
    for i, s in enumerate([["TP", ["GLL", I, 3], ["GLL", I, 2]], ["TP", ["GL", I, 2], ["GLL", I, 3]], ["TP", ["GL", I, 3], ["GR", I, 1]],
                           ["TP", ["TP", ["GLL", I, 2], ["GL", I, 1]], ["GR", I, 2]], ["TP", ["GLL", I, 1], ["TP", ["GL", I, 2], ["GLL", I, 2]]],
                           ["Flat", ["TP", ["GLL", I, 3], ["GLL", I, 4]]], ["Flat", ["TP", ["TP", ["GL", I, 1], ["GLL", I, 2]], ["GLL", I, 3]]],
                           ["TP", ["KMV", "T", 2], ["GLL", I, 2]], ["TP", ["KMV", "T", 3], ["GL", I, 1]], ["TP", ["GLL", I, 3], ["KMV", "T", 2]]]):
        out.append({"key": C.name(s), "product": s, "cost": 3})
    return out


def companion(spec, cell):
    """the rule documented to go with the element (public constructors)"""
    from FIAT import quadrature as Q
    import FIAT
    k = spec[0]
    if k == "Flat":
        return companion(spec[1], C.build(spec[1]).get_reference_element())
    if k == "TP":
        return Q.make_tensor_product_quadrature(companion(spec[1], cell.cells[0]), companion(spec[2], cell.cells[1]))
    deg = spec[2]
    if k == "KMV":
        return FIAT.create_quadrature(cell, deg, "KMV")
    if k == "GLL":
        return Q.GaussLobattoLegendreQuadratureLineRule(cell, deg + 1)
    if k == "GL":
        return Q.GaussLegendreQuadratureLineRule(cell, deg + 1)
    return Q.RadauQuadratureLineRule(cell, deg + 1)


def judge(m, e, q, cellspec, tol, key):
    sd = geom.sdim(cellspec)
    pts = np.array([np.ravel(np.asarray(p, float)) for p in q.get_points()]).reshape(-1, sd)
    w = np.asarray(q.get_weights(), float)
    n = e.space_dimension()
    m.check("not-more-points", len(pts) == n == len(w), key, lambda: "%d points, %d weights, dimension %d" % (len(pts), len(w), n), nontrivial=n > 1)
    if len(pts) != n or len(w) != n:
        return None
    node = []
    for ell in e.dual_basis():
        d = [(p, v) for p, v in ell.get_point_dict().items() if any(x[0] != 0 for x in v)]
        ok = len(d) == 1 and len(d[0][1]) == 1 and abs(d[0][1][0][0] - 1) < 1e-13
        if not ok:
            m.check("nodes-are-the-points", False, key, "a node is not a point value: %r" % (ell.get_point_dict(),))
            return None
        node.append(np.ravel(np.asarray(d[0][0], float)))
    scale = max(1.0, float(np.abs(pts).max()))
    m.close("nodes-are-the-points", np.array(node), pts, 1e-13, what=key, scale=scale, nontrivial=n > 1)
    m.check("positive-weights", bool(np.all(w > 0)), key, lambda: "smallest weight %.17g" % w.min(), nontrivial=n > 1,
            sample={"min_weight": float(w.min()), "dimension": n})
    V = np.asarray(e.tabulate(0, [tuple(p) for p in pts])[(0,) * sd], float)
    M = (V * w) @ V.T
    m.close("diagonal", M, np.diag(w), tol, what=key, scale=float(w.max()), nontrivial=n > 1)
    return pts, w


def run(job, m):
    rng = m.rng()
    if "kmv" in job:
        c, k = job["kmv"]
        spec = ["KMV", c, k]
        e = C.build(spec)
        r = judge(m, e, companion(spec, e.get_reference_element()), c, 1e-9, job["key"])
        if r is None:
            return
        pts, w = r
        for deg in range(EXACT[(c, k)] + 1):
            B = poly.Basis(*geom.bbox(c), deg)
            p, ww = geom.cell_rule(c, deg + 1)
            m.close("exactness", B.eval(pts) @ w, B.eval(p) @ ww, 1e-9, what=deg, scale=1.0)
        # Geevers-Mulder-van der Vegt: exact on P_{k-2} times the enriched space
        if k > 1:
            p, ww = geom.cell_rule(c, 2 * k + 6)
            f = lambda x: (spaces.P(c, k - 2, x)[:, None] * spaces.kmv(c, k, x)[None]).reshape(-1, len(x))
            m.close("lumping-accuracy", f(pts) @ w, f(p) @ ww, 1e-9, what=k, scale=1.0)
        # the row sums of the lumped and of the exact mass matrix agree on constants
        p, ww = geom.cell_rule(c, 2 * k + 6)
        V = np.asarray(e.tabulate(0, [tuple(x) for x in p])[(0,) * geom.sdim(c)], float)
        m.close("lumping-accuracy", w, V @ ww, 1e-9, what="weights are the integrals of the basis", scale=1.0)
        return
    if "line" in job:
        fam, c, k = job["line"]
        if c.startswith("rnd"):
            c = geom.random_simplex("I", rng, orient=1 if c.endswith("+") else -1)
            m.count("rules on random intervals")
        spec = [fam, c, k]
        e = C.build(spec)
        tol = 1e-12 * (1 + k)
        r = judge(m, e, companion(spec, e.get_reference_element()), c, tol, job["key"])
        if r is None:
            return
        pts, w = r
        deg = FAMS[fam][1](k)
        v = geom.ref_vertices(c)[:, 0]
        h = abs(v[1] - v[0])
        x = (2 * pts[:, 0] - v.sum()) / (v[1] - v[0])
        T = np.array([L.legval(x, np.eye(deg + 1)[j]) for j in range(deg + 1)])
        want = np.zeros(deg + 1)
        want[0] = h
        m.close("exactness", T @ w, want, tol, what=deg, scale=h, nontrivial=k > 0)
        # weights are the integrals of the nodal functions
        p, ww = geom.cell_rule(c, k + 2)
        V = np.asarray(e.tabulate(0, [tuple(y) for y in p])[(0,)], float)
        m.close("weights-are-integrals", w, V @ ww, tol, what=k, scale=h, nontrivial=k > 0)
        ends = [float(np.min(np.abs(pts[:, 0] - z))) for z in v]
        if fam == "GLL":
            m.check("endpoints", max(ends) <= 1e-14 * max(1, np.abs(v).max()), k, lambda: "distance of the nodes to the end points: %s" % ends)
            ids = e.entity_dofs()
            for i in (0, 1):
                j, = ids[0][i]
                m.check("endpoints", abs(pts[j, 0] - v[i]) <= 1e-13 * max(1, np.abs(v).max()), i,
                        lambda: "the dof of vertex %d is at %.17g, not %.17g" % (i, pts[j, 0], v[i]))
        elif fam == "GR":
            m.check("endpoints", ends[1] <= 1e-14 * max(1, np.abs(v).max()) and (k == 0 or ends[0] > 1e-6 * h), k,
                    lambda: "distance of the nodes to the end points: %s" % ends)
        else:
            m.check("endpoints", min(ends) > 1e-6 * h, k, lambda: "a Gauss-Legendre node is at an end point")
        return
    spec = job["product"]
    e = C.build(spec)
    cell = C.cell_of(spec)
    r = judge(m, e, companion(spec, e.get_reference_element()), cell, 1e-9, job["key"])
    if r is None:
        return
    pts, w = r

    def leaves(s):
        return [x for t in s[1:] for x in leaves(t)] if s[0] in ("TP", "Flat") else [s]
    Ks = tuple(EXACT[(s[1], s[2])] if s[0] == "KMV" else FAMS[s[0]][1](s[2]) for s in leaves(spec))
    B = poly.Basis(*geom.bbox(cell), Ks, fdims=[f.shape[1] for f in geom.factors(cell)])
    p, ww = geom.cell_rule(cell, max(Ks) + 1)
    m.close("exactness", B.eval(pts) @ w, B.eval(p) @ ww, 1e-9, what=Ks, scale=1.0)
