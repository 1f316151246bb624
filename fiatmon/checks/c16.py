"""C16: trace elements are supported and tabulated facet by facet."""
import itertools

import numpy as np

from fiatmon import catalog as C
from fiatmon import geom, poly

RULE = ("one case = trace element x facet x set of points (random, on the facet's boundary, perturbed by rounding) x way of asking (facet entity, "
        "cell coordinates): every row against the discontinuous Lagrange function of the facet, or zero; or one meaningless request whose answer "
        "must carry no numbers; non-trivial = the facet has at least one degree of freedom")
REQUIRED = {"oracle:facet-values": 250, "oracle:other-facets": 250, "oracle:cell-points": 150, "oracle:meaningless": 900, "oracle:nodal": 60,
            "oracle:complete": 200, "oracle:derivative-slots": 300}
ASSUMPTIONS = ["points on the plane of a facet but outside the cell are not judged",
               "points closer than 1e-12 (barycentric) to a facet count as on it, points further than 1e-8 as off it"]


def jobs(tier, seed):
    out = [{"key": C.name(s), "spec": s, "cost": geom.sdim(s[1]) * 3 + (s[2] if isinstance(s[2], int) else 4)} for s in C.trace_specs(tier)]
    for b in ("T", "Tet"):
        for k in range(0, 4):
            for rep in range(4 if tier == "quick" else 12):
                out.append({"key": "rnd%d:HDT[%s,%d]" % (rep, b, k), "random": b, "degree": k, "cost": 5})
    for c, d in [(["TP", "T", "I"], [3, 0]), (["TP", "I", "I"], [0, 2]), (["TP", "I", "I"], [3, 1]), (["TP", "I", "T"], [2, 0]), (["TP", "I", "T"], 1)]:
        s = ["HDT", c, d]
        if C.name(s) not in [o["key"] for o in out]:
            out.append({"key": C.name(s), "spec": s, "cost": 6})
    for k in (4, 5, 6):
        for b in ("T", "Tet"):
            s = ["HDT", b, k]
            if C.name(s) not in [o["key"] for o in out] and (k < 6 or b == "T"):
                out.append({"key": C.name(s), "spec": s, "cost": 20})
    for b in ("T", "Tet"):
        out.append({"key": "siblings:HDT[%s]" % b, "siblings": b, "sizes": [], "random": b, "degree": 1, "cost": 5})
    return out


def is_number_free(v):
    """an answer that cannot be mistaken for values"""
    if isinstance(v, BaseException):
        return True
    a = np.asarray(v)
    return a.dtype.kind == "f" and a.size > 0 and bool(np.all(np.isnan(a)))


def run(job, m):
    rng = m.rng()
    if "random" in job:
        spec = ["HDT", geom.random_simplex(job["random"], rng), job["degree"]]
    else:
        spec = job["spec"]
    c, deg = spec[1], spec[2]
    e = C.build(spec)
    cell = e.get_reference_element()
    sd = geom.sdim(c)
    z = (0,) * sd
    keys = lambda o: set(poly.mis_upto(sd, o))
    simplex = geom.is_simplex(c)
    facets = [(d, en) for d, en in geom.entities(cell) if geom.tdim(d) == sd - 1]
    others = [(d, en) for d, en in geom.entities(cell) if geom.tdim(d) != sd - 1]
    ed = e.entity_dofs()
    n = e.space_dimension()
    # -- layout
    used = []
    for d, en in geom.entities(cell):
        ids = list(ed[d][en])
        if (d, en) in facets:
            used += ids
            facs = geom.entity_factors(cell, d, en)
            want = dimension(facs, deg, c, d)
            m.check("layout", len(ids) == want and want > 0, (d, en), lambda: "%d degrees of freedom on facet %s, expected %d" % (len(ids), (d, en), want))
        else:
            m.check("layout", ids == [], (d, en), lambda: "degrees of freedom %s on %s, which is not a facet" % (ids, (d, en)))
    m.check("layout", sorted(used) == list(range(n)), "all", lambda: "facet degrees of freedom %s of %d" % (sorted(used), n))
    m.check("layout", e.value_shape() == () and list(e.mapping()) == ["affine"] * n and len(e.dual_basis()) == n, "metadata")

    node_pt = {}
    for i, L in enumerate(e.dual_basis()):
        (pt, wc), = L.get_point_dict().items()
        node_pt[i] = np.array(pt, float)
        m.check("nodal", len(wc) == 1 and wc[0][0] == 1.0, ("node", i), lambda: "node %d is %s" % (i, wc))

    for d, en in facets:
        ids = list(ed[d][en])
        facs = geom.entity_factors(cell, d, en)
        ref = [f for f in facs if len(f) > 1]
        loc_ref = [UNIT[len(f)] for f in ref]
        if c in ("DT", "DTet"):         # their facets are default cells
            loc_ref = geom.cell_factors_obj(cell.construct_subelement(d))
        rest = [i for i in range(n) if i not in set(ids)]
        # node positions in facet coordinates
        nl = []
        for i in ids:
            lam = bary(facs, node_pt[i])
            ok = all(l.min() > -1e-12 for l in lam) and np.allclose(image(facs, lam), node_pt[i], atol=1e-12)
            m.check("nodal", ok, ("on facet", d, en, i), lambda: "node %d at %s is not on facet %s" % (i, node_pt[i], (d, en)))
            nl.append(np.concatenate([l @ f for l, f in zip([l for l, g in zip(lam, facs) if len(g) > 1], loc_ref)]))
        nl = [tuple(float(x) for x in p) for p in nl]
        # nodality by the facet's own coordinates
        V = np.asarray(e.tabulate(0, nl, (d, en))[z], float)
        m.close("nodal", V[ids], np.eye(len(ids)), 1e-8, ("identity", d, en), scale=1.0)
        # a Lagrange basis through these nodes, built by the oracle
        fd = [f.shape[1] for f in loc_ref]
        K = degs(deg, c, d, cell)
        lo, hi = (-1.0, 1.0) if c in ("DT", "DTet") else (0.0, 1.0)
        B = poly.Basis(np.full(sum(fd), lo), np.full(sum(fd), hi), K, fdims=fd)
        A = B.eval(nl)
        m.check("complete", A.shape[0] == A.shape[1] and np.linalg.cond(A) < 1e8, ("unisolvent", d, en), lambda: "facet nodes do not determine the polynomials of the facet degree (%s)" % (A.shape,))
        if A.shape[0] != A.shape[1]:
            continue
        Ci = np.linalg.inv(A.T)             # columns: coefficients of the nodal functions
        for kind in ("random", "boundary", "rounding", "single", "outside"):
            lam = []
            for f in ref:
                l = rng.exponential(size=(1 if kind == "single" else 5, len(f)))
                l /= l.sum(axis=1)[:, None]
                if kind == "boundary":
                    l[0] = np.eye(len(f))[rng.randint(len(f))]
                    l[1, rng.randint(len(f))] = 0
                    l[1] /= l[1].sum()
                lam.append(l)
            loc = np.hstack([l @ f for l, f in zip(lam, loc_ref)])
            if kind == "outside":
                loc = loc * 1.4 - 0.2
            lp = [tuple(float(x) for x in p) for p in loc]
            want = (B.eval(loc).T @ Ci).T
            order = int(rng.randint(0, 3))
            T = e.tabulate(order, lp, (d, en))
            m.check("keys", set(T) == keys(order), (kind, d, en), lambda: "keys %s" % sorted(T))
            V = np.asarray(T[z], float)
            m.close("facet-values", V[ids], want, 1e-8, (kind, d, en), scale=max(1.0, np.abs(want).max()))
            m.check("other-facets", not rest or not np.any(V[rest]), (kind, d, en), lambda: "a function of another facet is not zero on %s" % ((d, en),))
            m.close("complete", V[ids].sum(axis=0), np.ones(len(lp)), 1e-8, ("partition", kind, d, en))
            slots(m, T, z, order, (kind, d, en))
            if not simplex or kind == "outside":
                continue
            # the same points in cell coordinates
            E = facs[0]
            cp = lam[0] @ E
            if kind == "rounding":
                cp = cp + rng.uniform(-1, 1, size=cp.shape) * 2e-14
            cpt = [tuple(float(x) for x in p) for p in cp]
            for how, P in (("tuples", cpt), ("array", np.array(cp))):
                o2 = order if how == "tuples" else 0
                T2 = e.tabulate(o2, P)
                m.check("keys", set(T2) == keys(o2), (kind, "cell", d, en), lambda: "keys %s" % sorted(T2))
                V2 = np.asarray(T2[z], float)
                m.close("cell-points", V2[ids], want, 1e-7, (kind, how, d, en), scale=max(1.0, np.abs(want).max()))
                m.check("other-facets", not rest or not np.any(V2[rest]), (kind, how, d, en), lambda: "a function of another facet is not zero on %s" % ((d, en),))
                slots(m, T2, z, o2, (kind, "cell", d, en))

    # -- requests without a meaning
    for order in (0, 1, 2):
        for d, en in others:
            P = geom.random_points_of(cell.construct_subelement(d), 2, rng) if geom.tdim(d) else [()]
            meaningless(m, e, order, P, (d, en), ("entity", d, en, order), keys)
        inside = geom.random_points(c, 4, rng)
        meaningless(m, e, order, inside, None, ("interior", order), keys)
        meaningless(m, e, order, inside[:1], None, ("one interior point", order), keys)
        for v in geom.ref_vertices(c):
            meaningless(m, e, order, [tuple(float(x) for x in v)], None, ("vertex", tuple(v), order), keys)
        # points on several facets, or on a facet and off it
        for (d1, e1), (d2, e2) in itertools.combinations(facets, 2):
            a = [image(geom.entity_factors(cell, dd, ee), [l / l.sum() for l in [rng.exponential(size=len(f)) for f in geom.entity_factors(cell, dd, ee)]])
                 for dd, ee in ((d1, e1), (d2, e2))]
            a = [tuple(float(x) for x in p) for p in a]
            meaningless(m, e, order, a, None, ("two facets", d1, e1, d2, e2, order), keys)
            meaningless(m, e, order, [a[0], inside[0]], None, ("facet and interior", d1, e1, order), keys)
            meaningless(m, e, order, [inside[0], a[1]], None, ("interior and facet", d2, e2, order), keys)
            near = np.array(a[0]) + 1e-6 * (np.array(inside[0]) - np.array(a[0]))
            meaningless(m, e, order, [tuple(float(x) for x in near)], None, ("near a facet", d1, e1, order), keys)
            if sd == 3 and simplex:
                sh = sorted(set(cell.get_topology()[d1][e1]) & set(cell.get_topology()[d2][e2]))
                V = geom.ref_vertices(c)[sh]
                mid = V.mean(axis=0)
                meaningless(m, e, order, [tuple(float(x) for x in mid)], None, ("edge shared by two facets", e1, e2, order), keys)
    for nm, fn in (("get_nodal_basis", lambda: e.get_nodal_basis()), ("get_coeffs", lambda: e.get_coeffs()), ("dmats", lambda: e.dmats()),
                   ("get_num_members", lambda: e.get_num_members(1))):
        m.raises("no-expansion", fn, nm)


def slots(m, T, z, order, what):
    for k in T:
        if k != z:
            m.check("derivative-slots", is_number_free(T[k]), (what, k), lambda: "derivative %s of a trace element was answered with %s" % (k, T[k]))
    if order == 0:
        m.observe("derivative-slots", (what, "none"))


def meaningless(m, e, order, P, entity, what, keys):
    m.observe("meaningless", what)
    try:
        T = e.tabulate(order, P, entity) if entity is not None else e.tabulate(order, P)
    except Exception as x:
        m.count("raised:" + type(x).__name__)
        return
    bad = [k for k in T if not is_number_free(T[k])]
    if bad or set(T) != keys(order):
        m.fail("meaningless", what, "answered %s at %s on %s" % (dict((k, T[k]) for k in bad) or sorted(T), P, entity))


UNIT = {1: np.zeros((1, 0)), 2: np.array([[0.], [1.]]), 3: np.array([[0., 0.], [1., 0.], [0., 1.]])}


def image(facs, lam):
    return np.concatenate([np.asarray(l) @ f for l, f in zip(lam, facs)])


def bary(facs, x):
    out, o = [], 0
    for f in facs:
        k = f.shape[1]
        y = x[o:o + k]
        o += k
        if len(f) == 1:
            out.append(np.ones(1))
            continue
        M = np.vstack([f.T, np.ones(len(f))])
        out.append(np.linalg.lstsq(M, np.append(y, 1.0), rcond=None)[0])
    return out


def degs(deg, c, d, cell):
    """degree per non-trivial factor of a facet of dimension d"""
    if isinstance(d, tuple):
        deg = deg if isinstance(deg, (list, tuple)) else (deg,) * len(d)
        out = ()
        for k, dd, part in zip(deg, d, c[1:]):
            out += (k,) * (dd if part in ("Q", "H") else int(dd > 0))
        return out
    return deg


def dimension(facs, deg, c, d):
    ks = degs(deg, c, d, None)
    sizes = [f.shape[0] - 1 for f in facs if len(f) > 1]
    ks = ks if isinstance(ks, tuple) else (ks,) * len(sizes)
    return int(np.prod([poly.dim_P(s, k) for s, k in zip(sizes, ks)]))
