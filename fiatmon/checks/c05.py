"""C05: reference cells have consistent topology and geometry."""
import itertools
from math import comb, factorial

import numpy as np

from fiatmon import geom, poly

RULE = ("one case = one cell (reference, product, or random simplex) x one entity x one query; the answer is compared with geometry "
        "recomputed from the vertex coordinates; non-trivial = the entity has positive dimension or the query is not the identity")
REQUIRED = {"oracle:topology": 30, "oracle:sub-entities": 300, "oracle:entity-map": 400, "oracle:normal": 100, "oracle:tangent": 200,
            "oracle:volume": 200, "oracle:lattice": 500, "oracle:contains": 500, "oracle:reference-normal": 60, "oracle:affine-map": 30}
ASSUMPTIONS = ["point containment is judged on the UFC reference cells and products of them (it is defined for those only)"]

UFC_TOP = {
    "I": {0: {0: (0,), 1: (1,)}, 1: {0: (0, 1)}},
    "T": {0: {i: (i,) for i in range(3)}, 1: {0: (1, 2), 1: (0, 2), 2: (0, 1)}, 2: {0: (0, 1, 2)}},
    "Tet": {0: {i: (i,) for i in range(4)}, 1: {0: (2, 3), 1: (1, 3), 2: (1, 2), 3: (0, 3), 4: (0, 2), 5: (0, 1)},
            2: {0: (1, 2, 3), 1: (0, 2, 3), 2: (0, 1, 3), 3: (0, 1, 2)}, 3: {0: (0, 1, 2, 3)}},
    "Q": {0: {i: (i,) for i in range(4)}, 1: {0: (0, 1), 1: (2, 3), 2: (0, 2), 3: (1, 3)}, 2: {0: (0, 1, 2, 3)}},
}
TPS = [["TP", "I", "I"], ["TP", "T", "I"], ["TP", "I", "T"], ["TP", ["TP", "I", "I"], "I"], ["TP", "I", ["TP", "I", "I"]],
       ["TP", "I", "I", "I"], ["TP", "T", "T"], ["TP", "Tet", "I"], ["TP", "Q", "I"], ["TP", ["TP", "T", "I"], "I"],
       ["TP", "I", ["TP", "I", "I"], "I"], ["TP", "DI", "I"], ["TP", "I", "DT"]]


def jobs(tier, seed):
    out = []
    for c in ["pt", "I", "T", "Tet", "DI", "DT", "DTet", "IT", "ITet", "Q", "H"] + TPS:
        out.append({"key": "cell:" + geom.cellname(c), "cell": c})
    for base in ("I", "T", "Tet", "DI", "DT", "DTet", "IT", "ITet"):
        for rep in range({"quick": 50, "thorough": 150}[tier]):
            out.append({"key": "moved:%s:%d" % (base, rep), "base": base, "rep": rep})
    out.append({"key": "factories", "factories": 1})
    for rep in range({"quick": 80, "thorough": 250}[tier]):
        out.append({"key": "affine:%d" % rep, "affine": rep})
    for b in ("I", "T", "Tet", "DI", "DT", "DTet", "IT", "ITet"):
        out += [{"key": "siblings%d:%s" % (r, b), "siblings": b, "base": b, "rep": 0} for r in range(3)]
    return out


def product_topology(tops, nverts):
    """own product of factor topologies"""
    out = {}
    for dims in itertools.product(*[sorted(t) for t in tops]):
        ents = {}
        for k, es in enumerate(itertools.product(*[sorted(t[d]) for t, d in zip(tops, dims)])):
            vs = []
            for combo in itertools.product(*[t[d][e] for t, d, e in zip(tops, dims, es)]):
                v = 0
                for x, n in zip(combo, nverts):
                    v = v * n + x
                vs.append(v)
            ents[k] = tuple(vs)
        out[dims] = ents
    return out


def flat(top):
    out = {}
    for d in sorted(top):
        for e in sorted(top[d]):
            out.setdefault(geom.tdim(d), []).append(top[d][e])
    return {d: dict(enumerate(v)) for d, v in out.items()}


def norm_top(t):
    return {d: {int(e): tuple(int(v) for v in vs) for e, vs in x.items()} for d, x in t.items()}


def judge_topology(m, c, cell):
    top = norm_top(cell.get_topology())
    name = geom.cellname(c)
    V = np.array([np.asarray(v, float) for v in cell.get_vertices()]).reshape(len(cell.get_vertices()), -1)
    m.close("vertices", V, geom.ref_vertices(c), 1e-15, name)
    m.check("dimension", cell.get_spatial_dimension() == V.shape[1] == geom.sdim(c), name, "spatial dimension")
    base = c if isinstance(c, str) else c[1] if c[0] == "V" else None
    if base in UFC_TOP:
        m.check("topology", top == UFC_TOP[base], name, lambda: "topology %s" % top)
    elif base == "H":
        t1 = UFC_TOP["I"]
        want = flat(product_topology([t1] * 3, [2] * 3))
        m.check("topology", top == want, name, lambda: "topology %s" % top)
    elif base is None:
        tops = [norm_top(x.get_topology()) for x in cell.cells]
        nv = [len(x.get_vertices()) for x in cell.cells]
        m.check("topology", top == product_topology(tops, nv), name, lambda: "topology %s" % top)
        m.check("dimension", cell.get_dimension() == tuple(x.get_dimension() for x in cell.cells), name, "get_dimension")
    if base is not None and base not in ("Q", "H"):
        n = len(V)
        for d in range(n):
            got = sorted(tuple(sorted(v)) for v in top[d].values())
            m.check("topology", got == list(itertools.combinations(range(n), d + 1)) and sorted(top[d]) == list(range(comb(n, d + 1))),
                    (name, d), lambda: "entities of dimension %d: %s" % (d, top[d]))
        m.check("dimension", cell.get_dimension() == geom.sdim(c), name, "get_dimension")
    # sub-entities and connectivity from vertex sets
    ents = geom.entities(cell)
    for d, e in ents:
        want = sorted((d2, e2) for d2, e2 in ents if set(top[d2][e2]) <= set(top[d][e]))
        got = cell.sub_entities[d][e]
        m.check("sub-entities", sorted(got) == want and len(got) == len(want), (name, d, e), lambda: "%s, expected %s" % (got, want))
    if not isinstance(ents[0][0], tuple):
        con = cell.get_connectivity()
        for d0 in top:
            for d1 in range(d0 + 1):
                want = [tuple(e1 for e1 in sorted(top[d1]) if set(top[d1][e1]) <= set(top[d0][e0])) for e0 in sorted(top[d0])]
                got = [tuple(int(x) for x in t) for t in con[(d0, d1)]]
                m.check("connectivity", got == want, (name, d0, d1), lambda: "%s, expected %s" % (got, want))
    for d, e in ents:
        got = np.array([np.asarray(v, float) for v in cell.get_vertices_of_subcomplex(cell.get_topology()[d][e])]).reshape(len(top[d][e]), -1)
        m.close("vertices-of-entity", got, V[list(top[d][e])], 0.0, (name, d, e), scale=1.0)


def sub_dim_ok(sub, d):
    return sub.get_dimension() == d or sub.get_spatial_dimension() == geom.tdim(d)


def judge_maps(m, c, cell, rng):
    name = geom.cellname(c)
    V = np.array([np.asarray(v, float) for v in cell.get_vertices()]).reshape(len(cell.get_vertices()), -1)
    top = cell.get_topology()
    for d, e in geom.entities(cell):
        f = cell.get_entity_transform(d, e)
        ev = V[list(top[d][e])]
        full = geom.tdim(d) == cell.get_spatial_dimension()
        if full and not isinstance(c, str) and c[0] == "V":
            sv = V          # the cell itself: identity on its own coordinates
        else:
            sub = cell.construct_subelement(d)
            m.check("sub-cell", sub.get_spatial_dimension() == geom.tdim(d) and len(sub.get_vertices()) == len(top[d][e]), (name, d),
                    lambda: "sub-entity cell %s" % type(sub).__name__)
            sv = np.array([np.asarray(v, float) for v in sub.get_vertices()]).reshape(len(sub.get_vertices()), -1)
        # vertices in order
        got = np.array([np.asarray(f(tuple(v)), float) for v in sv]).reshape(len(sv), -1)
        A = max(float(np.abs(V).max()) if V.size else 1.0, 1e-300)
        m.close("entity-map", got, ev, 1e-12, (name, d, e, "vertices"), nontrivial=geom.tdim(d) > 0, scale=A)
        # affine: weights of an affine combination carry over (sub-cells of products are products of simplices,
        # so the map is determined by the corners through multilinear weights)
        if geom.tdim(d) > 0:
            o = sv[0]
            J = np.linalg.lstsq(sv - o, ev - ev[0], rcond=None)[0]
            P = sv[0] + rng.uniform(-0.5, 1.5, size=(4, len(sv) - 1)) @ (sv[1:] - sv[0])
            for cont in (tuple, list, np.asarray):
                got = np.array([np.asarray(f(cont([float(z) for z in p])), float) for p in P])
                m.close("entity-map", got, ev[0] + (P - o) @ J, 1e-12, (name, d, e, cont.__name__), scale=4.0 * A)
            m.check("entity-map", np.linalg.matrix_rank(J / (np.abs(J).max() or 1.0), 1e-9) == geom.tdim(d), (name, d, e, "rank"), "degenerate map")


def gram_volume(v):
    J = (v[1:] - v[0])
    k = len(J)
    return np.sqrt(abs(np.linalg.det(J @ J.T))) / factorial(k) if k else 1.0


def outward(V, fv, n):
    """n points out of the convex cell with vertices V through the facet fv"""
    h = float(np.abs(V - V[0]).max())
    return all(np.dot(n, fv[0] - v) > -1e-10 * h for v in V) and any(np.dot(n, fv[0] - v) > 1e-9 * h for v in V)


def judge_geometry(m, c, cell):
    name = geom.cellname(c)
    V = np.array([np.asarray(v, float) for v in cell.get_vertices()]).reshape(len(cell.get_vertices()), -1)
    top = cell.get_topology()
    simplex = geom.is_simplex(c)
    base = c if isinstance(c, str) else c[1] if c[0] == "V" else None
    sd = V.shape[1]
    h = max(1e-300, float(np.abs(V - V[0]).max())) if sd else 1.0
    m.close("volume", np.array([cell.volume()]), np.array([np.prod([gram_volume(f) for f in geom.factors(c)])]), 1e-12, name, scale=h ** sd)
    # reference normals of every facet
    if base != "pt":
        for d, e in geom.entities(cell):
            if geom.tdim(d) != sd - 1:
                continue
            ev = V[list(top[d][e])]
            n = np.asarray(cell.compute_reference_normal(d, e), float)
            ok = n.shape == (sd,) and abs(np.abs(n).max() - 1) < 1e-10 and np.abs((ev - ev[0]) @ n).max() < 1e-9 * h and outward(V, ev, n)
            m.check("reference-normal", ok, (name, d, e), lambda: "normal %s of facet %s" % (n, ev.tolist()))
    if not simplex or base == "pt":
        return
    from FIAT import reference_element as R
    for d in top:
        for e in top[d]:
            ev = V[list(top[d][e])]
            if d > 0:
                m.close("volume", np.array([cell.volume_of_subcomplex(d, e), R.volume(ev.tolist())]), np.array([gram_volume(ev)] * 2), 1e-12,
                        (name, d, e), scale=h ** d)
                t = cell.compute_tangents(d, e)
                m.close("tangent", np.array(t), ev[1:] - ev[0], 1e-13, (name, d, e), scale=h)
                tn = np.array(cell.compute_normalized_tangents(d, e))
                w = ev[1:] - ev[0]
                m.close("tangent", tn, w / np.linalg.norm(w, axis=1)[:, None], 1e-12, (name, d, e, "unit"))
                fe = np.array(cell.compute_face_edge_tangents(d, e))
                want = np.array([ev[j] - ev[i] for i in range(d + 1) for j in range(i + 1, d + 1)])
                m.close("tangent", fe, want, 1e-13, (name, d, e, "all edges"), scale=h)
            if d == 1:
                m.close("tangent", np.asarray(cell.compute_edge_tangent(e)), ev[1] - ev[0], 1e-13, (name, e, "edge"), scale=h)
                w = ev[1] - ev[0]
                m.close("tangent", np.asarray(cell.compute_normalized_edge_tangent(e)), w / np.linalg.norm(w), 1e-12, (name, e, "unit edge"))
            if d == 2 and sd == 3:
                m.close("tangent", np.array(cell.compute_face_tangents(e)), ev[1:] - ev[0], 1e-13, (name, e, "face"), scale=h)
    for e in top[sd - 1]:
        ev = V[list(top[sd - 1][e])]
        n = np.asarray(cell.compute_normal(e), float)
        length = 2.0 if base == "Tet" else 1.0
        orth = np.abs((ev - ev[0]) @ n).max() / h < 1e-9
        m.check("normal", n.shape == (sd,) and orth and abs(np.linalg.norm(n) - length) < 1e-9, (name, e),
                lambda: "normal %s of facet %s" % (n, ev.tolist()))
        if base == "T":
            t = ev[1] - ev[0]
            m.close("normal", n, np.array([t[1], -t[0]]) / np.linalg.norm(t), 1e-12, (name, e, "UFC direction"))
        elif base == "Tet":
            x = np.cross(ev[1] - ev[0], ev[2] - ev[0])
            m.close("normal", n, -2 * x / np.linalg.norm(x), 1e-12, (name, e, "UFC direction"))
        else:
            m.check("normal", outward(V, ev, n), (name, e, "outward"), lambda: "normal %s of facet %s" % (n, ev.tolist()))
        m.close("normal", np.asarray(cell.compute_scaled_normal(e)), n * gram_volume(ev), 1e-12, (name, e, "scaled"), scale=h ** (sd - 1))
    if sd > 1 or isinstance(cell, R.UFCSimplex):
        fc = cell.get_facet_element()
        m.check("sub-cell", fc.get_spatial_dimension() == sd - 1 and type(fc) is type(cell.construct_subelement(sd - 1)), (name, "facet"),
                lambda: "facet element %s" % type(fc).__name__)


def judge_lattice(m, c, cell, orders):
    from FIAT import reference_element as R
    name = geom.cellname(c)
    V = np.array([np.asarray(v, float) for v in cell.get_vertices()]).reshape(len(cell.get_vertices()), -1)
    top = cell.get_topology()
    h = max(1e-300, float(np.abs(V).max())) if V.size else 1.0
    for d in top:
        for order in orders:
            first = None
            for e in sorted(top[d]):
                ev = V[list(top[d][e])]
                got = np.array([np.asarray(p, float) for p in cell.make_points(d, e, order)]).reshape(-1, V.shape[1])
                if d == 0:
                    m.close("lattice", got, ev, 0.0, (name, d, e, order), scale=1.0)
                    continue
                want = set(a for a in poly.mis(d + 1, order) if min(a) >= 1)
                if len(got) == 0:
                    m.check("lattice", not want, (name, d, e, order), "no points")
                    continue
                l = np.linalg.lstsq((ev[1:] - ev[0]).T, (got - ev[0]).T, rcond=None)[0].T
                lam = np.column_stack([1 - l.sum(axis=1), l]) * order
                k = np.rint(lam).astype(int)
                ok = np.abs(lam - k).max() < 1e-9 * order and np.abs((k / order) @ ev - got).max() < 1e-12 * h
                m.check("lattice", ok and sorted(map(tuple, k.tolist())) == sorted(want), (name, d, e, order),
                        lambda: "points %s" % got[:6].tolist())
                # the same ordering on every entity of this dimension; ascending along an edge
                seq = k.tolist()
                first = first or seq
                m.check("lattice-order", seq == first and (d > 1 or [x[1] for x in seq] == list(range(1, order))), (name, d, e, order),
                        lambda: "ordering %s" % seq[:6])
    sd = V.shape[1]
    if sd:
        for n in range(1, 9 if sd < 3 else 7):
            for interior in (0, 1, 2, None):
                got = R.make_lattice(V.tolist(), n, interior) if interior is not None else R.make_lattice(V.tolist(), n)
                got = np.array([np.asarray(p, float) for p in got]).reshape(-1, sd)
                want = np.array([np.array(a) / n @ V for a in poly.mis(sd + 1, n) if min(a) >= (interior or 0)]).reshape(-1, sd)
                ok = len(got) == len(want) and (not len(got) or all(np.abs(want - g).max(axis=1).min() < 1e-12 * h for g in got)
                                                and len(set(map(tuple, np.round(got / h, 9).tolist()))) == len(got))
                m.check("lattice", ok, (name, "make_lattice", n, interior), lambda: "points %s" % got[:5].tolist())


def judge_contains(m, c, cell, rng):
    name = geom.cellname(c)
    sd = geom.sdim(c)

    def violation(p):
        """largest violation of the defining inequalities, factor by factor"""
        o, w = 0, -1.0
        for f in geom.factors(c):
            d = f.shape[1]
            y = p[o:o + d]
            o += d
            w = max(w, max(-y.min(), y.sum() - 1))
        return w
    for k in range(80):
        p = rng.uniform(-0.3, 1.2, size=sd) if k % 2 else np.array(geom.random_points(c, 1, rng)[0])
        w = violation(p)
        if abs(w) > 1e-9:
            for cont in (tuple, np.asarray):
                m.check("contains", bool(cell.contains_point(cont(p))) == (w < 0), (name, k), lambda: "point %s" % p)
        for eps in (1e-1, 1e-3):
            if abs(w - eps) > 1e-6:
                m.check("contains", bool(cell.contains_point(tuple(p), epsilon=eps)) == (w < eps), (name, k, eps), lambda: "point %s epsilon %g" % (p, eps))
    # the closed cell: vertices, dyadic boundary points
    V = geom.ref_vertices(c)
    for v in V:
        m.check("contains", bool(cell.contains_point(tuple(v))), (name, "vertex"), lambda: "vertex %s" % v)
    for i, j in itertools.combinations(range(len(V)), 2):
        p = (V[i] * 0.25 + V[j] * 0.75)
        m.check("contains", bool(cell.contains_point(tuple(p))), (name, "edge"), lambda: "point %s" % p)
        q = V[i] + 1.25 * (V[j] - V[i])
        m.check("contains", not cell.contains_point(tuple(q)), (name, "beyond"), lambda: "point %s" % q)


def run(job, m):
    from FIAT import reference_element as R
    rng = m.rng()
    if "cell" in job:
        c = job["cell"]
        cell = geom.make_cell(c)
        judge_topology(m, c, cell)
        judge_maps(m, c, cell, rng)
        judge_geometry(m, c, cell)
        if geom.is_simplex(c) and c != "pt":
            judge_lattice(m, c, cell, range(1, 9))
        if isinstance(cell, (R.UFCInterval, R.UFCTriangle, R.UFCTetrahedron, R.UFCQuadrilateral, R.UFCHexahedron)) or \
                not isinstance(c, str) and "D" not in str(c):
            judge_contains(m, c, cell, rng)
        # equality and hashing follow type and factors
        other = geom.make_cell(c)
        m.check("equality", cell == other and not (cell != other) and hash(cell) == hash(other), geom.cellname(c), "equal cells differ")
        for d in ["pt", "I", "T", "Tet", "Q", "H", "DI", "DT", "DTet", "IT", "ITet", ["TP", "I", "I"], ["TP", "T", "I"], ["TP", "I", "T"], ["TP", "I", "I", "I"],
                  ["TP", ["TP", "I", "I"], "I"], ["TP", "I", ["TP", "I", "I"]], ["TP", "Q", "I"], ["TP", "I", "Q"], ["TP", "DI", "I"], ["TP", "I", "DI"],
                  ["TP", ["TP", "T", "I"], "I"], ["TP", "T", ["TP", "I", "I"]]]:
            if d != c:
                x = geom.make_cell(d)
                m.check("equality", cell != x and not (cell == x), (geom.cellname(c), str(d)), "different cells compare equal")
    elif "base" in job:
        scale = [(0.5, 2.0), (1e-3, 1e-2), (50., 500.), (2e-6, 1e-5), (1e4, 1e6), (1e-5, 1e-4), (1e-12, 1e-10), (1e8, 1e10)][job["rep"] % 8]
        orient = 1 if (job["rep"] // 8 + job["rep"]) % 2 else -1
        c = geom.random_simplex(job["base"], rng, orient=orient, cond=6.0, scale=scale, offset=1.0 if scale[0] > 1e-4 else 10 * scale[1])
        cell = geom.make_cell(c)
        judge_geometry(m, c, cell)
        judge_lattice(m, c, cell, (1, 2, 3, 5))
        judge_maps(m, c, cell, rng)
    elif "factories" in job:
        for nm, cls in [("interval", "UFCInterval"), ("triangle", "UFCTriangle"), ("tetrahedron", "UFCTetrahedron"),
                        ("quadrilateral", "UFCQuadrilateral"), ("hexahedron", "UFCHexahedron"), ("vertex", "Point")]:
            m.check("factory", type(R.ufc_cell(nm)).__name__ == cls, nm, "wrong cell")

            class Named(object):
                def cellname(self, nm=nm):
                    return nm
            m.check("factory", type(R.ufc_cell(Named())).__name__ == cls, nm + " object", "wrong cell")
        x = R.ufc_cell("triangle * interval")
        m.check("factory", x == R.TensorProductCell(R.UFCTriangle(), R.UFCInterval()), "product", "wrong cell")
        for d, cls in enumerate(["Point", "UFCInterval", "UFCTriangle", "UFCTetrahedron"]):
            m.check("factory", type(R.ufc_simplex(d)).__name__ == cls, cls, "wrong cell")
        for d, cls in enumerate(["DefaultLine", "DefaultTriangle", "DefaultTetrahedron"], 1):
            m.check("factory", type(R.default_simplex(d)).__name__ == cls, cls, "wrong cell")
        for c, want in [(["TP", "I", "I"], "UFCQuadrilateral"), (["TP", "I", "I", "I"], "UFCHexahedron"), (["TP", ["TP", "I", "I"], "I"], "UFCHexahedron"),
                        (["TP", "Q", "I"], "UFCHexahedron"), ("Q", "UFCQuadrilateral"), ("H", "UFCHexahedron"), ("I", "UFCInterval")]:
            got = None
            try:
                got = type(R.flatten_reference_cube(geom.make_cell(c))).__name__
            except ValueError:
                if not (isinstance(c, list) and any(isinstance(x, list) for x in c)):
                    raise
                m.count("nested cells not flattened")     # rejected, not answered
                continue
            m.check("factory", got == want, ("flatten", str(c)), lambda: got)
        for c, want in [("I", True), ("T", False), ("Tet", False), ("Q", True), ("H", True), (["TP", "I", "I"], True), (["TP", "T", "I"], False),
                        (["TP", ["TP", "I", "I"], "I"], True), (["TP", "Q", "I"], True), (["TP", "I", ["TP", "I", "T"]], False), ("pt", False)]:
            m.check("factory", bool(R.is_hypercube(geom.make_cell(c))) == want, ("hypercube", str(c)), "wrong answer")
        for c in TPS:
            top = geom.make_cell(c).get_topology()
            fl, un = R.flatten_entities(top), R.compute_unflattening_map(top)
            want = flat(norm_top(top))
            m.check("flatten", norm_top(fl) == want, geom.cellname(c), lambda: str(fl)[:300])
            m.check("flatten", len(un) == sum(len(x) for x in top.values()) and all(fl[d][e] == top[un[(d, e)][0]][un[(d, e)][1]] for d in fl for e in fl[d]),
                    (geom.cellname(c), "inverse"), "the unflattening map does not invert the flattening")
            for d in top:
                m.check("flatten", R.tuple_sum(d) == geom.tdim(d), (geom.cellname(c), d), "tuple_sum")
    elif "affine" in job:
        for dx, dy in [(1, 1), (2, 2), (3, 3), (1, 2), (1, 3), (2, 3)]:
            X = np.array(geom.random_simplex({1: "I", 2: "T", 3: "Tet"}[dx], rng, cond=4.0)[2])
            Y = rng.uniform(-2, 2, size=(dx + 1, dy))
            A, b = R.make_affine_mapping([tuple(x) for x in X], [tuple(y) for y in Y])
            m.close("affine-map", X @ np.asarray(A).T + b, Y, 1e-10, (job["affine"], dx, dy), scale=4.0)
            m.close("volume", np.array([R.volume([tuple(y) for y in Y])]), np.array([gram_volume(Y)]), 1e-10, (job["affine"], dx, dy))
