"""C20: published metadata describe what tabulation returns."""
import numpy as np

from fiatmon import catalog as C
from fiatmon import fitting, geom, poly
from fiatmon.checks.c01 import OSPECS, VSPECS, sibling_jobs

RULE = ("one case = one element x one published quantity (dimension, value shape, keys, mapping, degree, form degree, cell, tables), compared with "
        "the arrays tabulation returns and with an independent table; the degree is measured from the values alone; non-trivial = the element "
        "has a basis function")
REQUIRED = {"oracle:keys": 1000, "oracle:array-shape": 1000, "oracle:degree-bound": 350, "oracle:degree-attained": 320, "oracle:mapping": 380,
            "oracle:value-rank": 380, "oracle:form-degree": 150, "oracle:reference-cell": 380, "oracle:table-sizes": 380, "monitor:M-KEYS": 1000,
            "oracle:expansion-accessors": 150, "oracle:registry": 60}
ASSUMPTIONS = ["on quadrilaterals, hexahedra and tensor-product cells the published degree bounds the degree in each factor of the cell",
               "serendipity elements publish their superlinear degree plus one, which is judged as a bound only",
               "the form degree is judged where the literature assigns one",
               "mixed elements publish no degree"]

PIOLA = {"RT": "contravariant piola", "DRT": "contravariant piola", "BDM": "contravariant piola", "BDFM": "contravariant piola",
         "MTW": "contravariant piola", "N1": "covariant piola", "N2": "covariant piola", "Reg": "double covariant piola",
         "HHJ": "double contravariant piola", "AW": "double contravariant piola", "AWnc": "double contravariant piola"}
RANK = {"affine": 0, "contravariant piola": 1, "covariant piola": 1, "double covariant piola": 2, "double contravariant piola": 2}
ZERO = ("Lag", "GLL", "Bern", "KMV", "Bub", "FBub", "S")
TOP = ("DG", "GL", "GR", "P0", "DT", "DPC")


def jobs(tier, seed):
    out = []
    for s in C.all_specs(tier) + C.high_specs(tier) + EXTRA:
        out.append({"key": C.name(s), "spec": s, "cost": geom.sdim(C.cell_of(s)) + (s[-1] if isinstance(s[-1], int) else 1)})
    for s in OSPECS:
        out.append({"key": C.name(list(s)), "spec": list(s), "cost": 2})
    for s in VSPECS:
        for rep in range(1 if tier == "quick" else 4):
            out.append({"key": "rnd%d:%s" % (rep, C.name(list(s))), "random": list(s), "rep": rep, "cost": 3})
    for s in C.trace_specs(tier):
        out.append({"key": C.name(s), "trace": s})
    for c in ("I", "T", "Tet", "Q", "H", ["TP", "T", "I"]):
        for k in (1, 3):
            out.append({"key": "QE[%s,%d]" % (geom.cellname(c), k), "quad": [c, k]})
    out.append({"key": "registry", "registry": True})
    out += sibling_jobs()
    out += C.lookalikes()
    return out


REGISTRY = [("Argyris", ["Arg", "T", 5]), ("Bell", ["Bell", "T"]), ("Bernstein", ["Bern", "T", 2]), ("Brezzi-Douglas-Marini", ["BDM", "T", 1]),
            ("Brezzi-Douglas-Fortin-Marini", ["BDFM", "T", 2]), ("Bubble", ["Bub", "T", 3]), ("FacetBubble", ["FBub", "T", 2]),
            ("Crouzeix-Raviart", ["CR", "T", 1]), ("Discontinuous Lagrange", ["DG", "T", 2]), ("S", ["S", "Q", 2]), ("DPC", ["DPC", "Q", 2]),
            ("Discontinuous Taylor", ["DT", "T", 2]), ("Discontinuous Raviart-Thomas", ["DRT", "T", 1]), ("Hermite", ["Her", "T"]),
            ("Lagrange", ["Lag", "T", 3]), ("Kong-Mulder-Veldhuizen", ["KMV", "T", 2]), ("Gauss-Lobatto-Legendre", ["GLL", "I", 3]),
            ("Gauss-Legendre", ["GL", "I", 3]), ("Gauss-Radau", ["GR", "I", 3]), ("Morley", ["Mor", "T"]), ("Nedelec 1st kind H(curl)", ["N1", "T", 2]),
            ("Nedelec 2nd kind H(curl)", ["N2", "T", 2]), ("Raviart-Thomas", ["RT", "T", 2]), ("Regge", ["Reg", "T", 1]),
            ("HDiv Trace", ["HDT", "T", 1]), ("Hellan-Herrmann-Johnson", ["HHJ", "T", 1]), ("Conforming Arnold-Winther", ["AW", "T", 3]),
            ("Nonconforming Arnold-Winther", ["AWnc", "T", 2]), ("Mardal-Tai-Winther", ["MTW", "T", 3]), ("P0", ["P0", "T"]),
            ("Quintic Argyris", ["QArg", "T"])]


def registry(job, m, rng):
    """the name a user asks for gives that family"""
    import FIAT
    for name, spec in REGISTRY:
        tab = FIAT.supported_elements if name in FIAT.supported_elements else FIAT.extra_elements
        if not m.check("registry", name in tab, name, "the registry does not know this family"):
            continue
        e, f = tab[name](geom.make_cell(spec[1]), *spec[2:]), C.build(spec)
        sd = geom.sdim(spec[1])
        if spec[0] == "HDT":
            pts = [(0.25,), (0.5,)]
            m.close("registry", e.tabulate(0, pts, (1, 1))[(0, 0)], f.tabulate(0, pts, (1, 1))[(0, 0)], 1e-12, name)
            continue
        pts = geom.random_points(spec[1], 3, rng)
        m.close("registry", e.tabulate(0, pts)[(0,) * sd], f.tabulate(0, pts)[(0,) * sd], 1e-12, name)
        m.check("registry", e.entity_dofs() == f.entity_dofs(), name + " table", "entity tables differ")


EXTRA = [["DPC", ["TP", "I", "I"], 2], ["S", ["TP", "I", "I"], 3], ["DPC", ["TP", "I", "I", "I"], 2], ["S", ["TP", "I", "I", "I"], 2],
         ["Disc", ["S", "Q", 2]], ["Disc", ["DPC", "Q", 2]], ["Enr", ["Lag", "T", 1], ["Enr", ["Bub", "T", 3], ["FBub", "T", 2]]],
         ["Mix", ["Mix", ["Lag", "T", 1], ["RT", "T", 1, "point"]], ["DG", "T", 0]], ["Disc", ["Mix", ["Lag", "T", 1], ["Lag", "T", 2]]],
         ["Flat", ["Disc", ["TP", ["Lag", "I", 1], ["Lag", "I", 2]]]], 
         ["TP", ["Disc", ["Lag", "I", 2]], ["Lag", "I", 1]], ["TP", ["Res", ["Lag", "I", 3], {"domain": "interior"}], ["Lag", "I", 1]],
         ["TP", ["Enr", ["Lag", "I", 1], ["Bub", "I", 3]], ["Lag", "I", 2]], ["Enr", ["Disc", ["Lag", "T", 1]], ["Bub", "T", 3]]]


def mappings(spec, e):
    k = spec[0]
    if k in PIOLA:
        return [PIOLA[k]]
    if k == "Mix":
        return None
    if k in ("Hdiv", "Hcurl"):
        return [{"Hdiv": "contravariant piola", "Hcurl": "covariant piola"}[k]]
    if k in ("Flat", "Disc", "Res", "Enr", "NEnr"):
        return mappings(spec[1], e)
    if k == "TP":
        a, b = mappings(spec[1], e), mappings(spec[2], e)
        return a if b == ["affine"] else b
    return ["affine"]


def form(spec):
    """form degree, or None where none is promised"""
    k = spec[0]
    if k in ("Flat", "Enr", "NEnr", "Res"):
        f = [form(s) for s in spec[1:] if isinstance(s, list)]
        return f[0] if all(x == f[0] for x in f) else None
    if k == "Disc":
        return geom.sdim(C.cell_of(spec)) if spec[1][0] != "Mix" else None
    if k == "TP":
        f = [form(s) for s in spec[1:]]
        return None if None in f else sum(f)
    if k in ("Hdiv", "Hcurl"):
        return geom.sdim(C.cell_of(spec)) - 1 if k == "Hdiv" else 1
    if k in C.COMPOSITE:
        return None
    d = geom.sdim(spec[1])
    if k in ZERO:
        return 0
    if k in TOP:
        return d
    if k in ("RT", "BDM", "BDFM"):
        return d - 1
    if k in ("N1", "N2"):
        return 1
    return None


def same_cell(m, e, cellspec, key):
    cell = e.get_reference_element()
    V = [np.ravel(np.asarray(v, float)) for v in cell.get_vertices()]
    W = geom.ref_vertices(cellspec)
    ok = len(V) == len(W) and np.allclose(np.array(V).reshape(len(V), -1), np.array(W).reshape(len(W), -1), atol=1e-13)
    m.check("reference-cell", ok and cell.get_spatial_dimension() == geom.sdim(cellspec), key,
            lambda: "the element's reference cell has vertices %s, expected %s" % (np.array(V).tolist(), np.array(W).tolist()))
    return cell


def shapes(m, e, order, pts, entity, sd, n, vs, key):
    T = e.tabulate(order, pts) if entity is None else e.tabulate(order, pts, entity)
    want = set(poly.mis_upto(sd, order))
    m.check("keys", set(T.keys()) == want and all(isinstance(k, tuple) for k in T), (key, order, entity),
            lambda: "keys %s, expected the %d multi-indices of length %d" % (sorted(map(str, T))[:8], len(want), sd))
    for a, v in T.items():
        ok = isinstance(v, np.ndarray) and v.shape == (n,) + vs + (len(pts),) and v.dtype.kind == "f"
        m.check("array-shape", ok, (key, a, entity), lambda: "derivative %s has shape %s and type %s, expected %s" % (
            a, np.shape(v), getattr(v, "dtype", type(v)), (n,) + vs + (len(pts),)), nontrivial=n > 0)
    return T


def run(job, m):
    rng = m.rng()
    if "trace" in job:
        return trace(job, m, rng)
    if "registry" in job:
        return registry(job, m, rng)
    if "quad" in job:
        return quad(job, m, rng)
    spec = job.get("spec")
    if "random" in job:
        b = job["random"]
        spec = [b[0], geom.random_simplex(b[1], rng, orient=1 if job["rep"] % 2 == 0 else -1)] + b[2:]
    e = C.build(spec)
    cs = C.cell_of(spec)
    sd = geom.sdim(cs)
    key = C.name(spec)
    n = e.space_dimension()
    vs = e.value_shape()
    if not m.check("value-rank", isinstance(vs, tuple) and isinstance(n, (int, np.integer)), key, lambda: "value shape %r, dimension %r" % (vs, n)):
        return
    vs = tuple(int(x) for x in vs)
    cell = same_cell(m, e, cs, key)
    # arrays
    order = 2 if sd < 3 else 1
    tabs = shapes(m, e, order, geom.random_points(cs, 3, rng), None, sd, n, vs, key)
    shapes(m, e, 0, geom.random_points(cs, 1, rng), None, sd, n, vs, key)
    if geom.is_ufc(cs) or not isinstance(cs, str):
        ents = geom.entities(cell)
        for dim, ent in [ents[i] for i in sorted(set([0, len(ents) - 1, int(rng.randint(len(ents))), int(rng.randint(len(ents)))]))]:
            pts = geom.random_points_of(cell.construct_subelement(dim), 2, rng) if geom.tdim(dim) else [()]
            shapes(m, e, 1, pts, (dim, ent), sd, n, vs, key)
    # mapping and rank
    mp = e.mapping()
    want = mappings(spec, e)
    m.check("mapping", isinstance(mp, list) and len(mp) == n and all(x in RANK for x in mp), key, lambda: "mapping list %r for dimension %d" % (mp[:4], n))
    if want is not None:
        m.check("mapping", sorted(set(mp)) == want, key + " kind", lambda: "mapping %s, expected %s" % (sorted(set(mp)), want))
        r = RANK[want[0]]
        m.check("value-rank", len(vs) == r, key + " rank", lambda: "value shape %s under %s" % (vs, want[0]))
        inner = spec[1] if spec[0] in ("Disc", "Res", "Enr") else spec
        if inner[0] != "TP" and not (inner[0] == "Flat" and inner[1][0] == "TP"):
            m.check("value-rank", vs == (sd,) * r, key + " size", lambda: "value shape %s in %dD under %s" % (vs, sd, want[0]))
    m.check("sub-elements", e.num_sub_elements() == (len(spec) - 1 if spec[0] == "Mix" else
                                                     len(spec[1]) - 1 if spec[0] == "Disc" and spec[1][0] == "Mix" else 1), key,
            lambda: "num_sub_elements() = %r" % (e.num_sub_elements(),))
    # form degree
    f = form(spec)
    if f is not None:
        m.check("form-degree", e.get_formdegree() == f, key, lambda: "form degree %r, expected %r" % (e.get_formdegree(), f))
    # tables
    ids, top = e.entity_dofs(), cell.get_topology()
    ok = set(ids) == set(top) and all(set(ids[d]) == set(top[d]) for d in top)
    m.check("table-sizes", ok, key, "the entity table does not follow the topology of the cell")
    tot = sum(len(v) for d in ids.values() for v in d.values())
    m.check("table-sizes", tot == n == len(e.dual_basis()), key + " total", lambda: "%d numbers in the table, %d nodes, dimension %d" % (tot, len(e.dual_basis()), n))
    cl = e.entity_closure_dofs()
    m.check("table-sizes", set(cl) == set(top) and all(set(cl[d]) == set(top[d]) for d in top), key + " closure",
            "the closure table does not follow the topology of the cell")
    degree(m, e, spec, cs, sd, key, rng)
    accessors(m, e, spec, cs, sd, key, n, vs, rng)


def degree(m, e, spec, cs, sd, key, rng):
    if spec[0] == "Mix" or spec[0] == "Disc" and spec[1][0] == "Mix":
        return
    dg = e.degree()
    m.check("degree-bound", isinstance(dg, (int, np.integer)) and dg >= 0, key + " type", lambda: "degree() returned %r" % (dg,))
    F = fitting.fit_element(e, spec, rng)
    if not m.check("degree-bound", F.resid < 1e-8, key, lambda: "the basis functions are not polynomials of degree at most %s (+4): residual %.3g"
                   % (dg, F.resid), sample={"degree": int(dg), "fit_residual": F.resid}):
        return
    c = np.abs(F.coef).reshape(F.coef.shape[0], -1, F.basis.n).max(axis=1)
    c = c / np.maximum(c.max(axis=1, keepdims=True), 1e-300)
    facs = [v.shape[1] for v in geom.factors(cs)]
    if isinstance(cs, str) and cs in ("Q", "H") and spec[0] == "DPC":
        facs = [sd]
    per = np.zeros((len(facs), F.basis.n), int)
    o = 0
    for i, d in enumerate(facs):
        per[i] = [sum(x[o:o + d]) for x in F.basis.exps]
        o += d
    att = int(max((per[:, c[i] > 1e-8].max() for i in range(len(c)) if (c[i] > 1e-8).any()), default=0))
    m.check("degree-bound", att <= dg, key + " bound", lambda: "a basis function has degree %d, the published degree is %d" % (att, dg))

    def has(s, fams):
        return isinstance(s, list) and (s[0] in fams or any(has(x, fams) for x in s))
    if not has(spec, ("S", "Res")):
        m.check("degree-attained", att == dg, key, lambda: "published degree %d, but the basis functions have degree %d" % (dg, att))


def accessors(m, e, spec, cs, sd, key, n, vs, rng):
    if not geom.is_simplex(cs):
        return
    if spec[0] in C.COMPOSITE and spec[0] not in ("NEnr", "Disc") or spec[0] in ("Bern", "S") or \
            spec[0] == "Disc" and spec[1][0] in C.COMPOSITE + ("Bern", "S"):
        return
    for k in (0, 1, 3):
        m.check("expansion-accessors", e.get_num_members(k) == poly.dim_P(sd, k), (key, k),
                lambda: "get_num_members(%d) = %r" % (k, e.get_num_members(k)))
    nb = e.get_nodal_basis()
    pts = geom.random_points(cs, 3, rng)
    z = (0,) * sd
    want = e.tabulate(0, pts)[z]
    m.close("expansion-accessors", nb.tabulate(pts)[z], want, 1e-8, what=key + " nodal basis", scale=max(1.0, np.abs(want).max()) if want.size else 1.0)
    co = np.asarray(e.get_coeffs())
    E = nb.get_expansion_set().tabulate(nb.get_embedded_degree(), pts)
    m.check("expansion-accessors", co.shape == (n,) + vs + (len(E),), key + " coefficient shape", lambda: "get_coeffs() has shape %s" % (co.shape,))
    if co.shape == (n,) + vs + (len(E),):
        m.close("expansion-accessors", np.dot(co, np.asarray(E, float)), want, 1e-8, what=key + " coefficients",
                scale=max(1.0, np.abs(want).max()) if want.size else 1.0)
    m.check("expansion-accessors", nb.get_embedded_degree() == e.degree() and nb.get_num_members() == n, key + " nodal basis size",
            lambda: "embedded degree %s, %s members" % (nb.get_embedded_degree(), nb.get_num_members()))


def trace(job, m, rng):
    spec = job["trace"]
    e = C.build(spec)
    cs = spec[1]
    sd = geom.sdim(cs)
    key = C.name(spec)
    n = e.space_dimension()
    cell = same_cell(m, e, cs, key)
    m.check("value-rank", e.value_shape() == (), key, lambda: "value shape %r" % (e.value_shape(),))
    m.check("mapping", e.mapping() == ["affine"] * n, key, lambda: "mapping %r" % (e.mapping()[:3],))
    m.check("form-degree", e.get_formdegree() == sd - 1, key, lambda: "form degree %r" % (e.get_formdegree(),))
    deg = max(spec[2]) if isinstance(spec[2], (list, tuple)) else spec[2]
    m.check("degree-bound", e.degree() == deg, key, lambda: "degree %r, expected %d" % (e.degree(), deg))
    ids = e.entity_dofs()
    top = cell.get_topology()
    m.check("table-sizes", set(ids) == set(top) and sum(len(v) for d in ids.values() for v in d.values()) == n == len(e.dual_basis()), key,
            "the entity table does not fit")
    for dim, ent in geom.entities(cell):
        sub = cell.construct_subelement(dim)
        pts = geom.random_points_of(sub, 2, rng) if geom.tdim(dim) else [()]
        T = e.tabulate(1, pts, (dim, ent))
        m.check("keys", set(T) == set(poly.mis_upto(sd, 1)), (key, dim, ent), lambda: "keys %s" % sorted(map(str, T)))
        for a, v in T.items():
            m.check("array-shape", isinstance(v, Exception) or np.shape(v) == (n, len(pts)), (key, dim, ent, a), lambda: "shape %s" % (np.shape(v),))


def quad(job, m, rng):
    import FIAT
    cs, k = job["quad"]
    cell = geom.make_cell(cs)
    q = FIAT.create_quadrature(cell, k)
    sd = geom.sdim(cs)
    e = FIAT.QuadratureElement(cell, q.get_points(), q.get_weights())
    n = len(q.get_points())
    key = job["key"]
    same_cell(m, e, cs, key)
    m.check("value-rank", e.value_shape() == () and e.space_dimension() == n and e.mapping() == ["affine"] * n, key,
            lambda: "value shape %r, dimension %r of %d points" % (e.value_shape(), e.space_dimension(), n))
    for ent in (None, (cell.get_dimension(), 0)):
        T = shapes(m, e, 0, q.get_points(), ent, sd, n, (), key)
        m.close("quadrature-element", T[(0,) * sd], np.eye(n), 0.0, what=key)
    ids = e.entity_dofs()
    m.check("table-sizes", ids[cell.get_dimension()][0] == list(range(n)) and sum(len(v) for d in ids.values() for v in d.values()) == n, key,
            "quadrature dofs do not belong to the cell")
    A = [list(L.get_point_dict().items()) for L in e.dual_basis()]
    ok = all(len(a) == 1 and np.allclose(a[0][0], p, atol=0) and a[0][1] == [(1.0, tuple())] for a, p in zip(A, q.get_points()))
    m.check("quadrature-element", ok, key + " nodes", "the nodes are not the values at the quadrature points")
    x = [tuple(np.asarray(p, float) + 0.01) for p in q.get_points()]
    m.raises("quadrature-element", lambda: e.tabulate(0, x), key + " other points")
    m.raises("quadrature-element", lambda: e.tabulate(1, q.get_points()), key + " derivative")
