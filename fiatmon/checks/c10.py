"""C10: tensor-product elements are the product of their factors."""
import itertools

import numpy as np

from fiatmon import catalog as C
from fiatmon import geom, poly

RULE = ("one case = product element x derivative multi-index x point set, compared with the products of the separately built factors' "
        "tabulations placed in the documented component, plus entity tables, degrees, form degree, mapping and the flattened version; "
        "non-trivial = some product value is non-zero")
REQUIRED = {"oracle:product-values": 1200, "oracle:entity-table": 200, "oracle:piola-values": 400, "oracle:flat-values": 80,
            "oracle:flat-entity": 200, "oracle:metadata": 500, "oracle:product-entity": 300, "event:tabulate": 1000}
ASSUMPTIONS = ["factors are judged on their own by the other properties; here they are built separately and taken as given",
               "a form degree of None (unset) in a factor makes the product's None"]

S1 = [["Lag", "I", 1], ["Lag", "I", 2], ["Lag", "I", 3], ["DG", "I", 0], ["DG", "I", 1], ["DG", "I", 2], ["GLL", "I", 2], ["GLL", "I", 4],
      ["GL", "I", 1], ["GL", "I", 3], ["GR", "I", 1], ["GR", "I", 2], ["P0", "I"], ["DPC", "I", 2], ["Res", ["Lag", "I", 3], {"domain": "interior"}],
      ["Bub", "I", 4], ["FBub", "I", 2], ["Disc", ["Lag", "I", 2]], ["Her", "I"], ["DT", "I", 2],
      ["NEnr", ["Lag", "I", 1], ["Bub", "I", 3]]]
S2 = [["Lag", "T", 1], ["Lag", "T", 2], ["DG", "T", 0], ["DG", "T", 1], ["CR", "T", 1], ["KMV", "T", 2], ["Lag", "T", 3], ["P0", "T"],
      ["Bub", "T", 3], ["Disc", ["Lag", "T", 1]]]
V2 = [["RT", "T", 1, "point"], ["RT", "T", 2, "integral"], ["N1", "T", 1, "integral"], ["N1", "T", 2, "point"], ["BDM", "T", 1, "point"],
      ["BDM", "T", 2, "integral"], ["N2", "T", 1, "integral"], ["N2", "T", 2, "point"]]
V3 = [["RT", "Tet", 1, "point"], ["N1", "Tet", 1, "point"], ["N1", "Tet", 1, "integral"]]


def kinds(s):
    while s[0] in ("Disc", "Res"):
        s = s[1]
    return {"DT": "moment", "Her": "mixed", "RT": "vector", "N1": "vector", "BDM": "vector", "N2": "vector"}.get(
        s[0], "vector" if s[0] in ("Hdiv", "Hcurl") else "point")


GOODB = {"point": ("point", "moment", "mixed"), "moment": ("point",), "mixed": ("point",),
         "vector": ("point",)}


def random_pairs(seed, n):
    """seeded random factors"""
    from fiatmon.core import rng_for
    rng = rng_for(seed, "C10 pairs")
    out = []
    while len(out) < n:
        r = rng.randint(10)
        if r < 3:
            a, b = pick(rng, S1), pick(rng, S1)
        elif r < 5:
            a, b = pick(rng, S2), pick(rng, S1)
        elif r < 6:
            a, b = pick(rng, S1), pick(rng, S2)
        elif r < 7:
            a, b = pick(rng, V2), pick(rng, S1)
        elif r < 8:
            a, b = ["Enr", ["Lag", "T", 1], ["Bub", "T", 3]], pick(rng, S1)
        elif r < 9:
            a, b = ["TP", pick(rng, [s for s in S1 if kinds(s) == "point"]), pick(rng, [s for s in S1 if kinds(s) == "point"])], pick(rng, S1)
        else:
            a, b = pick(rng, S1), ["TP", pick(rng, [s for s in S1 if kinds(s) == "point"]), pick(rng, [s for s in S1 if kinds(s) == "point"])]
        if kinds(b) not in GOODB[kinds(a)]:
            continue
        out.append(["TP", a, b])
    return out


def pick(rng, l):
    return l[rng.randint(len(l))]


HD1 = [(["Lag", "I", k], ["DG", "I", k - 1]) for k in (1, 2, 3)] + [(["GLL", "I", 2], ["GL", "I", 1]), (["Lag", "I", 2], ["GR", "I", 1]),
                                                                  (["GLL", "I", 3], ["DT", "I", 1])]


def extra_piola(tier):
    out = []
    for a, b in HD1:
        for w in ("Hdiv", "Hcurl"):
            for l, r in ((a, b), (b, a)):
                if kinds(r) in GOODB[kinds(l)]:
                    out.append([w, ["TP", l, r]])
    D = ["DG", "I", 0]
    L = ["Lag", "I", 1]
    for v in V2:
        hd = v[0] in ("RT", "BDM")
        out.append(["Hdiv", ["TP", v, ["DG", "I", 1]]])
        out.append(["Hcurl", ["TP", v, ["Lag", "I", 2]]])
    for inner in (["Hdiv", ["TP", L, D]], ["Hdiv", ["TP", D, L]], ["Hcurl", ["TP", L, D]], ["Hcurl", ["TP", D, L]]):
        out.append(["Hdiv", ["TP", inner, ["DG", "I", 1]]])
        out.append(["Hcurl", ["TP", inner, ["Lag", "I", 2]]])
    out.append(["Hdiv", ["TP", ["Lag", "I", 2], ["TP", D, ["DG", "I", 1]]]])
    out.append(["Hcurl", ["TP", D, ["TP", L, ["Lag", "I", 2]]]])
    out.append(["Hcurl", ["TP", ["TP", L, ["Lag", "I", 2]], ["DG", "I", 1]]])
    # derivative nodes only: the one kind of interval element that may come before a vector-valued factor
    der = ["Disc", ["Res", ["Her", "I"], {"indices": [1, 3]}]]
    for v in V2:
        out.append(["Hdiv", ["TP", der, v]] if v[0] in ("N1", "N2") else ["TP", der, v])
    # the interior moments of a vector-valued factor may come second
    for v, d, ws in ((["RT", "T", 2, "integral"], "interior", ("Hcurl", "Hdiv")), (["N1", "T", 2, "integral"], "interior", ("Hdiv", "Hcurl")),
                     (["RT", "T", 3, "integral"], "interior", ("Hcurl",)), (["N1", "T", 3, "integral"], "interior", ("Hdiv",))):
        r = ["Res", v, {"domain": d}]
        out.append(["TP", ["Lag", "I", 2], r])
        for w in ws:
            out.append([w, ["TP", ["Lag", "I", 1] if w == "Hcurl" else ["DG", "I", 1], r]])
    return out


def jobs(tier, seed):
    th = tier == "thorough"
    specs = [s for s in C.tp_specs(tier) + C.flat_specs(tier) + C.hdivcurl_specs(tier) if s[0] != "Enr"]
    specs += extra_piola(tier) + random_pairs(seed, 700 if not th else 4000)
    for v in V3:
        specs.append(["TP", v, ["Lag", "I", 1]])
    specs += [["Flat", s] for s in (["TP", ["GL", "I", 2], ["Lag", "I", 2]], ["TP", ["TP", ["Lag", "I", 3], ["DG", "I", 1]], ["Lag", "I", 2]],
                                    ["Enr", ["TP", ["Lag", "I", 1], ["Lag", "I", 1]], ["TP", ["Bub", "I", 2], ["Bub", "I", 2]]],
                                    ["Hdiv", ["TP", ["TP", ["DG", "I", 0], ["DG", "I", 1]], ["Lag", "I", 2]]],
                                    ["TP", ["Her", "I"], ["Lag", "I", 2]], ["Disc", ["TP", ["Lag", "I", 2], ["Lag", "I", 1]]])]
    return [{"key": C.name(s), "spec": s, "cost": geom.sdim(C.cell_of(s)) ** 2} for s in C.dedup(specs)] + C.lookalikes(('TP', 'Hdiv', 'Hcurl', 'Flat'))


def product(m, A, B, order, PA, PB):
    """oracle: products of the factors' tabulations, lexicographic"""
    ta, tb = A.tabulate(order, PA), B.tabulate(order, PB)
    da, db = A.get_reference_element().get_spatial_dimension(), B.get_reference_element().get_spatial_dimension()
    out = {}
    for al in poly.mis_upto(da + db, order):
        x, y = np.asarray(ta[al[:da]], float), np.asarray(tb[al[da:]], float)
        if x.ndim == 2 and y.ndim == 2:
            r = np.einsum("ip,jp->ijp", x, y).reshape(-1, x.shape[-1])
        elif x.ndim == 3:
            r = np.einsum("icp,jp->ijcp", x, y).reshape(-1, x.shape[1], x.shape[-1])
        else:
            r = np.einsum("ip,jcp->ijcp", x, y).reshape(-1, y.shape[1], x.shape[-1])
        out[al] = r
    return out


def place(w, A, B, val):
    """oracle: the documented component, sign and rotation of Hdiv/Hcurl"""
    da, db = A.get_reference_element().get_spatial_dimension(), B.get_reference_element().get_spatial_dimension()
    sd = da + db
    vecA, vecB = len(A.value_shape()) == 1, len(B.value_shape()) == 1
    if not vecA and not vecB:
        out = np.zeros((val.shape[0], sd, val.shape[1]))
        if w == "Hdiv":
            if A.get_formdegree() == 0:
                out[:, 0] = -val
            else:
                out[:, sd - 1] = val
        else:
            if A.get_formdegree() == 1:
                out[:, 0] = val
            else:
                out[:, sd - 1] = val
        return out
    out = np.zeros((val.shape[0], sd, val.shape[2]))
    mp = A.mapping()[0] if vecA else B.mapping()[0]
    v = val
    if w == "Hdiv" and mp == "covariant piola":
        v = np.stack([val[:, 1], -val[:, 0]], axis=1)
    if w == "Hcurl" and mp == "contravariant piola":
        v = np.stack([-val[:, 1], val[:, 0]], axis=1)
    o = 0 if vecA else da
    out[:, o:o + v.shape[1]] = v
    return out


def run(job, m):
    spec = job["spec"]
    if spec[0] == "Flat":
        return flat(spec, m)
    w = None
    tp = spec
    if spec[0] in ("Hdiv", "Hcurl"):
        w, tp = spec[0], spec[1]
    rng = m.rng()
    e = C.build(spec)
    A, B = C.build(tp[1]), C.build(tp[2])
    cell = e.get_reference_element()
    ca, cb = A.get_reference_element(), B.get_reference_element()
    da, db = ca.get_spatial_dimension(), cb.get_spatial_dimension()
    sd = da + db
    nA, nB = A.space_dimension(), B.space_dimension()
    # metadata
    m.check("metadata", e.space_dimension() == nA * nB, "dimension", lambda: "%d against %d x %d" % (e.space_dimension(), nA, nB))
    fa, fb = A.get_formdegree(), B.get_formdegree()
    fd = None if fa is None or fb is None else fa + fb
    m.check("metadata", e.get_formdegree() == fd, "form degree", lambda: "%s against %s + %s" % (e.get_formdegree(), fa, fb))
    m.check("metadata", e.degree() == max(A.degree(), B.degree()), "degree", lambda: "%s" % e.degree())
    m.check("metadata", e.get_order() == min(A.get_order(), B.get_order()), "order", lambda: "%s" % e.get_order())
    m.check("metadata", cell.get_spatial_dimension() == sd, "cell", "")
    m.check("metadata", bool(e.is_nodal()) == bool(A.is_nodal() and B.is_nodal()), "is_nodal", "")
    ma, mb = A.mapping()[0], B.mapping()[0]
    mp = ma if mb == "affine" else mb
    if w:
        mp = {"Hdiv": "contravariant piola", "Hcurl": "covariant piola"}[w]
    m.check("metadata", list(e.mapping()) == [mp] * (nA * nB), "mapping", lambda: "%s, expected %s" % (sorted(set(e.mapping())), mp))
    vs = (sd,) if w else (tuple(A.value_shape()) or tuple(B.value_shape()))
    m.check("metadata", tuple(e.value_shape()) == vs, "value shape", lambda: "%s, expected %s" % (e.value_shape(), vs))
    if len(e.dual_basis()) != nA * nB:
        m.check("metadata", False, "nodes", lambda: "%d nodes for %d functions" % (len(e.dual_basis()), nA * nB))
    # entity table
    ta, tb, te = A.entity_dofs(), B.entity_dofs(), e.entity_dofs()
    m.check("entity-table", set(te) == set(itertools.product(ta, tb)), "dimensions", lambda: "%s" % sorted(te))
    for x in ta:
        for y in tb:
            got = te.get((x, y), {})
            want = {}
            for k, (i, j) in enumerate(itertools.product(sorted(ta[x]), sorted(tb[y]))):
                want[k] = [p * nB + q for p in ta[x][i] for q in tb[y][j]]
            m.check("entity-table", got == want, (x, y), lambda: "%s, expected %s" % (got, want), nontrivial=any(want.values()))
    # the closure table is the product of the closure tables
    cla, clb, cle = A.entity_closure_dofs(), B.entity_closure_dofs(), e.entity_closure_dofs()
    for x in cla:
        for y in clb:
            for k, (i, j) in enumerate(itertools.product(sorted(cla[x]), sorted(clb[y]))):
                want = sorted(p * nB + q for p in cla[x][i] for q in clb[y][j])
                m.check("entity-table", sorted(cle[(x, y)][k]) == want, ("closure", x, y, k), "closure table is not the product", nontrivial=bool(want))
    # nodes: products of point evaluations sit at the concatenated point
    from FIAT import functional
    if not w and all(isinstance(n, functional.PointEvaluation) for n in list(A.dual_basis()) + list(B.dual_basis())):
        na, nb, ne = A.dual_basis(), B.dual_basis(), e.dual_basis()
        for i in range(nA):
            for j in range(nB):
                want = tuple(list(na[i].get_point_dict())[0]) + tuple(list(nb[j].get_point_dict())[0])
                got = ne[i * nB + j].get_point_dict()
                m.check("metadata", list(got) == [want] and got[want] == [(1.0, ())], ("node", i, j), lambda: "%s, expected %s" % (got, want))
    # values
    order = 2 if sd <= 3 else 1
    if sd <= 2:
        order = 4
    elif sd == 3 and (m.tier == "thorough" or rng.randint(4) == 0):
        order = 3
    for k, (npts, spread) in enumerate([(5, 0.2), (1, 0.0)]):
        PA = geom.random_points(C.cell_of(tp[1]), npts, rng, spread)
        PB = geom.random_points(C.cell_of(tp[2]), npts, rng, spread)
        P = [a + b for a, b in zip(PA, PB)]
        o = order if k == 0 else 0
        got = e.tabulate(o, P)
        ref = product(m, A, B, o, PA, PB)
        m.check("metadata", set(got) == set(ref), ("keys", k), "multi-indices")
        for al in ref:
            r = ref[al] if w is None else place(w, A, B, ref[al])
            m.close("product-values" if w is None else "piola-values", np.asarray(got[al], float), r, 1e-11, (al, npts))
    # entities are numbered row-major over the factors' entities
    for (x, y) in sorted(itertools.product(ta, tb), key=str):
        ea, eb = sorted(ta[x]), sorted(tb[y])
        pairs = list(enumerate(itertools.product(ea, eb)))
        for k, (i, j) in (pairs if len(pairs) <= 4 else [pairs[t] for t in sorted(set([0, len(pairs) - 1, rng.randint(len(pairs)), rng.randint(len(pairs))]))]):
            if geom.tdim(x) + geom.tdim(y) == sd:
                continue
            LA = geom.sub_ref_rule_points(ca, x, 2, rng)
            LB = geom.sub_ref_rule_points(cb, y, 2, rng)
            got = e.tabulate(0, [a + b for a, b in zip(LA, LB)], ((x, y), k))[(0,) * sd]
            va, vb = np.asarray(A.tabulate(0, LA, (x, i))[(0,) * da], float), np.asarray(B.tabulate(0, LB, (y, j))[(0,) * db], float)
            if va.ndim == 2 and vb.ndim == 2:
                r = np.einsum("ip,jp->ijp", va, vb).reshape(-1, 2)
            elif va.ndim == 3:
                r = np.einsum("icp,jp->ijcp", va, vb).reshape(-1, va.shape[1], 2)
            else:
                r = np.einsum("ip,jcp->ijcp", va, vb).reshape(-1, vb.shape[1], 2)
            if w:
                r = place(w, A, B, r)
            m.close("product-entity", np.asarray(got, float), r, 1e-11, (x, y, k))


def flat(spec, m):
    rng = m.rng()
    e, inner = C.build(spec), C.build(spec[1])
    cell, icell = e.get_reference_element(), inner.get_reference_element()
    sd = cell.get_spatial_dimension()
    n = inner.space_dimension()
    m.check("metadata", e.space_dimension() == n, "dimension", "")
    m.check("metadata", e.degree() == inner.degree(), "degree", "")
    m.check("metadata", e.get_order() == inner.get_order(), "order", "")
    m.check("metadata", e.get_formdegree() == inner.get_formdegree(), "form degree", "")
    m.check("metadata", list(e.mapping()) == list(inner.mapping()), "mapping", "")
    m.check("metadata", tuple(e.value_shape()) == tuple(inner.value_shape()), "value shape", "")
    m.check("metadata", bool(e.is_nodal()) == bool(inner.is_nodal()), "is_nodal", "")
    m.check("metadata", type(cell).__name__ == {2: "UFCQuadrilateral", 3: "UFCHexahedron"}[sd], "cell", type(cell).__name__)
    P = geom.random_points(C.cell_of(spec), 4, rng, 0.2)
    order = 4 if sd == 2 else 3
    a, b = e.tabulate(order, P), inner.tabulate(order, P)
    m.check("metadata", set(a) == set(b), "keys", "")
    for al in b:
        m.close("flat-values", np.asarray(a[al], float), np.asarray(b[al], float), 1e-12, al)
    # entities are matched by their vertices, not by the library's flattening map
    vi = [tuple(np.round(v, 12)) for v in np.asarray(icell.get_vertices(), float)]
    where = {}
    for d, en in geom.entities(icell):
        where[frozenset(vi[i] for i in icell.get_topology()[d][en])] = (d, en)
    vq = [tuple(np.round(v, 12)) for v in np.asarray(cell.get_vertices(), float)]
    te, ti = e.entity_dofs(), inner.entity_dofs()
    ce, ci = e.entity_closure_dofs(), inner.entity_closure_dofs()
    seen = 0
    for d, en in geom.entities(cell):
        key = frozenset(vq[i] for i in cell.get_topology()[d][en])
        di, ei = where[key]
        m.check("flat-entity", sorted(te[d][en]) == sorted(ti[di][ei]), (d, en), lambda: "%s, the product's entity has %s" % (te[d][en], ti[di][ei]))
        m.check("flat-entity", sorted(ce[d][en]) == sorted(ci[di][ei]), ("closure", d, en), "closure differs")
        seen += 1
        if 0 < d < sd:
            # same points of the same entity
            L = [tuple(float(z) for z in p) for p in rng.uniform(size=(2, d))]
            x = e.tabulate(0, L, (d, en))[(0,) * sd]
            y = inner.tabulate(0, L, (di, ei))[(0,) * sd]
            m.close("flat-values", np.asarray(x, float), np.asarray(y, float), 1e-12, (d, en))
    m.check("flat-entity", sum(len(v) for v in te.values()) == len(where) == seen, "all entities", "")
