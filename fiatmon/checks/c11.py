"""C11: composite elements are faithful to their parts."""
import numpy as np

from fiatmon import catalog as C
from fiatmon import duals, geom

RULE = ("one case = composite element (enriched, nodally enriched, mixed, restricted, discontinuous, bubble, discontinuous RT; also nested and "
        "seeded random constituents) x one observable (a tabulated array, an entity's table, a node, an accessor) against the same observable "
        "assembled from separately built parts; non-trivial = the expected answer is not empty/zero")
REQUIRED = {"oracle:enriched-values": 150, "oracle:mixed-values": 150, "oracle:restricted-values": 100, "oracle:discontinuous-values": 60,
            "oracle:nodal-enriched-span": 10, "oracle:entity-table": 1500, "oracle:nodes": 800, "oracle:accessors": 400,
            "oracle:restricted-set": 60, "event:tabulate": 800,
            "composites-on-other-simplices": 50}
ASSUMPTIONS = ["parts are judged on their own by the other properties", "the order of a restricted element is not compared (it is documented nowhere)"]

I, T, K = "I", "T", "Tet"
SCAL = {"I": [["Lag", I, 1], ["Lag", I, 3], ["DG", I, 0], ["DG", I, 2], ["Bub", I, 2], ["Bub", I, 4], ["GLL", I, 3], ["GL", I, 2], ["Her", I],
              ["Bern", I, 2], ["DT", I, 2], ["FBub", I, 1]],
        "T": [["Lag", T, 1], ["Lag", T, 2], ["Lag", T, 4], ["DG", T, 0], ["DG", T, 1], ["CR", T, 1], ["Bub", T, 3], ["Bub", T, 4], ["FBub", T, 2],
              ["FBub", T, 3], ["Her", T], ["Mor", T], ["KMV", T, 2], ["Bern", T, 2], ["DT", T, 1], ["Arg", T, 5], ["Bell", T]],
        "Tet": [["Lag", K, 1], ["Lag", K, 2], ["DG", K, 1], ["CR", K, 1], ["Bub", K, 4], ["FBub", K, 3], ["Her", K], ["DG", K, 0], ["Bern", K, 1]]}
CON = {"T": [["RT", T, 1, "point"], ["RT", T, 2, "integral"], ["BDM", T, 1, "point"], ["BDM", T, 2, "integral"], ["DRT", T, 1], ["BDFM", T, 2], ["MTW", T, 3]],
       "Tet": [["RT", K, 1, "point"], ["BDM", K, 1, "integral"], ["RT", K, 2, "point"], ["DRT", K, 1]]}
COV = {"T": [["N1", T, 1, "point"], ["N1", T, 2, "integral"], ["N2", T, 1, "point"], ["N2", T, 2, "integral"]],
       "Tet": [["N1", K, 1, "point"], ["N2", K, 1, "point"], ["N1", K, 2, "point"]]}
TEN = {"T": [["Reg", T, 0], ["Reg", T, 1]], "Tet": [["Reg", K, 0]]}
TENN = {"T": [["HHJ", T, 0], ["HHJ", T, 1]]}
TENW = {"T": [["AWnc", T, 2], ["AW", T, 3]]}
QUAD = {"Q": [["S", "Q", 1], ["S", "Q", 3], ["DPC", "Q", 1], ["DPC", "Q", 2], ["Flat", ["TP", ["Lag", I, 2], ["Lag", I, 1]]],
              ["Flat", ["TP", ["DG", I, 0], ["DG", I, 1]]]],
        "TPII": [["TP", ["Lag", I, 1], ["Lag", I, 2]], ["TP", ["DG", I, 1], ["DG", I, 0]], ["TP", ["Bub", I, 2], ["Bub", I, 3]],
                 ["TP", ["Lag", I, 2], ["DG", I, 1]]],
        "TPTI": [["TP", ["Lag", T, 1], ["Lag", I, 1]], ["TP", ["DG", T, 1], ["DG", I, 0]], ["TP", ["Lag", T, 2], ["DG", I, 1]]]}
HD = {"TPII": [["Hdiv", ["TP", ["Lag", I, 1], ["DG", I, 0]]], ["Hdiv", ["TP", ["DG", I, 1], ["Lag", I, 2]]], ["Hdiv", ["TP", ["GLL", I, 2], ["GL", I, 1]]]],
      "TPTI": [["Hdiv", ["TP", ["RT", T, 1, "point"], ["DG", I, 0]]], ["Hdiv", ["TP", ["DG", T, 0], ["Lag", I, 1]]]]}
HC = {"TPII": [["Hcurl", ["TP", ["Lag", I, 1], ["DG", I, 0]]], ["Hcurl", ["TP", ["DG", I, 1], ["Lag", I, 2]]]],
      "TPTI": [["Hcurl", ["TP", ["N1", T, 1, "point"], ["Lag", I, 1]]], ["Hcurl", ["TP", ["Lag", T, 2], ["DG", I, 1]]]]}
DOMS = {"I": ["interior", "vertex", "facet"], "T": ["interior", "vertex", "edge", "facet"], "Tet": ["interior", "vertex", "edge", "face", "facet"]}


# composites on cells of the user's choosing
MOVED = [["NEnr", ["Lag", T, 1], ["Bub", T, 3]], ["NEnr", ["Lag", T, 2], ["Bub", T, 3]], ["NEnr", ["Lag", I, 1], ["Bub", I, 4]], ["NEnr", ["Lag", K, 1], ["FBub", K, 3]],
         ["NEnr", ["DG", T, 1], ["Bub", T, 3]], ["Enr", ["Lag", T, 2], ["Bub", T, 3]], ["Enr", ["RT", T, 1, "point"], ["BDM", T, 2, "point"]],
         ["Enr", ["N1", K, 1, "point"], ["N2", K, 1, "point"]], ["Enr", ["Her", T], ["Bub", T, 3]], ["Enr", ["Reg", T, 0], ["Reg", T, 1]],
         ["Mix", ["Lag", T, 1], ["RT", T, 1, "point"], ["Reg", T, 0]], ["Mix", ["N1", K, 1, "integral"], ["Lag", K, 2]], ["Mix", ["Lag", I, 2], ["DG", I, 1]],
         ["Mix", ["Mor", T], ["N2", T, 1, "integral"]], ["Res", ["RT", T, 2, "integral"], {"domain": "interior"}], ["Res", ["Lag", T, 4], {"domain": "edge"}],
         ["Res", ["N1", K, 2, "point"], {"domain": "face"}], ["Res", ["Arg", T, 5], {"domain": "vertex"}], ["Res", ["Lag", I, 4], {"domain": "interior"}],
         ["Res", ["DG", T, 2], {"indices": "random7"}], ["Disc", ["RT", T, 2, "point"]], ["Disc", ["Lag", K, 2]], ["Disc", ["Mix", ["Lag", T, 2], ["N1", T, 1, "point"]]],
         ["Disc", ["Her", I]], ["Bub", T, 3], ["FBub", T, 3], ["Bub", I, 4], ["DRT", T, 1], ["DRT", K, 1]]
SIZES = {"random": (0.5, 2.0), "tiny": (1e-7, 1e-6), "huge": (1e4, 1e6), "small": (1e-3, 1e-2)}


def put(spec, cells):
    """replace base cells by vertex lists"""
    if spec[0] in C.COMPOSITE:
        return [spec[0]] + [put(x, cells) if isinstance(x, list) and x and isinstance(x[0], str) else x for x in spec[1:]]
    return [spec[0], cells[spec[1]]] + list(spec[2:])


def pick(rng, l):
    return l[rng.randint(len(l))]


def random_specs(seed, n):
    from fiatmon.core import rng_for
    rng = rng_for(seed, "C11 random")
    out = []
    groups = [SCAL, CON, COV, TEN, TENN, TENW, QUAD, HD, HC]
    while len(out) < n:
        r = rng.randint(8)
        if r < 3:
            g = pick(rng, groups)
            c = pick(rng, sorted(g))
            out.append(["Enr"] + [pick(rng, g[c]) for _ in range(rng.randint(1, 4))])
        elif r < 6:
            c = pick(rng, ["I", "T", "T", "Tet", "Q", "TPII", "TPTI"])
            pool = [s for g in groups for s in g.get(c, [])]
            parts = [pick(rng, pool) for _ in range(rng.randint(1, 4))]
            for k in range(len(parts)):
                q = rng.randint(8)
                if q == 0 and parts[k][0] not in ("Bern",):
                    parts[k] = ["Disc", parts[k]]
                elif q == 1:
                    parts[k] = ["Mix", parts[k], pick(rng, pool)]
                elif q == 2 and parts[k][0] in ("Lag", "RT", "N1"):
                    parts[k] = ["Enr", parts[k], parts[k]]
            out.append(["Mix"] + parts)
        elif r < 7:
            g = pick(rng, [SCAL, CON, COV, TEN, TENN])
            c = pick(rng, sorted(g))
            s = pick(rng, [s for s in g[c] if s[0] != "Bern"])
            out.append(["Res", s, {"indices": "random%d" % rng.randint(1000)}])
        else:
            g = pick(rng, groups)
            c = pick(rng, sorted(g))
            s = pick(rng, g[c])
            q = rng.randint(4)
            if q > 1:
                # wrapped elements whose functions have different mappings, shapes and continuity
                pool = [t for h in groups for t in h.get(c, [])]
                out.append(["Disc", ["Mix"] + [pick(rng, pool) for _ in range(rng.randint(1, 4))]])
            else:
                out.append(["Disc", s if q else ["Enr", s, s]])
    return out


def jobs(tier, seed):
    th = tier == "thorough"
    specs = list(C.composite_specs(tier))
    specs += [s for s in C.simple_specs(tier) if s[0] in ("Bub", "FBub", "DRT")]
    for g in (SCAL, CON, COV, TEN, TENN, TENW):
        for c in g:
            for s in g[c]:
                if s[0] in ("Bern", "DRT", "DG", "DT"):
                    continue
                for d in DOMS[c]:
                    specs.append(["Res", s, {"domain": d}])
    specs += [["Enr", ["HHJ", T, 0], ["Res", ["HHJ", T, 1], {"domain": "interior"}]], ["Enr", ["Reg", T, 0], ["Reg", T, 1]],
              ["Enr", ["Reg", K, 0], ["Reg", K, 0]],
              ["NEnr", ["Lag", T, 2], ["Bub", T, 4]], ["NEnr", ["Lag", K, 2], ["Bub", K, 4]], ["NEnr", ["Lag", K, 1], ["FBub", K, 3], ["Bub", K, 4]],
              ["NEnr", ["Bub", T, 3], ["Lag", T, 1]], ["NEnr", ["Lag", I, 1], ["Bub", I, 4]],
              ["NEnr", ["Reg", T, 0], ["Res", ["Reg", T, 1], {"domain": "interior"}]],
              ["NEnr", ["N1", T, 1, "integral"], ["Res", ["N1", T, 2, "integral"], {"domain": "interior"}]],
              ["NEnr", ["DG", T, 1], ["Bub", T, 3]], ["NEnr", ["Lag", I, 1], ["Bub", I, 5]],
              ["NEnr", ["Disc", ["Lag", T, 1]], ["Bub", T, 3]], ["NEnr", ["GLL", I, 1], ["Bub", I, 4]],
              ["Mix", ["Mix", ["Lag", T, 1], ["RT", T, 1, "point"]], ["Reg", T, 0]], ["Mix", ["Lag", T, 1]],
              ["Disc", ["Mix", ["Lag", T, 1], ["DG", T, 0]]], ["Disc", ["Mix", ["RT", T, 1, "point"], ["DG", T, 0]]],
              ["Disc", ["Mix", ["Reg", T, 0], ["N1", T, 1, "point"], ["Lag", T, 2]]], ["Disc", ["Res", ["N1", T, 2, "point"], {"domain": "facet"}]],
              ["Disc", ["Mix", ["Lag", K, 1], ["RT", K, 1, "point"]]], ["Mix", ["Disc", ["RT", T, 1, "point"]], ["Res", ["Lag", T, 3], {"domain": "edge"}]], ["Disc", ["NEnr", ["Lag", T, 1], ["Bub", T, 3]]], ["Disc", ["Disc", ["Lag", T, 1]]],
              ["Disc", ["S", "Q", 2]], ["Disc", ["Hdiv", ["TP", ["Lag", I, 1], ["DG", I, 0]]]], ["Disc", ["Flat", ["TP", ["Lag", I, 1], ["Lag", I, 1]]]]]
    specs += random_specs(seed, 260 if not th else 1500)
    specs = [s for s in C.dedup(specs) if s[0] in KIND]
    out = [{"key": C.name(s), "spec": s, "cost": geom.sdim(C.cell_of(s))} for s in specs]
    for s in MOVED:
        for z in ("random", "tiny", "huge") if not th else sorted(SIZES):
            for rep in range(1 if not th else 4):
                out.append({"key": "%s%d:%s" % (z, rep, C.name(s)), "spec": s, "size": z, "cost": 2})
        if s[0] != "Bub" and s[1][0] != "Bub":
            out.append({"key": "siblings:" + C.name(s), "siblings": C.cell_of(s), "spec": s, "size": "random", "cost": 8})
    out += C.lookalikes(('Res', 'Disc', 'Enr', 'NEnr', 'Mix'))
    return out


def same_node(a, b):
    if a is None or b is None:
        return a is b
    return (duals.terms(a) == duals.terms(b) and str(a.get_type_tag()) == str(b.get_type_tag())
            and a.target_shape == b.target_shape) if a.get_point_dict() is not None else a.get_point_dict() == b.get_point_dict()


def run(job, m):
    spec = [x for x in job["spec"]]
    if "size" in job:
        z = SIZES[job["size"]]
        base = C.cell_of(spec)
        spec = put(spec, {base: geom.random_simplex(base, m.rng(), scale=z, offset=2 * z[1])})
        m.count("composites-on-other-simplices")
    KIND[spec[0]](spec, m, m.rng())


def sample(spec, e, rng, spread=0.2, n=4):
    """(order, points, entity) queries: the cell, and one entity of every dimension"""
    cell = e.get_reference_element()
    sd = cell.get_spatial_dimension()
    qs = [((3 if sd < 2 else 2) if spec[0] not in ("Disc",) else 2, geom.random_points(C.cell_of(spec), n, rng, spread), None),
          (0, geom.random_points(C.cell_of(spec), 1, rng), None)]
    top = cell.get_topology()
    for d in sorted(top, key=str):
        if 0 < geom.tdim(d) < sd:
            en = sorted(top[d])[rng.randint(len(top[d]))]
            qs.append((1, geom.sub_ref_rule_points(cell, d, 3, rng), (d, en)))
    return qs


def tab(e, q):
    return {k: np.asarray(v, float) for k, v in e.tabulate(*q).items()}


def compare(m, oracle, got, want, tag, tol=1e-12):
    m.check("keys", set(got) == set(want), tag, lambda: "%s, expected %s" % (sorted(got), sorted(want)))
    for k in want:
        if k in got:
            m.close(oracle, got[k], want[k], tol, (tag, k))


def concat_tables(m, e, parts):
    off = 0
    te = e.entity_dofs()
    want = {d: {en: [] for en in te[d]} for d in te}
    offs = []
    for p in parts:
        offs.append(off)
        for d, ents in p.entity_dofs().items():
            for en, ids in ents.items():
                want[d][en] += [int(i) + off for i in ids]
        off += p.space_dimension()
    for d in want:
        for en in want[d]:
            m.check("entity-table", [int(i) for i in te[d][en]] == want[d][en], (d, en), lambda: "%s, expected %s" % (te[d][en], want[d][en]),
                    nontrivial=bool(want[d][en]))
    m.check("entity-table", set(te) == set(e.get_reference_element().get_topology()), "dimensions", "")
    cl = e.entity_closure_dofs()
    for d in cl:
        for en in cl[d]:
            w = sorted(int(i) + o for p, o in zip(parts, offs) for i in p.entity_closure_dofs()[d][en])
            m.check("entity-table", sorted(int(i) for i in cl[d][en]) == w, ("closure", d, en), lambda: "%s, expected %s" % (cl[d][en], w), nontrivial=bool(w))
    m.check("accessors", e.space_dimension() == off, "dimension", lambda: "%d, expected %d" % (e.space_dimension(), off))


def concat_nodes(m, e, parts):
    want = [n for p in parts for n in p.dual_basis()]
    got = list(e.dual_basis())
    m.check("nodes", len(got) == len(want), "number", "")
    for i, (a, b) in enumerate(zip(got, want)):
        m.check("nodes", same_node(a, b), i, lambda: "node %d is not the part's node" % i)


def enriched(spec, m, rng):
    e = C.build(spec)
    parts = [C.build(s) for s in spec[1:]]
    for q in sample(spec, e, rng):
        tabs = [tab(p, q) for p in parts]
        compare(m, "enriched-values", tab(e, q), {k: np.concatenate([t[k] for t in tabs]) for k in tabs[0]}, str(q[2]))
    concat_tables(m, e, parts)
    concat_nodes(m, e, parts)
    A = lambda n, a, b: m.check("accessors", a == b, n, lambda: "%s is %s, expected %s" % (n, a, b))
    A("degree", e.degree(), max(p.degree() for p in parts))
    A("order", e.get_order(), max(p.get_order() for p in parts))
    fds = [p.get_formdegree() for p in parts]
    A("formdegree", e.get_formdegree(), None if None in fds else max(fds))
    A("mapping", list(e.mapping()), [x for p in parts for x in p.mapping()])
    A("value_shape", tuple(e.value_shape()), tuple(parts[0].value_shape()))
    A("cell", e.get_reference_element(), parts[0].get_reference_element())
    A("elements", [type(x).__name__ for x in e.elements()], [type(x).__name__ for x in parts])
    A("nodal", bool(e.is_nodal()), False)


def nodal_enriched(spec, m, rng):
    e = C.build(spec)
    parts = [C.build(s) for s in spec[1:]]
    n = sum(p.space_dimension() for p in parts)
    M = None
    for k, q in enumerate([(2, geom.random_points(C.cell_of(spec), 2 * n + 4, rng, 0.1), None)] + sample(spec, e, rng)[1:]):
        te = tab(e, q)
        tabs = [tab(p, q) for p in parts]
        tp = {key: np.concatenate([t[key] for t in tabs]) for key in tabs[0]}
        z = sorted(te)[0]
        if M is None:
            X, Y = te[z].reshape(n, -1), tp[z].reshape(n, -1)
            # e = M parts
            M = np.linalg.lstsq(Y.T, X.T, rcond=None)[0].T
            s = np.linalg.svd(M, compute_uv=False)
            m.check("nodal-enriched-span", s[-1] > 1e-8 * s[0], "invertible", lambda: "singular values %s" % s)
            m.close("nodal-enriched-span", M @ Y, X, 1e-9, "every function is a combination of the parts", scale=1 + np.abs(X).max())
        for key in tp:
            want = np.tensordot(M, tp[key], 1)
            m.close("nodal-enriched-values", te[key], want, 1e-8, (str(q[2]), key), scale=1 + np.abs(want).max())
    concat_tables(m, e, parts)
    concat_nodes(m, e, parts)
    sd = e.get_reference_element().get_spatial_dimension()
    nodes = list(e.dual_basis())
    idx = duals.published(nodes)
    A = duals.action(nodes, idx, lambda o, p: e.tabulate(o, p), sd, n)
    m.close("nodal-enriched-nodality", A, np.eye(n)[idx], 1e-8, "dual", scale=max(1, np.abs(A).max()))
    A = lambda n_, a, b: m.check("accessors", a == b, n_, lambda: "%s is %s, expected %s" % (n_, a, b))
    A("degree", e.degree(), max(p.degree() for p in parts))
    A("order", e.get_order(), max(p.get_order() for p in parts))
    fds = [p.get_formdegree() for p in parts]
    A("formdegree", e.get_formdegree(), None if None in fds else max(fds))
    A("mapping", list(e.mapping()), [x for p in parts for x in p.mapping()])
    A("value_shape", tuple(e.value_shape()), tuple(parts[0].value_shape()))
    A("nodal", bool(e.is_nodal()), True)


def mixed(spec, m, rng):
    e = C.build(spec)
    parts = [C.build(s) for s in spec[1:]]
    ncs = [int(np.prod(p.value_shape(), dtype=int)) for p in parts]
    nfs = [p.space_dimension() for p in parts]
    for q in sample(spec, e, rng):
        tabs = [tab(p, q) for p in parts]
        want = {}
        for k in tabs[0]:
            a = np.zeros((sum(nfs), sum(ncs), len(q[1])))
            i = c = 0
            for t, nf, nc in zip(tabs, nfs, ncs):
                # components of a tensor-valued part in row-major order
                a[i:i + nf, c:c + nc] = t[k].reshape(nf, nc, -1)
                i, c = i + nf, c + nc
            want[k] = a
        compare(m, "mixed-values", tab(e, q), want, str(q[2]))
    concat_tables(m, e, parts)
    concat_nodes(m, e, parts)
    A = lambda n, a, b: m.check("accessors", a == b, n, lambda: "%s is %s, expected %s" % (n, a, b))
    A("mapping", list(e.mapping()), [x for p in parts for x in p.mapping()])
    A("value_shape", tuple(int(x) for x in e.value_shape()), (sum(ncs),))
    A("num_sub_elements", e.num_sub_elements(), len(parts))
    A("elements", [type(x).__name__ for x in e.elements()], [type(x).__name__ for x in parts])
    A("nodal", bool(e.is_nodal()), all(p.is_nodal() for p in parts))
    A("cell", e.get_reference_element(), parts[0].get_reference_element())


def chosen(parent, o, rng):
    """the parent's degrees of freedom the restriction keeps (independent of the library's selection)"""
    n = parent.space_dimension()
    if "indices" in o:
        return set(o["indices"])
    d = o["domain"]
    sd = parent.get_reference_element().get_spatial_dimension()
    ed = parent.entity_dofs()
    lim = {"vertex": 0, "edge": 1, "face": 2, "facet": sd - 1}.get(d)
    return set(i for dim in ed for en in ed[dim] for i in ed[dim][en] if (geom.tdim(dim) == sd if d == "interior" else geom.tdim(dim) <= lim))


def restricted(spec, m, rng):
    o = dict(spec[2])
    parent = C.build(spec[1])
    n = parent.space_dimension()
    if isinstance(o.get("indices"), str):
        k = rng.randint(1, n + 1)
        o["indices"] = [int(i) for i in rng.permutation(n)[:k]]
    keep = chosen(parent, o, rng)
    if not keep:
        m.raises("restricted-empty", lambda: C.build([spec[0], spec[1], o]), "a restriction that keeps nothing")
        m.count("empty restriction")
        return
    e = C.build([spec[0], spec[1], o])
    check_subset(spec, e, parent, keep, m, rng)


def check_subset(spec, e, parent, keep, m, rng):
    m.check("restricted-set", e.space_dimension() == len(keep), "dimension", lambda: "%d degrees of freedom kept, expected %d" % (e.space_dimension(), len(keep)))
    te, tp = e.entity_dofs(), parent.entity_dofs()
    new2old = {}
    for d in tp:
        for en in tp[d]:
            old = [i for i in tp[d][en] if i in keep]
            new = list(te[d][en])
            if m.check("entity-table", len(old) == len(new), (d, en), lambda: "entity keeps %s, expected those of %s" % (new, old), nontrivial=bool(old)):
                new2old.update(zip(new, old))
    if not m.check("restricted-set", sorted(new2old) == list(range(len(keep))), "numbering", lambda: "%s" % sorted(new2old)):
        return
    perm = [new2old[i] for i in range(len(keep))]
    for q in sample(spec, e, rng):
        t = tab(parent, q)
        compare(m, "restricted-values", tab(e, q), {k: t[k][perm] for k in t}, str(q[2]), 1e-8)
    no, nn = list(parent.dual_basis()), list(e.dual_basis())
    for i in range(len(keep)):
        m.check("nodes", same_node(nn[i], no[perm[i]]), i, lambda: "node %d is not the parent's node %d" % (i, perm[i]))
    A = lambda n_, a, b: m.check("accessors", a == b, n_, lambda: "%s is %s, expected %s" % (n_, a, b))
    A("mapping", list(e.mapping()), [parent.mapping()[i] for i in perm])
    A("value_shape", tuple(e.value_shape()), tuple(parent.value_shape()))
    A("formdegree", e.get_formdegree(), parent.get_formdegree())
    A("degree", e.degree(), parent.degree())
    A("cell", e.get_reference_element(), parent.get_reference_element())
    A("nodal", bool(e.is_nodal()), True)


def bubble(spec, m, rng):
    e = C.build(spec)
    parent = C.build(["Lag"] + spec[1:])
    sd = e.get_reference_element().get_spatial_dimension()
    dim = sd if spec[0] == "Bub" else sd - 1
    ed = parent.entity_dofs()
    check_subset(spec, e, parent, set(i for en in ed[dim] for i in ed[dim][en]), m, rng)


def discontinuous(spec, m, rng):
    e = C.build(spec)
    w = C.build(spec[1])
    for q in sample(spec, e, rng):
        compare(m, "discontinuous-values", tab(e, q), tab(w, q), str(q[2]))
    cell = e.get_reference_element()
    sd = cell.get_spatial_dimension()
    te = e.entity_dofs()
    m.check("entity-table", set(te) == set(cell.get_topology()), "dimensions", "")
    for d in te:
        for en in te[d]:
            want = list(range(w.space_dimension())) if geom.tdim(d) == sd else []
            m.check("entity-table", list(te[d][en]) == want, (d, en), lambda: "%s" % te[d][en])
    for d, ents in e.entity_closure_dofs().items():
        for en, ids in ents.items():
            want = list(range(w.space_dimension())) if geom.tdim(d) == sd else []
            m.check("entity-table", sorted(ids) == want, ("closure", d, en), lambda: "%s" % ids)
    concat_nodes(m, e, [w])
    A = lambda n, a, b: m.check("accessors", a == b, n, lambda: "%s is %s, expected %s" % (n, a, b))
    A("formdegree", e.get_formdegree(), sd)
    for nm in ("get_order", "mapping", "num_sub_elements", "space_dimension", "value_shape", "get_reference_element", "is_nodal"):
        A(nm, getattr(e, nm)(), getattr(w, nm)())
    if spec[1][0] != "Mix":
        A("degree", e.degree(), w.degree())
    for nm in ("get_coeffs", "dmats"):
        try:
            b = getattr(w, nm)()
        except Exception as x:
            m.raises("accessors", getattr(e, nm), nm)
            continue
        a = getattr(e, nm)()
        m.check("accessors", len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b)), nm, "%s differs" % nm)
    try:
        b = w.get_num_members(3)
    except Exception:
        b = None
    if b is not None:
        A("get_num_members", e.get_num_members(3), b)
    try:
        b = w.get_nodal_basis().get_num_members()
    except Exception:
        b = None
    if b is not None:
        A("get_nodal_basis", e.get_nodal_basis().get_num_members(), b)


def drt(spec, m, rng):
    e = C.build(spec)
    w = C.build(["RT"] + spec[1:] + ["point"])
    sd = e.get_reference_element().get_spatial_dimension()
    n = w.space_dimension()
    m.check("accessors", e.space_dimension() == n, "dimension", "")
    q = (0, geom.random_points(C.cell_of(spec), n + 3, rng, 0.1), None)
    X, Y = tab(e, q)[(0,) * sd].reshape(n, -1), tab(w, q)[(0,) * sd].reshape(n, -1)
    M = np.linalg.lstsq(Y.T, X.T, rcond=None)[0].T
    m.close("drt-span", M @ Y, X, 1e-9, "spans the Raviart-Thomas space", scale=1 + np.abs(X).max())
    s = np.linalg.svd(M, compute_uv=False)
    m.check("drt-span", s[-1] > 1e-8 * s[0], "invertible", "")
    for d, ents in e.entity_dofs().items():
        for en, ids in ents.items():
            m.check("entity-table", list(ids) == (list(range(n)) if d == sd else []), (d, en), lambda: "%s" % ids)
    m.check("accessors", list(e.mapping()) == list(w.mapping()), "mapping", "")
    m.check("accessors", tuple(e.value_shape()) == tuple(w.value_shape()), "value_shape", "")
    m.check("accessors", e.degree() == w.degree(), "degree", "")


KIND = {"Enr": enriched, "NEnr": nodal_enriched, "Mix": mixed, "Res": restricted, "Disc": discontinuous, "Bub": bubble, "FBub": bubble, "DRT": drt}
