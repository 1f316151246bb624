"""C06: degrees of freedom are laid out on the mesh entities they belong to."""
import itertools
from math import comb

import numpy as np

from fiatmon import catalog as C
from fiatmon import duals, geom, poly
from fiatmon.checks.c01 import OSPECS, VSPECS, sibling_jobs

RULE = ("one case = one entity of one element: its dof list, closure list, count and the location of the data of its nodes; "
        "non-trivial = the entity (or its closure) carries at least one dof")
REQUIRED = {"oracle:partition": 380, "oracle:closure": 4000, "oracle:count": 1200, "oracle:locality": 3000,
            "oracle:same-layout": 600, "oracle:documented-count": 500, "oracle:lattice-order": 200}
ASSUMPTIONS = ["the locality of nodes is judged only for elements that publish node data"]


def jobs(tier, seed):
    out = []
    for s in C.all_specs(tier) + C.high_specs(tier) + C.trace_specs(tier):
        out.append({"key": C.name(s), "spec": s, "cost": geom.sdim(C.cell_of(s))})
    for s in OSPECS:
        out.append({"key": C.name(list(s)), "spec": list(s), "cost": 1})
    for s in VSPECS + [("Bern", "T", 3), ("Bern", "Tet", 4), ("HDT", "T", 2), ("HDT", "Tet", 1)]:
        if s[0] == "KMV":
            continue      # its nodes are tabulated for the reference cell only
        for rep in range(1 if tier == "quick" else 5):
            out.append({"key": "rnd%d:%s" % (rep, C.name(list(s))), "random": list(s), "rep": rep, "cost": 1})
    out += sibling_jobs()
    out += C.lookalikes()
    return out


def kind_of(cell, dim, ent):
    """entities of one kind: same dimension, same factor dimensions"""
    facs = geom.entity_factors(cell, dim, ent)
    if hasattr(cell, "product"):
        return (dim, tuple(cell.unflattening_map[(dim, ent)][0]) if isinstance(cell.unflattening_map[(dim, ent)][0], tuple)
                else cell.unflattening_map[(dim, ent)][0])
    return (dim, tuple(len(f) for f in facs))


def no_pt(k):
    """interior points of the degree-k lattice"""
    return lambda d: comb(k - 1, d) if k >= 1 else 0


def documented(spec, d):
    """number of dofs on an entity of each dimension, or None"""
    fam, a = spec[0], spec[2:]
    D = poly.dim_P
    if fam in ("Lag", "Bern"):
        return {i: (1 if i == 0 else comb(a[0] - 1, i)) for i in range(d + 1)}
    if fam == "GLL":
        return {0: 1, 1: a[0] - 1}
    if fam in ("DG", "GL", "GR", "DT", "DPC"):
        return {d: D(d, a[0])}
    if fam == "P0":
        return {d: 1}
    if fam == "CR":
        return {d - 1: 1}
    if fam == "Her":
        return {0: d + 1, 2: 1 if d >= 2 else 0}
    if fam == "Mor":
        return {0: 1, 1: 1}
    if fam == "Arg":
        return {0: 6, 1: (a[0] - 4) + (a[0] - 5), 2: D(2, a[0] - 6)}
    if fam == "QArg":
        return {0: 6, 1: 1}
    if fam == "Bell":
        return {0: 6, 1: 1}
    if fam == "RT":
        return {d - 1: D(d - 1, a[0] - 1), d: d * D(d, a[0] - 2)}
    if fam == "DRT":
        return {d: None}
    if fam == "BDM":
        k = a[0]
        return {d - 1: D(d - 1, k), d: (k * k - 1 if d == 2 else (k - 1) * (k + 1) * (k + 2) // 2)}
    if fam == "N1":
        k = a[0]
        return {1: k, 2: 2 * D(2, k - 2)} if d == 2 else {1: k, 2: 2 * D(2, k - 2), 3: 3 * D(3, k - 3)}
    if fam == "N2":
        k = a[0]
        return {1: k + 1, 2: (k - 1) * (k + 1)} if d == 2 else {1: k + 1, 2: (k - 1) * (k + 1), 3: (k - 2) * (k - 1) * (k + 1) // 2}
    if fam == "BDFM":
        return {1: 2, 2: 3}
    if fam == "Reg":
        k = a[0]
        return {1: k + 1, 2: 3 * D(2, k - 1), 3: 6 * D(3, k - 2) if d == 3 else 0}
    if fam == "HHJ":
        return {1: a[0] + 1, 2: 3 * D(2, a[0] - 1)}
    if fam == "AWnc":
        return {1: 5, 2: 3}
    if fam == "AW":
        return {0: 3, 1: 4, 2: 9}
    if fam == "MTW":
        return {1: 5, 2: 5}
    if fam == "Bub":
        return {d: D(d, a[0] - d - 1)}
    if fam == "FBub":
        return {d - 1: comb(a[0] - 1, d - 1) if d > 1 else 1}
    if fam == "S":
        r = a[0]
        return {0: 1, 1: r - 1, 2: D(2, r - 4), 3: D(3, r - 6)}
    if fam == "KMV":
        if d == 2:
            return {0: 1, 1: a[0] - 1, 2: {1: 0, 2: 1, 3: 3, 4: 6, 5: 15}[a[0]]}
        return {0: 1, 1: a[0] - 1, 2: {1: 0, 2: 1, 3: 3}[a[0]], 3: {1: 0, 2: 1, 3: 4}[a[0]]}
    return None


def run(job, m):
    spec = job.get("spec")
    rng = m.rng()
    if "random" in job:
        base = job["random"]
        spec = [base[0], geom.random_simplex(base[1], rng)] + base[2:]
    e = C.build(spec)
    n = e.space_dimension()
    cell = e.get_reference_element()
    ed = e.entity_dofs()
    top = cell.get_topology()
    shape_ok = set(ed) == set(top) and all(set(ed[d]) == set(top[d]) for d in top)
    if not m.check("tables-cover-topology", shape_ok, C.name(spec),
                   lambda: "entity_dofs keys %s, topology %s" % ({d: sorted(ed[d]) for d in ed}, {d: sorted(top[d]) for d in top})):
        return
    alld = [x for d in top for k in top[d] for x in ed[d][k]]
    m.check("partition", sorted(alld) == list(range(n)), C.name(spec),
            lambda: "dofs in the entity table %s, dimension %d" % (sorted(alld)[:60], n), sample={"dofs": n})
    # closure = union over sub-entities (by vertex sets)
    cl = e.entity_closure_dofs()
    ents = geom.entities(cell)
    vs = {de: set(top[de[0]][de[1]]) for de in ents}
    for de in ents:
        want = sorted(x for f in ents if vs[f] <= vs[de] for x in ed[f[0]][f[1]])
        got = cl.get(de[0], {}).get(de[1]) if hasattr(cl, "get") else cl[de[0]][de[1]]
        m.check("closure", got is not None and sorted(got) == want and list(got) == sorted(got), de,
                lambda: "closure %s, union over sub-entities %s" % (got, want), nontrivial=bool(want))
    m.check("closure-keys", set(cl) == set(top) and all(set(cl[d]) == set(top[d]) for d in top), C.name(spec), "closure table has other keys than the topology")
    composed_order(m, spec, e, ed, top)
    # uniform counts
    indices = "indices" in str(spec)
    if not indices:
        kinds = {}
        for de in ents:
            kinds.setdefault(kind_of(cell, *de), set()).add(len(ed[de[0]][de[1]]))
        for k, c in kinds.items():
            m.check("count", len(c) == 1, k, lambda: "entities of kind %s carry %s dofs" % (k, sorted(c)), nontrivial=c != {0})
    if spec[0] == "HDT":
        fd = cell.get_spatial_dimension() - 1
        bad = [x for de in ents if geom.tdim(de[0]) != fd for x in ed[de[0]][de[1]]]
        m.check("documented-count", not bad, "trace", lambda: "dofs %s are not on facets" % bad)
    if spec[0] not in C.COMPOSITE:
        doc = documented(spec, geom.sdim(spec[1]))
        if doc is not None:
            for de in ents:
                want = doc.get(geom.tdim(de[0]), 0)
                if want is None:
                    continue
                m.check("documented-count", len(ed[de[0]][de[1]]) == want, de,
                        lambda: "%d dofs on the entity, documented %d" % (len(ed[de[0]][de[1]]), want), nontrivial=want > 0)
        # numbered entity by entity
    judge_nodes(m, e, spec, cell, ents, ed)


def composed_order(m, spec, e, ed, top):
    """products list the dofs of an entity as the lattice of the first factor, each with the lattice of the second"""
    inner, unflat = spec, None
    if spec[0] == "Flat":
        inner = spec[1]
        unflat = e.get_reference_element().unflattening_map
    while inner[0] in ("Hdiv", "Hcurl"):
        inner = inner[1]
    if inner[0] != "TP":
        return
    A, B = C.build(inner[1]), C.build(inner[2])
    ea, eb, nb = A.entity_dofs(), B.entity_dofs(), B.space_dimension()
    for d in top:
        for en in top[d]:
            dim, k = unflat[(d, en)] if unflat else (d, en)
            if not isinstance(dim, tuple) or len(dim) != 2:
                return            # flattened nested products: judged on the product itself
            ia, ib = divmod(k, len(eb[dim[1]]))
            want = [x * nb + y for x in ea[dim[0]][sorted(ea[dim[0]])[ia]] for y in eb[dim[1]][sorted(eb[dim[1]])[ib]]]
            m.check("composed-order", list(ed[d][en]) == want, (d, en),
                    lambda: "dofs on %s of %s: %s, lexicographic product of the factors' dofs %s" % ((d, en), C.name(spec), list(ed[d][en])[:20], want[:20]),
                    nontrivial=len(want) > 1)


def local_coords(facs, x):
    """barycentric coordinates of the points x (npts, dim) with respect to each factor; residuals"""
    o, lam, res = 0, [], np.zeros(len(x))
    for f in facs:
        d = f.shape[1]
        y = np.hstack([x[:, o:o + d], np.ones((len(x), 1))]).T
        o += d
        A = np.vstack([f.T, np.ones(len(f))])
        l = np.linalg.lstsq(A, y, rcond=None)[0]
        res = np.maximum(res, np.abs(A @ l - y).max(axis=0))
        lam.append(l.T)
    return np.hstack(lam), res


def judge_nodes(m, e, spec, cell, ents, ed):
    if spec[0] in ("Bern", "HDT", "S") or "Bern" in str(spec) or spec[0] == "Mix":
        nodes = None
        try:
            nodes = e.dual_basis()
        except Exception:
            return
    else:
        nodes = e.dual_basis()
    pub = set(duals.published(nodes))
    nodal_exempt = spec[0] in ("S", "Disc") or "S" in [s[0] for s in spec[1:] if isinstance(s, list)]
    layout = {}
    point_only = {}
    for de in ents:
        facs = geom.entity_factors(cell, *de)
        seq = []
        for i in ed[de[0]][de[1]]:
            if i not in pub:
                continue
            T = duals.terms(nodes[i])
            wmax = max([abs(t[1]) for t in T] or [0])
            pts = sorted(set(t[0] for t in T if abs(t[1]) > 1e-9 * wmax))
            locs = np.zeros((0, 0))
            if pts:
                locs, res = local_coords(facs, np.array(pts, float))
                off = [k for k in range(len(pts)) if not (res[k] < 1e-9 and locs[k].min() > -1e-9)]
                m.count("node points", len(pts))
                m.check("locality", not off, (de, i),
                        lambda: "node %d uses data at %s which is not on entity %s (barycentric coordinates %s, distance %.3g)"
                        % (i, pts[off[0]], de, locs[off[0]], res[off[0]]))
            seq.append((len(T) == 1 and T[0][2] is None, np.array(sorted(map(tuple, np.round(locs, 8))))))
        layout.setdefault(kind_of(cell, *de), []).append((de, seq))
    if nodal_exempt:
        return
    # entities of one kind carry the same sequence of nodes (in the coordinates of the entity)
    for k, lst in layout.items():
        if "indices" in str(spec):
            break
        first = lst[0][1]
        for de, seq in lst[1:]:
            same = len(seq) == len(first) and all(a[1].shape == b[1].shape and np.allclose(a[1], b[1], atol=1e-6) for a, b in zip(seq, first))
            m.check("same-layout", same, de, lambda: "node locations on %s differ from those on %s: %s against %s"
                    % (de, lst[0][0], [s[1].tolist() for s in seq][:6], [s[1].tolist() for s in first][:6]), nontrivial=bool(seq))
    # documented order of point values
    fam = spec[0]
    if fam in ("Lag", "DG") and spec[2] > 0 or fam in ("CR", "P0"):
        k = {"CR": spec[1] and geom.sdim(spec[1]), "P0": geom.sdim(spec[1]) + 1}.get(fam) or spec[2]
        sd = geom.sdim(spec[1])
        sdtop = cell.get_topology()
        i = 0
        for d in sorted(sdtop):
            if fam == "CR" and d != sd - 1 or fam == "P0" and d != sd:
                continue
            for en in sorted(sdtop[d]):
                V = np.array([np.asarray(cell.get_vertices()[v], float) for v in sdtop[d][en]]).reshape(d + 1, -1)
                for a in lattice(d, k):
                    x = (np.array(a) / k) @ V
                    T = duals.terms(nodes[i])
                    ok = len(T) == 1 and T[0][2] is None and np.allclose(T[0][0], x, atol=1e-12 * max(1, np.abs(V).max())) and abs(T[0][1] - 1) < 1e-14
                    m.check("lattice-order", ok, (d, en, a), lambda: "node %d is %s, documented point evaluation at %s" % (i, T, x.tolist()))
                    if fam == "Lag":
                        m.check("lattice-order", ed[d][en] and i in ed[d][en], ("entity", d, en, a), lambda: "node %d is not attached to (%d, %d)" % (i, d, en))
                    i += 1
    if fam in ("GLL", "GL", "GR"):
        x = [duals.terms(nodes[i])[0][0][0] for i in ed[1][0]]
        v = [float(z[0]) for z in cell.get_vertices()]
        t = [(z - v[0]) / (v[1] - v[0]) for z in x]
        m.check("lattice-order", all(a < b for a, b in zip(t, t[1:])) and all(-1e-12 < z < 1 + 1e-12 for z in t), "ascending", lambda: "interior points %s" % t)
        m.check("lattice-order", all(len(duals.terms(L)) == 1 for L in nodes), "points", "nodes are not point evaluations")
        if fam == "GLL":
            ends = [duals.terms(nodes[ed[0][j][0]])[0][0][0] for j in (0, 1)]
            m.close("lattice-order", ends, v, 1e-12, "end points")


def lattice(d, k):
    """interior lattice of the d-simplex in the documented order: the second
    vertex's coordinate varies fastest"""
    if d == 0:
        return [(k,)]
    out = []
    for rev in itertools.product(range(1, k), repeat=d):
        idx = rev[::-1]
        if sum(idx) < k:
            out.append((k - sum(idx),) + idx)
    return out
