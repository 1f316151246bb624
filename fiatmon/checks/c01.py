"""C01: the basis is dual to the published degrees of freedom."""
import numpy as np

from fiatmon import catalog as C
from fiatmon import duals, geom

RULE = ("one case = one element (family x cell x degree x variant, incl. random simplices) x one published node; "
        "the node's points, weights, components and derivative orders are applied to the tabulated basis; "
        "non-trivial = the node publishes at least one non-zero weight")
REQUIRED = {"oracle:nodality": 300, "nodes": 4000, "elements-on-random-simplices": 20, "event:tabulate": 300, "elements-on-tiny-or-huge-simplices": 80}
ASSUMPTIONS = ["nodes that publish no data (Bernstein, serendipity, the affine H(div)/H(curl) products) are outside the property",
               "tolerance 1e-7 relative to the accumulated magnitude of each row"]

# families on user-chosen simplices
VSPECS = [("Lag", "I", 3), ("Lag", "T", 3), ("Lag", "Tet", 2), ("DG", "T", 2), ("DG", "I", 2), ("DG", "Tet", 1),
          ("CR", "T", 1), ("CR", "Tet", 1), ("GLL", "I", 4), ("GL", "I", 3), ("GR", "I", 3), ("Her", "I"), ("Her", "T"), ("Her", "Tet"),
          ("Mor", "T"), ("Arg", "T", 5), ("QArg", "T"), ("Bell", "T"), ("RT", "T", 1, "point"), ("RT", "T", 3, "point"),
          ("RT", "T", 2, "integral"), ("RT", "Tet", 2, "point"), ("RT", "Tet", 1, "integral"), ("N1", "T", 2, "point"),
          ("N1", "T", 2, "integral"), ("N1", "Tet", 2, "point"), ("N1", "Tet", 1, "integral"), ("BDM", "T", 2, "point"),
          ("BDM", "T", 2, "integral"), ("BDM", "Tet", 1, "point"), ("N2", "T", 2, "point"), ("N2", "T", 2, "integral"),
          ("N2", "Tet", 1, "point"), ("N2", "Tet", 2, "point"), ("N2", "Tet", 2, "integral"), ("BDFM", "T", 2), ("Reg", "T", 1), ("Reg", "Tet", 0), ("HHJ", "T", 1),
          ("AW", "T", 3), ("AWnc", "T", 2), ("MTW", "T", 3), ("DT", "T", 2), ("DT", "I", 3), ("KMV", "T", 2), ("KMV", "Tet", 2),
          ("Bub", "T", 3), ("P0", "T"), ("P0", "Tet"), ("DRT", "T", 2)]

# families judged on cells with much in common (geom.siblings)
SIBS = [("Lag", "I", 3), ("Lag", "T", 3), ("Lag", "Tet", 1), ("DG", "T", 1), ("CR", "T", 1), ("GLL", "I", 3), ("GR", "I", 2), ("Her", "I"), ("Her", "T"), ("Mor", "T"),
        ("RT", "T", 2, "point"), ("RT", "T", 1, "integral"), ("RT", "Tet", 1, "point"), ("N1", "T", 2, "integral"), ("N1", "Tet", 1, "point"), ("BDM", "T", 1, "point"),
        ("BDM", "Tet", 1, "integral"), ("N2", "T", 1, "point"), ("N2", "Tet", 1, "integral"), ("BDFM", "T", 2), ("Reg", "T", 0), ("HHJ", "T", 0), ("AWnc", "T", 2),
        ("MTW", "T", 3), ("DT", "T", 2), ("DT", "I", 2), ("P0", "T"), ("Bub", "T", 3)]

SIBS_UNIT = ("DT",)        # derivatives are of very different size on small cells: see the "sized" jobs


def sibling_jobs(lst=SIBS, **more):
    return [dict({"key": "siblings:" + C.name(list(s)), "siblings": s[1], "random": list(s), "rep": 0, "cost": 5}, **dict({"sizes": []} if s[0] in SIBS_UNIT else {}, **more)) for s in lst]


# elements on the default and Intrepid cells (no facet reference cell needed)
OSPECS = [("Lag", "DI", 4), ("Lag", "DT", 3), ("Lag", "DTet", 2), ("Lag", "IT", 3), ("Lag", "ITet", 3),
          ("DG", "DT", 2), ("DG", "DTet", 1), ("CR", "DT", 1), ("CR", "IT", 1), ("Her", "DI"), ("Her", "DT"), ("Her", "IT"),
          ("Mor", "DT"), ("Mor", "IT"), ("Arg", "DT", 5), ("RT", "DT", 2, "point"), ("RT", "IT", 2, "point"),
          ("RT", "DTet", 1, "point"), ("RT", "ITet", 2, "point"), ("N1", "DT", 2, "point"), ("N1", "IT", 2, "point"),
          ("N1", "DTet", 2, "point"), ("N1", "ITet", 2, "point"), ("BDM", "DT", 2, "point"), ("BDM", "IT", 2, "point"),
          ("N2", "DT", 2, "point"), ("N2", "IT", 2, "point"), ("GLL", "DI", 5), ("GL", "DI", 4), ("GR", "DI", 3),
          ("DT", "DI", 3), ("DT", "DT", 2), ("P0", "DT")]

# dimension divisible by the number of components, so that a square system exists
PDUAL = [["Lag", "T", 2], ["Lag", "Tet", 2], ["Lag", "I", 4], ["DG", "T", 3], ["Lag", "T", 4], ["DG", "Tet", 1], ["DG", "T", 1], ["KMV", "T", 2],
         ["Her", "I"], ["Her", "T"], ["Her", "Tet"], ["Mor", "T"], ["Arg", "T", 5], ["QArg", "T"], ["Bell", "T"], ["CR", "T", 1], ["CR", "Tet", 1],
         ["Bern", "I", 3], ["Bern", "T", 3], ["Bern", "Tet", 2], ["S", "Q", 2], ["S", "Q", 4], ["S", "H", 2], ["DPC", "Q", 2], ["DPC", "H", 1],
         ["Bub", "T", 4], ["FBub", "T", 2], ["DT", "T", 2], ["GLL", "I", 5], ["GL", "I", 4], ["P0", "T"],
         ["BDM", "T", 1, "point"], ["BDM", "T", 2, "integral"], ["BDM", "Tet", 1, "point"], ["N2", "T", 1, "point"], ["N2", "T", 2, "integral"],
         ["N2", "Tet", 1, "point"], ["RT", "T", 2, "point"], ["N1", "T", 2, "point"], ["RT", "Tet", 2, "point"], ["N1", "Tet", 2, "integral"],
         ["RT", "T", 4, "point"], ["Reg", "Tet", 0], ["HHJ", "T", 1],
         ["TP", ["Lag", "I", 2], ["Lag", "I", 1]], ["TP", ["Lag", "T", 1], ["DG", "I", 1]], ["Flat", ["TP", ["Lag", "I", 2], ["Lag", "I", 2]]],
         ["Enr", ["Lag", "T", 1], ["Bub", "T", 3]], ["Disc", ["Lag", "T", 2]], ["Res", ["Lag", "T", 3], {"domain": "facet"}],
         ["Mix", ["Lag", "T", 1], ["Lag", "T", 1]], ["Hdiv", ["TP", ["RT", "T", 1, "point"], ["DG", "I", 0]]]]

UNPUBLISHED = ("Bern", "S", "HDT")


def jobs(tier, seed):
    out = []
    for s in C.all_specs(tier) + C.high_specs(tier):
        if s[0] in ("Bern", "Mix", "Enr"):
            continue
        if s[0] == "Disc" and s[1][0] == "Bern":
            continue
        if s[0] == "Flat" and s[1][0] == "Enr":
            continue
        out.append({"key": C.name(s), "spec": s, "cost": geom.sdim(C.cell_of(s)) + (s[-1] if isinstance(s[-1], int) else 1)})
    for s in OSPECS:
        s = list(s)
        out.append({"key": C.name(s), "spec": s, "cost": 3})
    for s in VSPECS:
        for rep in range(2 if tier == "quick" else 12):
            out.append({"key": "rnd%d:%s" % (rep, C.name(list(s))), "random": list(s), "rep": rep, "cost": 3})
        for rep in range(0 if s[0] == "KMV" else 2 if tier == "quick" else 8):     # KMV: reference cells only
            out.append({"key": "sized%d:%s" % (rep, C.name(list(s))), "random": list(s), "rep": rep, "sized": [[1e-6, 1e-5], [1e3, 1e5], [1e-9, 1e-8], [1e-3, 1e-2]][rep % 4], "cost": 3})
    out += sibling_jobs()
    for s in PDUAL:
        out.append({"key": "pointwise-dual:%s" % C.name(s), "pdual": s, "cost": 4})
    for s in (["Lag", "T", 2], ["Lag", "I", 4], ["Lag", "Tet", 2], ["BDM", "T", 1, "point"], ["Her", "T"]):
        for rep in range(1 if tier == "quick" else 6):
            out.append({"key": "rnd%d:pointwise-dual:%s" % (rep, C.name(s)), "pdual": s, "move": 1, "cost": 4})
    out += C.lookalikes(('TP', 'RT', 'N1', 'BDM', 'N2', 'Res', 'Disc', 'NEnr'))
    return out


def run(job, m):
    if "pdual" in job:
        return run_pdual(job, m)
    spec = job.get("spec")
    if "random" in job:
        rng = m.rng()
        base = job["random"]
        z = job.get("sized")
        c = geom.random_simplex(base[1], rng, orient=1 if job["rep"] % 2 == 0 else -1, **(dict(scale=z, offset=2 * z[1]) if z else {}))
        spec = [base[0], c] + base[2:]
        m.count("elements-on-random-simplices")
        if z:
            m.count("elements-on-tiny-or-huge-simplices")
            v = np.array(c[2])
            judge(m, C.build(spec), spec, h=float(np.abs(v - v[0]).max()))
            return
    e = C.build(spec)
    judge(m, e, spec)


def judge(m, e, spec, oracle="nodality", tol=1e-7, h=None):
    nodes = e.dual_basis()
    n = e.space_dimension()
    m.check("one-node-per-basis-function", len(nodes) == n, "count", lambda: "%d nodes, dimension %d" % (len(nodes), n))
    idx = duals.published(nodes)
    if not (spec[0] in ("Hdiv", "Hcurl", "TP") or (spec[0] == "Flat")):
        m.check("every-node-published", len(idx) == n, "published", lambda: "only %d of %d nodes publish data" % (len(idx), n))
    if not idx:
        m.count("nothing published")
        return
    sd = e.get_reference_element().get_spatial_dimension()
    A = duals.action(nodes, idx, lambda o, p: e.tabulate(o, p), sd, n)
    m.count("nodes", len(idx))
    I = np.zeros((len(idx), n))
    for r, k in enumerate(idx):
        I[r, k] = 1.0
    if h is not None:
        # a functional of size s (on functions of size 1 varying over the length h) has a dual function of size 1/s
        s = np.array([sum(abs(t[1]) * h ** -float(sum(t[2]) if t[2] is not None else 0) for t in duals.terms(nodes[k])) for k in idx])
        A, I = A * s[None, :] / s[:, None], I
    m.close(oracle, A, I, tol, what=C.name(spec), scale=1.0)


def leja(e, sd, n, vs, cell, rng):
    """points for which the square system is well conditioned, or None"""
    nc = int(np.prod(vs)) if vs else 1
    if n % nc:
        return None
    k = n // nc
    cand = [tuple(float(z) for z in p) for p in geom.random_points_of(cell, 60 * k if k < 30 else 600, rng)]
    V = np.asarray(e.tabulate(0, cand)[(0,) * sd], float).reshape(n, -1, len(cand))
    V = V / np.abs(V).max(axis=(1, 2), keepdims=True)
    R = V.copy()
    pick = []
    for _ in range(k):
        # the candidate whose columns are least explained by the ones chosen
        size = np.array([np.linalg.svd(R[:, :, j], compute_uv=False)[-1] for j in range(len(cand))])
        size[pick] = -1
        j = int(np.argmax(size))
        pick.append(j)
        q, _ = np.linalg.qr(R[:, :, j])
        R = R - np.einsum("ij,jck->ick", q @ q.T, R)
    M = V[:, :, pick].reshape(n, n)
    if np.linalg.cond(M) > 1e7:
        return None
    return [cand[j] for j in pick]


def run_pdual(job, m):
    from FIAT.pointwise_dual import compute_pointwise_dual
    rng = m.rng()
    spec = job["pdual"]
    if "move" in job:
        spec = [spec[0], geom.random_simplex(spec[1], rng)] + list(spec[2:])
    e = C.build(spec)
    cell = e.get_reference_element()
    sd = cell.get_spatial_dimension()
    n = e.space_dimension()
    vs = tuple(e.value_shape())
    for rep in range(3):
        pts = leja(e, sd, n, vs, cell, rng)
        if pts is None:
            m.count("no well-conditioned points")
            continue
        for how, given in (("tuples", pts), ("lists", [list(p) for p in pts])) if rep == 0 else (("tuples", pts),):
            dual = compute_pointwise_dual(e, given)
            nodes = dual.get_nodes()
            m.check("pointwise-dual-size", len(nodes) == n, (rep, how), lambda: "%d nodes" % len(nodes))
            A = duals.action(nodes, range(len(nodes)), lambda o, p: e.tabulate(o, p), sd, n)
            m.close("pointwise-dual", A, np.eye(n), 1e-7, what=(rep, how), scale=1.0)
            used = np.array(sorted(set(t[0] for L in nodes for t in duals.terms(L))))
            far = np.abs(used[:, None, :] - np.array(pts)[None]).max(axis=2).min(axis=1)
            m.check("pointwise-dual-points", not np.any(far > 1e-14), (rep, how), lambda: "nodes use points that were not given")
            m.check("pointwise-dual-entities", dual.get_entity_ids() == e.entity_dofs(), (rep, how), "entity table of the dual differs from the element's")
            m.check("pointwise-dual-shape", all(tuple(L.target_shape) == vs and not L.deriv_dict for L in nodes), (rep, how), "nodes of the wrong value shape")
