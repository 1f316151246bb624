"""C14: element construction is equivariant under affine maps of the simplex."""
import numpy as np

from fiatmon import catalog as C
from fiatmon import geom, poly

RULE = ("one case = an element built on two simplices related by an affine map: the push-forward of the first tabulated basis under the "
        "advertised mapping is expanded in the second one; the residual decides the spaces, the coefficient matrix the degrees of freedom "
        "(identity, documented tensor scaling, or block structure by entity); non-trivial = the map is not a translation")
REQUIRED = {"oracle:same-space": 150, "oracle:entity-blocks": 120, "oracle:dof-scaling": 60, "oracle:dimension": 150, "maps:reflected": 30,
            "maps:reference-to-random": 50, "maps:permuted": 20, "oracle:lattice": 60}
ASSUMPTIONS = ["Bell and Kong-Mulder-Veldhuizen elements are not affinely equivalent families and are exempt",
               "maps have condition number at most 40, cell diameters lie between 1e-11 and 1e9 and offsets reach 300 diameters"]

TOL = 1e-7
SCALES = {"small": 1e-3, "big": 60.0, "micro": 2e-11, "mega": 3e8}

# families whose basis is carried exactly onto the basis of the image
EXACT = [("Lag", "I", 1), ("Lag", "I", 5), ("Lag", "T", 1), ("Lag", "T", 4), ("Lag", "Tet", 1), ("Lag", "Tet", 3), ("DG", "I", 0), ("DG", "I", 3),
         ("DG", "T", 0), ("DG", "T", 3), ("DG", "Tet", 0), ("DG", "Tet", 2), ("GLL", "I", 6), ("GL", "I", 5), ("GR", "I", 4), ("P0", "I"), ("P0", "T"),
         ("P0", "Tet"), ("CR", "T", 1), ("CR", "Tet", 1), ("Bern", "I", 4), ("Bern", "T", 3), ("Bern", "Tet", 3), ("Bub", "I", 3), ("Bub", "T", 4),
         ("Bub", "Tet", 4), ("FBub", "T", 3), ("FBub", "Tet", 3), ("Reg", "T", 0), ("Reg", "T", 2), ("Reg", "Tet", 0), ("Reg", "Tet", 1)]
# ... up to the orientation of the cell for degrees of freedom in its interior
ORIENTED = [("BDM", "T", 1, "point"), ("BDM", "T", 2, "point"), ("BDM", "T", 2, "integral"), ("BDM", "Tet", 1, "point"), ("BDM", "Tet", 2, "integral"),
            ("N2", "T", 1, "point"), ("N2", "T", 2, "integral"), ("N2", "T", 2, "point"), ("N2", "Tet", 1, "point"), ("N2", "Tet", 2, "point"), ("N2", "Tet", 2, "integral")]
# ... up to a recombination of the degrees of freedom of the cell interior
FACETS = [("BDM", "T", 3, "point"), ("N2", "T", 3, "integral"), ("RT", "T", 1, "point"), ("RT", "T", 3, "point"), ("RT", "T", 2, "integral"), ("RT", "T", 1, "integral"), ("RT", "Tet", 1, "point"),
          ("RT", "Tet", 2, "point"), ("RT", "Tet", 2, "integral"), ("N1", "T", 1, "point"), ("N1", "T", 3, "point"), ("N1", "T", 2, "integral"),
          ("N1", "Tet", 1, "point"), ("N1", "Tet", 2, "point"), ("N1", "Tet", 2, "integral"), ("HHJ", "T", 0), ("HHJ", "T", 2), ("BDFM", "T", 2)]
JETS = [("Her", "I"), ("Her", "T"), ("Her", "Tet"), ("Arg", "T", 5), ("QArg", "T"), ("Mor", "T")]
OTHER = [("AW", "T", 3), ("AWnc", "T", 2), ("MTW", "T", 3), ("DT", "I", 3), ("DT", "T", 3), ("DT", "Tet", 2), ("DT", "I", 6), ("DT", "T", 5), ("DT", "Tet", 4), ("DRT", "T", 2), ("DRT", "Tet", 1)]
SLOW = {("Arg", "T", 5), ("QArg", "T"), ("Her", "Tet"), ("Lag", "Tet", 3), ("N2", "Tet", 2, "integral"), ("N2", "Tet", 2, "point"),
        ("N1", "Tet", 2, "integral"), ("RT", "Tet", 2, "integral"), ("BDM", "Tet", 2, "integral"), ("AW", "T", 3), ("MTW", "T", 3),
        ("Reg", "Tet", 1), ("N1", "Tet", 2, "point"), ("RT", "Tet", 2, "point"), ("FBub", "Tet", 3), ("Bub", "Tet", 4), ("Bub", "T", 4)}
# members of composite constructors on simplices; "cell" placeholders are substituted
COMP = [["NEnr", ["Lag", "T", 1], ["Bub", "T", 3]], ["NEnr", ["Lag", "T", 2], ["Bub", "T", 3]], ["NEnr", ["Lag", "I", 1], ["Bub", "I", 3]], ["Enr", ["Lag", "T", 2], ["Bub", "T", 3]], ["Res", ["RT", "T", 2, "point"], {"domain": "facet"}],
        ["Res", ["Lag", "T", 4], {"domain": "interior"}], ["Disc", ["N1", "T", 2, "point"]], ["Mix", ["RT", "T", 1, "point"], ["N1", "T", 1, "point"]],
        ["Enr", ["RT", "T", 1, "point"], ["BDM", "T", 2, "point"]]]
TPS = [["TP", ["Lag", "I", 2], ["DG", "I", 1]], ["TP", ["Lag", "T", 2], ["Lag", "I", 1]], 
       ["Hdiv", ["TP", ["Lag", "I", 1], ["DG", "I", 1]]], ["Hdiv", ["TP", ["DG", "I", 0], ["Lag", "I", 2]]], ["Hcurl", ["TP", ["Lag", "I", 2], ["DG", "I", 1]]],
       ["Hcurl", ["TP", ["DG", "I", 1], ["Lag", "I", 1]]], ["Hdiv", ["TP", ["RT", "T", 1, "point"], ["DG", "I", 0]]],
       ["Hdiv", ["TP", ["DG", "T", 1], ["Lag", "I", 1]]], ["Hcurl", ["TP", ["N1", "T", 1, "point"], ["Lag", "I", 1]]],
       ["Hcurl", ["TP", ["Lag", "T", 1], ["DG", "I", 0]]]]


def jobs(tier, seed):
    out = []
    th = tier == "thorough"
    kinds = [("EXACT", EXACT), ("ORIENTED", ORIENTED), ("FACETS", FACETS), ("JETS", JETS), ("OTHER", OTHER)]
    for kind, lst in kinds:
        for s in lst:
            slow = s in SLOW
            for mode in ("ref", "rnd", "perm", "small", "big", "micro", "mega", "far", "slender"):
                if s == ("DT", "Tet", 4) and mode != "small" and not th:
                    continue
                if slow and s[0] != "Bub" and not th and mode in ("perm", "small", "big", "mega", "slender"):
                    continue
                if s[:2] == ("Bub", "Tet") and (mode != "perm" and not th or mode not in ("perm", "ref")):
                    continue        # symbolic differentiation on floating-point tetrahedra takes half a minute
                for rep in range((1 if not th else 6) if mode != "perm" or th else 1):
                    out.append({"key": "%s%d:%s" % (mode, rep, C.name(list(s))), "spec": list(s), "kind": kind, "mode": mode, "rep": rep,
                                "cost": 10 if slow else 2})
    for s in COMP:
        for mode in ("ref", "rnd", "micro", "mega"):
            out.append({"key": "%s:%s" % (mode, C.name(s)), "spec": s, "kind": "COMP", "mode": mode, "rep": 0, "cost": 3})
    for s in TPS:
        for rep in range(1 if not th else 5):
            out.append({"key": "tp%d:%s" % (rep, C.name(s)), "spec": s, "kind": "TP", "mode": "rnd", "rep": rep, "cost": 2})
    for base in ("I", "T", "Tet"):
        for rep in range(2 if not th else 20):
            out.append({"key": "cell%d:%s" % (rep, base), "cell": base, "rep": rep, "mode": "rnd"})
    return out


def put(spec, cells):
    """replace base cells by vertex lists"""
    if spec[0] in C.COMPOSITE:
        return [spec[0]] + [put(x, cells) if isinstance(x, list) and x and isinstance(x[0], str) else x for x in spec[1:]]
    return [spec[0], cells[spec[1]]] + list(spec[2:])


def simplices(base, mode, rng):
    """two cells (catalogue form) and whether the first is the reference cell"""
    if mode == "ref":
        return base, geom.random_simplex(base, rng, cond=3.0)
    if mode == "perm":
        v = geom.ref_vertices(base)
        while True:
            p = rng.permutation(len(v))
            if list(p) != list(range(len(v))):
                return base, ["V", base, v[p].tolist()]
    a = geom.random_simplex(base, rng)
    if mode == "rnd":
        return a, geom.random_simplex(base, rng)
    if mode in ("far", "slender"):
        b = geom.random_simplex(base, rng, cond=40.0 if mode == "slender" else 2.0)
        off = rng.uniform(-1, 1, size=geom.sdim(base)) * (300.0 if mode == "far" else 1.0)
        b[2] = [[float(x + o) for x, o in zip(v, off)] for v in b[2]]
        return a, b
    f = SCALES[mode]
    b = geom.random_simplex(base, rng)
    b[2] = [[float(x) * f for x in v] for v in b[2]]
    return a, b


def affine(c1, c2):
    V1, V2 = geom.ref_vertices(c1), geom.ref_vertices(c2)
    B = (V2[1:] - V2[0]).T @ np.linalg.inv((V1[1:] - V1[0]).T)
    return B, V2[0] - B @ V1[0]


def push(mp, B, v):
    """v (n, *vs, npts)"""
    d = np.linalg.det(B)
    Bi = np.linalg.inv(B)
    if mp == "affine":
        return v
    if mp == "contravariant piola":
        return np.einsum('ij,njp->nip', B, v) / d
    if mp == "covariant piola":
        return np.einsum('ji,njp->nip', Bi, v)
    if mp == "double covariant piola":
        return np.einsum('ji,njkp,kl->nilp', Bi, v, Bi)
    if mp == "double contravariant piola":
        return np.einsum('ij,njkp,lk->nilp', B, v, B) / d ** 2
    raise ValueError("unknown mapping %r" % (mp,))


def owner(e):
    own = {}
    ed = e.entity_dofs()
    for d in ed:
        for en in ed[d]:
            for i in ed[d][en]:
                own[i] = (d, en)
    return own


def run(job, m):
    rng = m.rng()
    if "cell" in job:
        return run_cell(job, m, rng)
    spec, mode, kind = job["spec"], job["mode"], job["kind"]
    bases = set()
    collect(spec, bases)
    c1, c2 = {}, {}
    for b in sorted(bases):
        c1[b], c2[b] = simplices(b, mode, rng)
    s1, s2 = put(spec, c1), put(spec, c2)
    f1, f2 = factor_list(C.cell_of(s1)), factor_list(C.cell_of(s2))
    sd = sum(geom.sdim(f) for f in f1)
    B, b = np.zeros((sd, sd)), np.zeros(sd)
    o = 0
    for x, y in zip(f1, f2):
        k = geom.sdim(x)
        B[o:o + k, o:o + k], b[o:o + k] = affine(x, y)
        o += k
    m.count("maps:reference-to-random" if mode == "ref" else "maps:permuted" if mode == "perm" else "maps:random-to-random")
    if np.linalg.det(B) < 0:
        m.count("maps:reflected")
    e1, e2 = C.build(s1), C.build(s2)
    n = e1.space_dimension()
    m.check("dimension", e2.space_dimension() == n and e1.value_shape() == e2.value_shape() and list(e1.mapping()) == list(e2.mapping())
            and e1.entity_dofs() == e2.entity_dofs(), "metadata", "dimension, value shape, mappings or entity tables differ between the two cells")
    npts = max(12, min(120, 4 * n))
    X1 = np.array(geom.random_points(C.cell_of(s1), npts, rng))
    X2 = X1 @ B.T + b
    z = (0,) * sd
    v1 = np.asarray(e1.tabulate(0, [tuple(map(float, x)) for x in X1])[z], float)
    v2 = np.asarray(e2.tabulate(0, [tuple(map(float, x)) for x in X2])[z], float)
    mps = list(e1.mapping())
    if kind == "COMP" and spec[0] == "Mix":
        P = np.zeros_like(v1)
        d0 = 0
        # each sub-element occupies its own slots
        for sub in e1.elements():
            k = int(np.prod(sub.value_shape() or (1,)))
            nd = sub.space_dimension()
            rows = [i for i in range(n) if np.abs(v1[i, d0:d0 + k]).max() > 0]
            P[rows, d0:d0 + k] = push(mps[rows[0]], B, v1[rows, d0:d0 + k])
            d0 += k
    else:
        P = np.zeros_like(v1)
        for mp in sorted(set(mps)):
            rows = [i for i in range(n) if mps[i] == mp]
            P[rows] = push(mp, B, v1[rows])
    Y, Z = v2.reshape(n, -1), P.reshape(n, -1)
    ry = np.maximum(np.abs(Y).max(axis=1), 1e-300)
    rz = np.maximum(np.abs(Z).max(axis=1), 1e-300)
    Ys, Zs = Y / ry[:, None], Z / rz[:, None]
    for name_, A, D in (("image-in-space", Ys, Zs), ("space-in-image", Zs, Ys)):
        M = np.linalg.lstsq(A.T, D.T, rcond=None)[0]
        m.close("same-space", A.T @ M, D.T, TOL, name_, scale=1.0)
    M = np.linalg.lstsq(Ys.T, Zs.T, rcond=None)[0]
    # columns: images of the first basis, rows: degrees of freedom of the second
    own = owner(e1)
    T = M / ry[:, None] * rz[None, :]
    judge_dofs(m, kind, spec, e1, T, M, own, B, sd, n)


def judge_dofs(m, kind, spec, e1, T, M, own, B, sd, n):
    fam = spec[0]
    det = np.linalg.det(B)
    if kind == "EXACT":
        m.close("dof-scaling", T, np.eye(n), 1e-6, "basis is carried to the basis", scale=1.0)
        return
    full = {k: own[k] for k in own}
    rowmax = np.maximum(np.abs(T).max(axis=1), 1e-300)
    # entity blocks
    free = set()
    if fam in ("Arg", "QArg", "Mor"):
        free = set(i for i in own if own[i][0] == 1)       # normal derivatives mix with the other data of the edge
    if fam == "BDFM":
        free = set(i for i in own if own[i][0] == 2)       # tangential data on the edges
    if fam == "Mix" or fam == "NEnr":
        pass
    bad = 0.0
    for i in range(n):
        if i in free:
            continue
        for j in range(n):
            if own[i] != own[j]:
                bad = max(bad, abs(T[i, j]) / rowmax[i])
    if kind != "COMP" or fam in ("Disc", "Res"):
        m.close("entity-blocks", bad, 0.0, 1e-6, "degrees of freedom of one entity see the images of another entity's functions", scale=1.0, nontrivial=True)
    if kind == "ORIENTED":
        W = np.eye(n)
        sg = np.sign(det)
        D = T.copy()
        for i in range(n):
            if own[i][0] == sd and T[i, i] < 0 and sg < 0:
                D[i] *= -1
        m.close("dof-scaling", D, W, 1e-6, "basis is carried to the basis up to orientation", scale=1.0)
    elif kind == "FACETS":
        idx = [i for i in range(n) if own[i][0] < sd]
        m.close("dof-scaling", T[np.ix_(idx, idx)], np.eye(len(idx)), 1e-6, "facet degrees of freedom are carried over", scale=1.0)
    elif kind == "JETS":
        ed = e1.entity_dofs()
        Bi = np.linalg.inv(B)
        for v in sorted(ed[0]):
            ids = list(ed[0][v])
            W = np.zeros((len(ids), len(ids)))
            W[0, 0] = 1.0
            if len(ids) > 1:
                W[1:1 + sd, 1:1 + sd] = Bi.T
            if len(ids) > 1 + sd:
                al = poly.mis(sd, 2)
                al = [a for a in al]
                pairs = [tuple(sorted(sum([[k] * a[k] for k in range(sd)], []))) for a in al]
                for p, (i, j) in enumerate(pairs):
                    for q, (k, l) in enumerate(pairs):
                        W[1 + sd + p, 1 + sd + q] = Bi[k, i] * Bi[l, j] + (Bi[l, i] * Bi[k, j] if k != l else 0.0)
            G = T[np.ix_(ids, ids)]
            for o0, o1 in ((0, 1), (1, 1 + sd), (1 + sd, len(ids))):
                if o1 <= len(ids):
                    m.close("dof-scaling", G[o0:o1], W[o0:o1], 1e-6, ("vertex jet", v, o0), scale=max(1e-12, np.abs(W[o0:o1]).max()) if o1 > o0 else 1.0)
        if fam == "Her":
            idx = [i for i in range(n) if own[i][0] > 0]
            if idx:
                m.close("dof-scaling", T[np.ix_(idx, idx)], np.eye(len(idx)), 1e-6, "face values", scale=1.0)
    elif fam == "DT":
        deg = spec[2]
        alphas = [a for o in range(deg + 1) for a in poly.mis(sd, o)]
        Bi = np.linalg.inv(B)
        W = np.zeros((n, n))
        W[0, 0] = abs(det)
        for i, al in enumerate(alphas):
            if i == 0:
                continue
            # D^al of the push-forward at the image of the midpoint
            cf = {(0,) * sd: 1.0}
            for x in range(sd):
                for _ in range(al[x]):
                    nx = {}
                    for bt, c in cf.items():
                        for k in range(sd):
                            t = tuple(bt[j] + (j == k) for j in range(sd))
                            nx[t] = nx.get(t, 0.0) + c * Bi[k, x]
                    cf = nx
            for j, bt in enumerate(alphas):
                W[i, j] = cf.get(bt, 0.0)
        sc = np.maximum(np.abs(W).max(axis=1), 1e-300)
        # functions of high order are tiny next to those of low order on small cells: compare row by row
        size = np.array([np.linalg.norm(Bi, 2) ** sum(a) for a in alphas])
        size[0] = abs(det)
        m.close("dof-scaling", (T - W) / np.maximum(sc, size)[:, None], np.zeros((n, n)), 1e-6, "Taylor data", scale=1.0, nontrivial=True)
        m.close("dof-scaling", T[0, 0], abs(det), 1e-6, "integral", scale=abs(det))
    elif fam == "AW":
        ed = e1.entity_dofs()
        # matrix components at the vertices, in the order 11, 12, 22
        idx = [(0, 0), (0, 1), (1, 1)]
        W = np.zeros((3, 3))
        for q, (k, l) in enumerate(idx):
            S = np.zeros((2, 2))
            S[k, l] = S[l, k] = 1.0
            R = B @ S @ B.T / det ** 2
            W[:, q] = [R[i, j] for i, j in idx]
        for v in sorted(ed[0]):
            ids = list(ed[0][v])
            m.close("dof-scaling", T[np.ix_(ids, ids)], W, 1e-6, ("vertex components", v), scale=np.abs(W).max())
    elif kind == "TP" and fam == "TP":
        idx = [i for i in range(n)]
        if "RT" not in str(spec):
            m.close("dof-scaling", T, np.eye(n), 1e-6, "products are carried to products", scale=1.0)


def collect(spec, out):
    if spec[0] in C.COMPOSITE:
        for x in spec[1:]:
            if isinstance(x, list) and x and isinstance(x[0], str):
                collect(x, out)
    else:
        out.add(spec[1])


def factor_list(c):
    if not isinstance(c, str) and c[0] == "TP":
        return [f for x in c[1:] for f in factor_list(x)]
    return [c]


def run_cell(job, m, rng):
    """lattices, entity maps and expansion functions are carried over"""
    from FIAT import expansions
    base = job["cell"]
    c1, c2 = simplices(base, "ref" if job["rep"] % 2 else "rnd", rng)
    B, b = affine(c1, c2)
    k1, k2 = geom.make_cell(c1), geom.make_cell(c2)
    top = k1.get_topology()
    sd = geom.sdim(base)
    for d in top:
        for en in top[d]:
            for order in ((1, 2, 3, 5) if d else (1,)):
                p1 = np.array(k1.make_points(d, en, order)).reshape(-1, sd)
                p2 = np.array(k2.make_points(d, en, order)).reshape(-1, sd)
                m.close("lattice", p2, p1 @ B.T + b, 1e-12, (d, en, order))
    U1, U2 = expansions.get_expansion_set(k1), expansions.get_expansion_set(k2)
    X = np.array(geom.random_points(c1, 8, rng))
    for n in range(0, 6):
        a = np.asarray(U1.tabulate(n, [tuple(map(float, x)) for x in X]), float)
        c = np.asarray(U2.tabulate(n, [tuple(map(float, x)) for x in X @ B.T + b]), float)
        m.close("expansion", c, a, 1e-9, n, scale=max(1.0, np.abs(a).max()))


