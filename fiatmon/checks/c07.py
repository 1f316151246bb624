"""C07: shared degrees of freedom determine the conforming trace."""
import itertools

import numpy as np

from fiatmon import catalog as C
from fiatmon import geom, poly

RULE = ("one case = one entity of one conforming element (all functions outside the entity's closure must have vanishing trace) or one "
        "facet-sharing pair of cells x pair of local facet numbers (shared dofs must give equal traces, others none); "
        "non-trivial = some function has a non-zero trace there")
REQUIRED = {"oracle:no-leak": 1200, "oracle:trace-unisolvent": 400, "oracle:patch-equal": 400, "oracle:patch-leak": 400,
            "oracle:same-trace": 300, "oracle:weak-continuity": 12, "patches": 400}
ASSUMPTIONS = ["cells of a patch number their vertices in increasing global order (UFC convention)",
               "KMV elements live on the reference cell (patches map them)"]

H1 = ("Lag", "GLL", "Bern", "S", "KMV", "Her", "Arg", "QArg", "Bell", "Bub", "FBub")
C1 = ("Arg", "QArg", "Bell")


def value_dims(spec):
    """entity dimensions (as FIAT keys) on which the value is determined by the closure, or None"""
    k = spec[0]
    if k in H1:
        d = geom.sdim(spec[1])
        return set(range(d + 1))
    if k in ("DG", "GL", "GR", "P0", "DPC", "DT", "CR"):
        return {geom.sdim(spec[1])}
    if k in ("RT", "N1", "BDM", "N2"):
        return {geom.sdim(spec[1])}
    if k == "TP":
        a, b = value_dims(spec[1]), value_dims(spec[2])
        if a is None or b is None:
            return None
        return set(itertools.product(a, b))
    if k in ("Enr", "NEnr"):
        s = [value_dims(x) for x in spec[1:]]
        if None in s or any(x[0] not in H1 + ("TP",) for x in spec[1:]):
            return None
        return set.intersection(*s)
    if k == "Res" and spec[1][0] in H1 and "domain" in spec[2]:
        return value_dims(spec[1])
    if k == "Flat":
        s = value_dims(spec[1])
        return None if s is None else ("flat", s)
    return None


def tdims(x):
    return sum(tdims(y) for y in x) if isinstance(x, tuple) else x


def kind(spec):
    """the conforming trace of the family"""
    k = spec[0]
    if k in ("RT", "BDM", "BDFM", "MTW", "Hdiv"):
        return "div"
    if k in ("N1", "N2", "Hcurl"):
        return "curl"
    if k == "Reg":
        return "tt"
    if k == "HHJ":
        return "nn"
    if k == "AW":
        return "sn"
    if k in C1:
        return "C1"
    if k == "Res":
        return kind(spec[1]) if "domain" in spec[2] else None
    if k == "Flat":
        return kind(spec[1])
    if k in ("Enr", "NEnr"):
        ks = set(kind(s) for s in spec[1:])
        return ks.pop() if len(ks) == 1 else None
    if k in H1 or k == "TP":
        return "H1"
    return None


def jobs(tier, seed):
    out = []
    for s in C.all_specs(tier) + C.high_specs(tier):
        if kind(s) is None:
            continue
        if kind(s) == "H1" and not conforming_somewhere(s):
            continue
        out.append({"key": "leak:" + C.name(s), "leak": s, "cost": geom.sdim(C.cell_of(s)) ** 2})
    for s in [["Lag", "DT", 3], ["Lag", "IT", 3], ["Lag", "ITet", 3], ["RT", "DT", 2, "point"], ["RT", "ITet", 2, "point"],
              ["RT", "IT", 3, "point"], ["N1", "DT", 2, "point"], ["N1", "ITet", 2, "point"], ["N1", "DTet", 2, "point"],
              ["BDM", "IT", 2, "point"], ["N2", "DT", 2, "point"], ["Her", "DT"], ["Arg", "DT", 5]]:
        out.append({"key": "leak:" + C.name(s), "leak": s, "cost": 3})
    for s in [["CR", "T", 1], ["CR", "Tet", 1], ["Mor", "T"], ["AWnc", "T", 2], ["MTW", "T", 3]]:
        for rep in range(2):
            out.append({"key": "weak%d:%s" % (rep, C.name(s)), "weak": s, "rep": rep})
    th = tier == "thorough"
    P = []
    for s in [["Lag", "I", 3], ["GLL", "I", 4], ["Her", "I"], ["Lag", "T", 1], ["Lag", "T", 3], ["Lag", "T", 5], ["Lag", "Tet", 2], ["Lag", "Tet", 4], ["Bern", "T", 3],
              ["Bern", "Tet", 3], ["FBub", "T", 3], ["KMV", "T", 3], ["KMV", "T", 4], ["KMV", "T", 5], ["KMV", "Tet", 2], ["KMV", "Tet", 3]]:
        P.append((s, "mapped"))
    for s in [["Lag", "T", 3], ["Lag", "T", 4], ["Lag", "Tet", 3], ["Her", "T"], ["Her", "Tet"], ["Arg", "T", 5], ["QArg", "T"], ["Bell", "T"],
              ["Bern", "T", 3], ["AW", "T", 3], ["MTW", "T", 3]]:
        P.append((s, "physical"))
    for fam in ("RT", "N1", "BDM", "N2"):
        for cell, ks in (("T", (1, 2, 3)), ("Tet", (1, 2))):
            for k in ks:
                for v in ("point", "integral"):
                    s = [fam, cell, k, v]
                    P.append((s, "mapped"))
                    if k <= 2:
                        P.append((s, "physical"))
    P.append((["BDFM", "T", 2], "mapped"))
    P.append((["BDFM", "T", 2], "physical"))
    for s in [["Reg", "T", 0], ["Reg", "T", 1], ["Reg", "T", 2], ["Reg", "Tet", 0], ["Reg", "Tet", 1], ["HHJ", "T", 0], ["HHJ", "T", 1], ["HHJ", "T", 2]]:
        P.append((s, "mapped"))
        P.append((s, "physical"))
    if th:
        P += [(["Lag", "Tet", 5], "mapped"), (["Arg", "T", 6], "physical"), (["Arg", "T", 7], "physical"), (["RT", "Tet", 3, "point"], "mapped"),
              (["N1", "Tet", 3, "point"], "mapped"), (["RT", "T", 5, "point"], "mapped"), (["BDM", "Tet", 3, "point"], "mapped"),
              (["N2", "Tet", 3, "point"], "mapped"), (["Reg", "Tet", 2], "mapped"), (["N1", "Tet", 3, "integral"], "mapped"),
              (["RT", "Tet", 3, "integral"], "mapped")]
    for s, mode in P:
        for rep in range(1 if not th else 4):
            out.append({"key": "patch-%s%d:%s" % (mode, rep, C.name(s)), "patch": s, "mode": mode, "rep": rep, "cost": 4})
    return out


def conforming_somewhere(spec):
    v = value_dims(spec)
    if v is None:
        return False
    if isinstance(v, tuple):
        v = v[1]
    return len(v) > 1


def run(job, m):
    if "leak" in job:
        run_leak(job["leak"], m)
    elif "weak" in job:
        run_weak(job, m)
    else:
        run_patch(job, m)


# ----------------------------------------------------------------------
def embed(facs):
    """tangents of the product entity in cell coordinates, and an orthonormal basis of the normals"""
    sd = sum(f.shape[1] for f in facs)
    T, o = [], 0
    for f in facs:
        for v in f[1:]:
            t = np.zeros(sd)
            t[o:o + f.shape[1]] = v - f[0]
            T.append(t)
        o += f.shape[1]
    T = np.array(T).reshape(-1, sd)
    return T


def gcross(T):
    """generalised cross product of d-1 vectors: v -> det[v, T...]"""
    d = T.shape[1]
    return np.array([np.linalg.det(np.vstack([np.eye(d)[i], T])) for i in range(d)]) if d > 1 else np.ones(1)


def traces(kind, tab, T, sd):
    """tab: dict of (n, *vs, q) -> (n, comps, q)"""
    v = tab[(0,) * sd]
    codim1 = len(T) == sd - 1
    if kind in ("H1",):
        return v.reshape(v.shape[0], 1, -1)
    if kind == "C1":
        g = [tab[tuple(int(i == j) for j in range(sd))] for i in range(sd)]
        return np.stack([v] + g, axis=1)
    if kind == "div":
        return np.einsum("ncq,c->nq", v, gcross(T))[:, None]
    if kind == "curl":
        return np.einsum("ncq,tc->ntq", v, T)
    if kind == "tt":
        r = np.einsum("nabq,sa,tb->nstq", v, T, T)
        return r.reshape(r.shape[0], -1, r.shape[-1])
    if kind == "nn":
        n = gcross(T)
        return np.einsum("nabq,a,b->nq", v, n, n)[:, None]
    if kind == "sn":
        return np.einsum("nabq,b->naq", v, gcross(T))
    raise KeyError(kind)


def applicable(kind, dim_len, sd, spec):
    """entities (by topological dimension) on which the trace is meaningful"""
    if kind in ("div", "nn", "sn"):
        return dim_len == sd - 1
    if kind in ("curl", "tt"):
        return dim_len >= 1
    if kind == "C1":
        return dim_len <= 1
    return True


UNISOLVENT = ("Lag", "Bern", "GLL", "S", "RT", "BDM", "BDFM", "N1", "N2", "Reg", "HHJ")


def run_leak(spec, m):
    e = C.build(spec)
    rng = m.rng()
    cell = e.get_reference_element()
    sd = cell.get_spatial_dimension()
    k = kind(spec)
    n = e.space_dimension()
    cl = e.entity_closure_dofs()
    vd = value_dims(spec) if k == "H1" else None
    full = geom.random_points_of(cell, 10, rng)
    order = 1 if k == "C1" else 0
    big = max(np.max(np.abs(x)) for x in e.tabulate(order, full).values())
    store = {}
    for d, en in geom.entities(cell):
        td = geom.tdim(d)
        if td == sd or not applicable(k, td, sd, spec):
            continue
        if k == "H1":
            key = d
            s = vd
            if isinstance(vd, tuple):
                key, s = cell.unflattening_map[(d, en)][0], vd[1]
            if key not in s:
                continue
        facs = geom.entity_factors(cell, d, en)
        T = embed(facs)
        # deterministic points in the entity's own coordinates, the same for all entities of one kind
        loc = [local_points(len(f), 7, i) for i, f in enumerate(facs)]
        pts = np.hstack([l @ f for l, f in zip(loc, facs)])
        tab = e.tabulate(order, [tuple(float(z) for z in p) for p in pts])
        tr = traces(k, tab, T, sd)
        inside = sorted(cl[d][en])
        outside = [i for i in range(n) if i not in set(inside)]
        scale = max(big, 1e-300)
        leak = np.max(np.abs(tr[outside]), axis=(1, 2)) / scale if outside else np.zeros(0)
        m.check("no-leak", bool(np.all(leak < 1e-8)), (d, en),
                lambda: "functions %s, not in the closure of entity %s, have a %s trace of relative size %.3g there"
                % ([outside[i] for i in np.nonzero(leak >= 1e-8)[0]][:8], (d, en), k, leak.max()),
                nontrivial=bool(np.max(np.abs(tr)) > 1e-6 * scale), sample={"outside": len(outside), "inside": len(inside)})
        base = spec[1] if spec[0] in ("Res",) else spec
        if spec[0] in UNISOLVENT:
            r = poly.rank((tr[inside] / scale).reshape(len(inside), -1), 1e-8) if inside and np.max(np.abs(tr[inside])) > 1e-9 * scale else 0
            # the sample points must be able to tell: 7 points x comps
            if len(inside) <= 7 * tr.shape[1]:
                m.check("trace-unisolvent", r == len(inside), (d, en),
                        lambda: "%d dofs in the closure of %s but their traces span %d dimensions" % (len(inside), (d, en), r))
        if spec[0] not in ("Res",) and not (spec[0] in ("Her", "AW", "MTW") or k == "C1"):
            kk = (d, tuple(len(f) for f in facs), str(cell.unflattening_map[(d, en)][0]) if hasattr(cell, "unflattening_map") else "")
            # closure dofs ordered entity by entity, in the order of the entity's own vertices
            store.setdefault(kk, []).append((en, tr[closure_order(e, cell, d, en)]))
    if not isinstance(spec[1], str) or geom.is_ufc(spec[1]):
        for kk, lst in store.items():
            for en, tr in lst[1:]:
                if tr.shape != lst[0][1].shape:
                    continue     # counted by C06
                m.close("same-trace", tr, lst[0][1], 1e-7, (kk, en), scale=max(1.0, float(np.abs(lst[0][1]).max()) if tr.size else 1))


def closure_order(e, cell, d, en):
    """dofs of the closure of (d, en), entity by entity, in the order the entity's own vertices induce"""
    top = cell.get_topology()
    own = list(top[d][en])
    pos = {v: i for i, v in enumerate(own)}
    ed = e.entity_dofs()
    subs = []
    for dd, ee in geom.entities(cell):
        vs = top[dd][ee]
        if set(vs) <= set(own):
            subs.append(((geom.tdim(dd), sorted(pos[v] for v in vs)), (dd, ee)))
    subs.sort(key=lambda x: x[0])
    return [i for _, (dd, ee) in subs for i in ed[dd][ee]]


def local_points(nv, n, salt):
    """n fixed barycentric points of a simplex with nv vertices"""
    r = np.random.RandomState(1000 + 10 * nv + salt)
    if nv == 1:
        return np.ones((n, 1))
    l = r.exponential(size=(n, nv))
    return l / l.sum(axis=1)[:, None]


# ----------------------------------------------------------------------
def run_weak(job, m):
    spec, rng = job["weak"], m.rng()
    if job["rep"] == 1:
        spec = [spec[0], geom.random_simplex(spec[1], rng)] + spec[2:]
    e = C.build(spec)
    cell = e.get_reference_element()
    sd = cell.get_spatial_dimension()
    top = cell.get_topology()
    cl = e.entity_closure_dofs()
    n = e.space_dimension()
    fam = spec[0]
    nf = {"AWnc": 15, "MTW": 9}.get(fam, n)
    for f in sorted(top[sd - 1]):
        V = geom.entity_vertices(cell, sd - 1, f)
        pts, w = poly.simplex_rule(V, 8)
        T = V[1:] - V[0]
        tab = e.tabulate(1 if fam == "Mor" else 0, [tuple(float(z) for z in p) for p in pts])
        v = tab[(0,) * sd]
        if fam == "CR":
            tr = (v @ w)[:, None]                       # mean value
        elif fam == "Mor":
            tr = np.stack([tab[(1, 0)] @ w, tab[(0, 1)] @ w], axis=1)    # mean gradient
        elif fam == "AWnc":
            s = np.einsum("nabq,b->naq", v, gcross(T))
            lam = np.array([np.linalg.norm(p - V[0]) for p in pts]) / np.linalg.norm(T[0])
            tr = np.concatenate([s @ w, s @ (w * lam)], axis=1)          # moments against P1
        elif fam == "MTW":
            nn = np.einsum("ncq,c->nq", v, gcross(T))
            tr = np.concatenate([nn, (np.einsum("ncq,c->nq", v, T[0]) @ w)[:, None]], axis=1)
        tr = tr[:nf]
        scale = float(np.max(np.abs(tr)))
        out = [i for i in range(nf) if i not in set(cl[sd - 1][f])]
        leak = np.max(np.abs(tr[out]), axis=1) / scale if out else np.zeros(1)
        m.check("weak-continuity", bool(np.all(leak < 1e-8)), f,
                lambda: "functions %s outside the closure of facet %d contribute to its weak trace" % ([out[i] for i in np.nonzero(leak >= 1e-8)[0]], f))


# ----------------------------------------------------------------------
def push(mapping, v, J):
    det = np.linalg.det(J)
    if mapping == "affine":
        return v
    if mapping == "contravariant piola":
        return np.einsum("ab,nbq->naq", J / det, v)
    K = np.linalg.inv(J)
    if mapping == "covariant piola":
        return np.einsum("ba,nbq->naq", K, v)
    if mapping == "double covariant piola":
        return np.einsum("ca,ncdq,db->nabq", K, v, K)
    if mapping == "double contravariant piola":
        return np.einsum("ac,ncdq,bd->nabq", J, v, J) / det ** 2
    raise KeyError(mapping)


def run_patch(job, m):
    spec, mode, rng = job["patch"], job["mode"], m.rng()
    base = spec[1]
    d = geom.sdim(base)
    fam = spec[0]
    k = kind(spec)
    order = 1 if k == "C1" else 0
    ref = C.build(spec) if mode == "mapped" else None
    nf = {"MTW": 9, "AW": 24, "Bell": 18}.get(fam)
    refv = geom.ref_vertices(base)
    built = {}
    for i, j, ids0, idb, xs in patches(d, mode, rng):
        # cell A has the sorted vertex numbers ids0 and shares its local facet i, which is B's local facet j
        S = [q for q in ids0 if q != ids0[i]]
        ida = ids0[i]
        m.count("patches")
        res = []
        loc = local_points(d, 6, 3)
        F = np.array([xs[s] for s in S])
        pts = loc @ F
        T = F[1:] - F[0]
        for extra in (ida, idb):
            ids = sorted(S + [extra])
            V = np.array([xs[q] for q in ids])
            if mode == "mapped":
                e = ref
                J = np.linalg.solve((refv[1:] - refv[0]), V[1:] - V[0]).T if d else np.eye(0)
                back = (pts - V[0]) @ np.linalg.inv(J).T + refv[0]
                tab = e.tabulate(0, [tuple(float(z) for z in p) for p in back])
                v = push(e.mapping()[0], tab[(0,) * d], J)
                tab = {(0,) * d: v}
            else:
                kk = tuple(V.ravel())
                if kk not in built:
                    built[kk] = C.build([fam, ["V", base, V.tolist()]] + spec[2:])
                e = built[kk]
                tab = e.tabulate(order, [tuple(float(z) for z in p) for p in pts])
            tr = traces(k, tab, T, d)
            top = e.get_reference_element().get_topology()
            dofs = {}
            ed = e.entity_dofs()
            for dd in top:
                for en in top[dd]:
                    g = tuple(sorted(ids[q] for q in top[dd][en]))
                    for q, x in enumerate(ed[dd][en]):
                        if nf is None or x < nf:
                            dofs[(dd, g, q)] = x
            res.append((tr, dofs))
        (ta, da), (tb, db) = res
        shared = sorted(x for x in da if set(x[1]) <= set(S))
        m.check("patch-equal", shared == sorted(x for x in db if set(x[1]) <= set(S)), (i, j, "dofs"),
                "the two cells attach different dofs to the shared facet", nontrivial=bool(shared))
        shared = [x for x in shared if x in db]
        A = ta[[da[x] for x in shared]]
        B = tb[[db[x] for x in shared]]
        scale = max(float(np.abs(ta).max()), float(np.abs(tb).max()), 1e-12)
        m.close("patch-equal", A, B, 1e-7, (i, j), scale=scale)
        oa, ob = [da[x] for x in da if x not in shared], [db[x] for x in db if x not in shared]
        leak = max(np.abs(ta[oa]).max() if oa else 0, np.abs(tb[ob]).max() if ob else 0) / scale
        m.check("patch-leak", leak < 1e-7, (i, j), lambda: "an unshared function has a trace of relative size %.3g on the shared facet" % leak)


def patches(d, mode, rng):
    """pairs of cells sharing a facet: every pair of local facet numbers when the element can be mapped; one
    neighbour per facet of a single cell when each cell needs its own element"""
    pairs = list(itertools.product(range(d + 1), repeat=2))
    if mode == "physical":
        perm = rng.permutation(d + 1)
        pairs = [(i, int(perm[i])) for i in range(d + 1)]
    X = None
    for i, j in pairs:
        if X is None or mode == "mapped":
            X = np.array(geom.random_simplex({1: "I", 2: "T", 3: "Tet"}[d], rng)[2])
        ids = [10 * (q + 1) for q in range(d + 1)]
        S = ids[:i] + ids[i + 1:]
        lo = S[j - 1] if j > 0 else 0
        hi = S[j] if j < d else S[-1] + 10
        new = next(z for z in range(lo + 3, hi) if z not in ids)
        xs = dict(zip(ids, X))
        F = np.array([xs[s] for s in S])
        c = F.mean(axis=0)
        # the reflection of the dropped vertex through the facet's centroid, jittered
        xs[new] = np.round(c + (c - xs[ids[i]]) * rng.uniform(0.7, 1.2) + 0.15 * (rng.rand(d + 1) @ np.vstack([F - c, np.zeros(d)])), 6)
        yield i, j, ids, new, xs
