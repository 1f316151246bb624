"""C03: each family spans exactly the space it documents."""
import numpy as np

from fiatmon import catalog as C
from fiatmon import geom, poly, spaces
from fiatmon.checks.c01 import OSPECS, VSPECS, sibling_jobs

RULE = ("one case = one element; the span of its tabulated basis is compared in L2 (and off the cell) with the documented "
        "space built independently; non-trivial = the space has dimension at least one")
REQUIRED = {"oracle:span": 350, "oracle:independent": 350, "oracle:dimension-formula": 300, "oracle:constrained-subspace": 4,
            "event:tabulate": 350, "oracle:partition-of-unity": 100, "oracle:span-off-cell": 300}
ASSUMPTIONS = ["restricted elements are judged in C11", "principal angles below 1e-6 count as equal"]


def jobs(tier, seed):
    out = []
    for s in C.all_specs(tier) + C.high_specs(tier):
        if not spaces.known(s):
            continue
        if C.name(s).startswith("Enr{RT"):
            continue          # not a direct sum, nothing documented about its span
        out.append({"key": C.name(s), "spec": s, "cost": C.cost(s)})
    for s in EXTREME:
        out.append({"key": "extreme:" + C.name(s), "spec": s, "extreme": 1, "cost": 20})
    for s in OSPECS:
        out.append({"key": C.name(list(s)), "spec": list(s), "cost": 2})
    for s in VSPECS + [("Bern", "T", 3), ("Bern", "Tet", 2), ("Bern", "I", 4), ("FBub", "T", 3), ("Bub", "I", 3)]:
        for rep in range(2 if tier == "quick" else 8):
            out.append({"key": "rnd%d:%s" % (rep, C.name(list(s))), "random": list(s), "rep": rep, "cost": 2})
    out += sibling_jobs()
    out += C.lookalikes(('RT', 'N1', 'BDM', 'N2'))
    return out


# degrees at which the basis is still evaluated accurately but no longer well conditioned: contained, and summing to one
EXTREME = [["Bern", "I", 22], ["Bern", "I", 30], ["Bern", "I", 50], ["Bern", "T", 13], ["Bern", "T", 16], ["Bern", "Tet", 10], ["GLL", "I", 24], ["GLL", "I", 36],
           ["GL", "I", 24], ["GL", "I", 36], ["DG", "I", 14], ["Lag", "I", 14], ["Lag", "T", 9], ["DG", "T", 8], ["Lag", "Tet", 6], ["DPC", "Q", 8],
           ["S", "Q", 12], ["S", "H", 8], ["Bub", "I", 12], ["RT", "T", 7, "integral"], ["N1", "T", 7, "integral"], ["BDM", "T", 7, "integral"], ["N2", "T", 7, "integral"],
           ["Reg", "T", 7], ["HHJ", "T", 7], ["DT", "T", 7], ["Arg", "T", 8]]


UNITY = ("Lag", "DG", "GLL", "GL", "GR", "CR", "P0", "Bern", "DPC")


def flatv(v):
    return v.reshape(v.shape[0], -1, v.shape[-1])


def kmax(spec, e, top=16):
    try:
        k = int(e.degree())
    except Exception:
        k = max(int(x.degree()) for x in e.elements())
    return min(k, top) + 2


def same_span(m, oracle, got, want, w, what, cut=1e-9):
    """both (n, c, q): equal spans in the weighted inner product"""
    s = np.sqrt(w)
    A, B = (flatv(got) * s).reshape(got.shape[0], -1), (flatv(want) * s).reshape(want.shape[0], -1)
    if A.shape[1] != B.shape[1]:
        m.check(oracle, False, what, "value shapes differ: %s against %s" % (got.shape, want.shape))
        return
    qb = poly.orth(B, cut)
    na = np.linalg.norm(A, axis=1)
    An = A / np.where(na > 0, na, 1)[:, None]
    r = np.linalg.norm(An - (An @ qb.T) @ qb, axis=1)
    m.check(oracle, bool(np.all(r < 1e-6)), what,
            lambda: "basis functions %s are not in the documented space (distance %.3g)" % (np.nonzero(r >= 1e-6)[0][:8].tolist(), r.max()),
            sample={"max_distance": float(r.max()) if len(r) else 0, "dimension": int(qb.shape[0])})
    return An, qb


def run(job, m):
    spec = job.get("spec")
    rng = m.rng()
    if "random" in job:
        base = job["random"]
        spec = [base[0], geom.random_simplex(base[1], rng, orient=1 if job["rep"] % 2 == 0 else -1)] + base[2:]
    e = C.build(spec)
    cell = C.cell_of(spec)
    sd = geom.sdim(cell)
    zero = (0,) * sd
    n = e.space_dimension()
    f = spaces.formula(spec)
    if f is not None:
        m.check("dimension-formula", n == f, C.name(spec), lambda: "dimension %d, documented %d" % (n, f))
    K = kmax(spec, e, 60 if job.get("extreme") else 16)
    pts, w = geom.cell_rule(cell, 2 * K)
    lp = [tuple(float(z) for z in p) for p in pts]
    got = np.asarray(e.tabulate(0, lp)[zero], float)
    want = spaces.space(spec, pts)
    r = same_span(m, "span", got, want, w, C.name(spec), 1e-13 if job.get("extreme") else 1e-9)
    if r is None:
        return
    An, qb = r
    m.check("dimension", n == qb.shape[0] == got.shape[0], C.name(spec),
            lambda: "space dimension %d, array rows %d, documented dimension %d" % (n, got.shape[0], qb.shape[0]))
    if job.get("extreme"):
        if spec[0] in UNITY:
            m.close("partition-of-unity", got.sum(axis=0), np.ones(len(pts)), 1e-8, what=C.name(spec), scale=max(1.0, float(np.abs(got).max())))
        m.count("extreme degrees")
        return
    # linear independence, judged after removing the scale of each function
    sv = np.linalg.svd(An @ qb.T, compute_uv=False)
    m.check("independent", len(sv) == n and sv[-1] > 1e-7 * sv[0], C.name(spec),
            lambda: "singular values %s" % sv[-3:], sample={"smallest": float(sv[-1])})
    # the same span outside the cell (a polynomial identity, not a coincidence of the points used)
    far = geom.random_points(cell, max(12, 2 * n // max(1, int(np.prod(got.shape[1:-1])))), rng, spread=0.5)
    g2 = np.asarray(e.tabulate(0, far)[zero], float)
    w2 = spaces.space(spec, np.array(far))
    c = np.linalg.lstsq(flatv(want).reshape(want.shape[0], -1).T, flatv(got).reshape(n, -1).T, rcond=1e-11)[0]
    pred = (c.T @ flatv(w2).reshape(w2.shape[0], -1)).reshape(flatv(g2).shape)
    m.close("span-off-cell", flatv(g2), pred, 1e-6, what=C.name(spec), scale=max(1.0, float(np.abs(pred).max())))
    if spec[0] in spaces.CONSTRAINED_FIRST:
        nn, fn = spaces.CONSTRAINED_FIRST[spec[0]]
        r2 = same_span(m, "constrained-subspace", got[:nn], fn(cell, pts), w, "first %d functions" % nn)
        if r2 is not None:
            m.check("constrained-subspace", r2[1].shape[0] == nn, "dimension", lambda: "oracle has dimension %d" % r2[1].shape[0])
    if spec[0] in UNITY:
        m.close("partition-of-unity", g2.sum(axis=0), np.ones(len(far)), 1e-8, what=C.name(spec),
                scale=max(1.0, float(np.abs(g2).max())))
