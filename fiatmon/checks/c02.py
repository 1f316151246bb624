"""C02: tabulated derivatives are the derivatives of the tabulated functions."""
import numpy as np

from fiatmon import catalog as C
from fiatmon import fitting, geom, poly
from fiatmon.checks.c01 import OSPECS, VSPECS, sibling_jobs

RULE = ("one case = element x multi-index; the basis is reconstructed as exact polynomials from order-0 values alone and its "
        "derivative compared with the tabulated one at interior, boundary, vertex and outside points; "
        "non-trivial = the expected derivative is not identically zero")
REQUIRED = {"oracle:derivative": 1500, "oracle:zero-derivative": 100, "oracle:key-set": 300, "oracle:lower-orders": 250,
            "event:tabulate": 1000}
ASSUMPTIONS = ["tolerance 2e-6 relative to the largest derivative of that order"]


def jobs(tier, seed):
    out = []
    for s in C.all_specs(tier):
        out.append({"key": C.name(s), "spec": s, "cost": geom.sdim(C.cell_of(s)) ** 2 + (s[-1] if isinstance(s[-1], int) else 1)})
    for s in OSPECS:
        out.append({"key": C.name(list(s)), "spec": list(s), "cost": 3})
    for s in VSPECS + [("Bern", "T", 3), ("Bern", "Tet", 2), ("Bern", "I", 3)]:
        for rep in range(1 if tier == "quick" else 6):
            out.append({"key": "rnd%d:%s" % (rep, C.name(list(s))), "random": list(s), "rep": rep, "cost": 3})
    out += sibling_jobs()
    out += C.lookalikes()
    return out


def max_order(sd, deg, tier):
    cap = {1: 8, 2: 5, 3: 3, 4: 2}[sd] + (1 if tier == "thorough" else 0)
    return min(deg + 1, cap)


def run(job, m):
    spec = job.get("spec")
    rng = m.rng()
    if "random" in job:
        base = job["random"]
        spec = [base[0], geom.random_simplex(base[1], rng, orient=1 if job["rep"] % 2 == 0 else -1)] + base[2:]
    e = C.build(spec)
    cell = C.cell_of(spec)
    sd = geom.sdim(cell)
    fit = fitting.fit_element(e, spec, rng)
    if not m.check("polynomial", fit.resid < 1e-7, C.name(spec),
                   lambda: "order-0 values are not polynomials of degree <= %s (misfit %.3g)" % (fit.basis.K, fit.resid)):
        return
    deg = e.degree() if spec[0] != 'Mix' else max(int(x.degree()) for x in e.elements())
    R = max_order(sd, max(deg, 0), m.tier)
    if spec[0] in ("S",) or (spec[0] == "Mix" and any(x[0] == "S" for x in spec[1:])):
        R = min(R, 3 if sd == 2 else 2)
    V = geom.ref_vertices(cell)
    pts = [tuple(float(z) for z in v) for v in V]
    pts += [tuple(float(z) for z in (V[i] + V[j]) / 2) for i in range(len(V)) for j in range(i)][:6]
    pts += [tuple(float(z) for z in V.mean(axis=0))]
    pts += geom.random_points(cell, 4, rng) + geom.random_points(cell, 2, rng, spread=0.6)
    tabs = e.tabulate(R, pts)
    m.check("key-set", set(tabs) == set(poly.mis_upto(sd, R)) and len(tabs) == len(poly.mis_upto(sd, R)),
            R, lambda: "keys %s" % sorted(tabs))
    prev = fit.scale
    for o in range(R + 1):
        exps = {a: fit.eval(pts, a) for a in poly.mis(sd, o)}
        # noise floor of the reconstruction at this order
        floor = 1e-7 * fit.scale * max(np.max(np.abs(fit.basis.eval(pts, a))) for a in exps)
        top_o = max(np.max(np.abs(x)) for x in exps.values())
        # (differentiating once more amplifies roundoff by at most ~4K^2 / diameter)
        scale = max(top_o, floor, 1e-3 * fit.scale, 1e-5 * prev * 4 * max(fit.basis.Kmax, 1) ** 2)
        if top_o < 1e-6 * prev:
            scale = max(scale, prev)
        prev = max(top_o, prev)
        for a, want in exps.items():
            if a not in tabs:
                m.fail("derivative", a, "multi-index missing")
                continue
            big = np.max(np.abs(want)) > 1e-3 * floor
            m.close("derivative" if big else "zero-derivative", tabs[a], want, 2e-6, what=a, scale=scale, nontrivial=big)
    # the lower-order arrays do not depend on the order asked for
    for o in sorted(set([0, max(R - 1, 0)])):
        low = e.tabulate(o, pts)
        ok = set(low) == set(poly.mis_upto(sd, o))
        m.check("key-set", ok, o, lambda: "keys %s" % sorted(low))
        for a in low:
            if a in tabs:
                m.close("lower-orders", low[a], tabs[a], 1e-11, what=(o, a), scale=max(1.0, float(np.max(np.abs(tabs[a]))) if np.size(tabs[a]) else 1))
    # beyond the degree: everything vanishes (cheap: one point)
    top = min(deg + 1, {1: 12, 2: 8, 3: 6, 4: 4}[sd])
    if "TP" not in str(spec) and cell not in ("Q", "H") and top == deg + 1 and R < top <= 6:
        t = e.tabulate(top, pts[-3:-2])
        for a in poly.mis(sd, top):
            m.close("zero-derivative", t[a], np.zeros(np.shape(t[a])), 2e-6, what=a, scale=fit.scale * 8 ** top, nontrivial=False)
