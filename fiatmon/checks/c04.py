"""C04: quadrature rules are exact to their claimed degree on every cell."""
import itertools

import numpy as np

from fiatmon import geom, poly

RULE = ("one case = one quadrature rule (cell x scheme x degree or point count, incl. random simplices of both orientations); every "
        "polynomial of the claimed degree (an orthonormal-type basis) is integrated and compared with an independent Gauss rule; "
        "non-trivial = the claimed space has a non-constant member")
REQUIRED = {"oracle:exact": 700, "oracle:measure": 700, "oracle:inside": 500, "event:quadrature rule": 700, "monitor:M-QUAD": 700,
            "rules-on-moved-cells": 60, "oracle:exact-high": 1000}
ASSUMPTIONS = ["the KMV scheme is judged in C19 (its degree names an element, not an exactness)",
               "Gauss-Radau rules with m points are judged at degree 2m-2, the classical figure",
               "tolerance 2e-12 of (measure x largest basis value)"]


def degs(c, tier):
    n = {0: 4, 1: 40, 2: 26, 3: 14}[geom.sdim(c)] if geom.is_simplex(c) else {2: 16, 3: 9}[geom.sdim(c)]
    if c == "T":
        n = 34
    if c == "Tet":
        n = 18
    if tier == "thorough":
        n = int(n * 1.5)
    return list(range(n + 1))


def jobs(tier, seed):
    out = []
    for c in ["pt", "I", "T", "Tet", "DI", "DT", "DTet", "IT", "ITet", "Q", "H"]:
        for scheme in ("default", "canonical"):
            out.append({"key": "scheme:%s:%s" % (c, scheme), "cell": c, "scheme": scheme, "degrees": degs(c, tier), "cost": geom.sdim(c) ** 2})
    tps = [["TP", "I", "I"], ["TP", "T", "I"], ["TP", "I", "T"], ["TP", ["TP", "I", "I"], "I"], ["TP", "I", ["TP", "I", "I"]],
           ["TP", "T", "T"], ["TP", "Tet", "I"], ["TP", "Q", "I"], ["TP", "I", "I", "I"], ["TP", "DI", "I"], ["TP", "pt", "I"]]
    for c in tps:
        out.append({"key": "tp:%s" % geom.cellname(c), "tp": c, "cost": 6})
    for base in ("I", "T", "Tet"):
        for rep in range({"quick": 60, "thorough": 160}[tier]):
            out.append({"key": "moved:%s:%d" % (base, rep), "moved": base, "rep": rep, "cost": 2})
    for base in ("I", "T", "Tet"):
        for rep in range({"quick": 24, "thorough": 60}[tier]):
            out.append({"key": "plain:%s:%d" % (base, rep), "plain": base, "rep": rep, "cost": 2})
    for c in ["I", "DI"]:
        for fam in ("GaussJacobi", "GLL", "GL", "RadauR", "RadauL"):
            out.append({"key": "line:%s:%s" % (c, fam), "line": c, "fam": fam, "cost": 3})
    for rep in range(4):
        for fam in ("GaussJacobi", "GLL", "GL", "RadauR", "RadauL"):
            out.append({"key": "linemoved%d:%s" % (rep, fam), "line": "moved", "rep": rep, "fam": fam, "cost": 2})
    for c in ["T", "Tet", "DT", "DTet", "IT", "ITet", "Q", "H", "I", "pt"]:
        out.append({"key": "points:%s" % c, "points": c, "cost": 4})
    for c, ks in (("I", (60, 99, 150, 255)), ("DI", (120,)), ("T", (41, 50, 63, 80)), ("DT", (48,)), ("IT", (57,)), ("Tet", (21, 25, 30, 36)), ("DTet", (24,)),
                  ("ITet", (27,)), ("Q", (24, 40, 61)), ("H", (12, 16, 21)), (["TP", "T", "I"], ((16, 31), (33, 8))), (["TP", "I", "I"], ((50, 7), (3, 64)))):
        for k in ks:
            out.append({"key": "high:%s:%s" % (geom.cellname(c), k), "high": c, "k": k, "cost": 4})
    for f in range(4):
        out.append({"key": "face:%d" % f, "face": f})
    for rep in range({"quick": 20, "thorough": 60}[tier]):
        out.append({"key": "product:%d" % rep, "product": rep})
    for b in ("I", "T", "Tet"):
        out.append({"key": "siblings:" + b, "siblings": b, "moved": b, "rep": 0, "cost": 20})
    return out


def facs_of(rule_facs):
    return rule_facs


def judge(m, rule, facs, K, what, inside=True, tol=2e-12):
    """rule on the product of simplices `facs`, claimed exact to degree K (per factor if a tuple)"""
    pts = np.asarray(rule.get_points(), float)
    wts = np.asarray(rule.get_weights(), float)
    d = sum(f.shape[1] for f in facs)
    pts = pts.reshape(len(wts), d)
    meas = 1.0
    for f in facs:
        J = (f[1:] - f[0]).T
        if J.size:
            meas *= abs(np.linalg.det(J)) / float(np.prod(range(1, J.shape[1] + 1)))
    Ks = K if isinstance(K, tuple) else (K,) * len(facs)
    m.close("measure", np.array([wts.sum()]), np.array([meas]), 1e-12, what, scale=meas)
    if inside:
        bad = 0.0
        o = 0
        for f in facs:
            dd = f.shape[1]
            if dd:
                A = np.vstack([f.T, np.ones(len(f))])
                lam = np.linalg.solve(A, np.vstack([pts[:, o:o + dd].T, np.ones(len(pts))]))
                bad = min(bad, lam.min())
            o += dd
        m.check("inside", bad > -1e-11, what, lambda: "barycentric coordinate %.3g" % bad, nontrivial=len(wts) > 1)
    lo = np.concatenate([f.min(axis=0) for f in facs])
    hi = np.concatenate([f.max(axis=0) for f in facs])
    if d == 0:
        return
    B = poly.Basis(lo, hi, Ks, fdims=[f.shape[1] for f in facs])
    # (basis values at the exact rule are computed factor by factor through the product rule)
    got = B.eval(pts) @ wts
    xp, xw = geom.product_rule(facs, max(Ks))
    E = B.eval(xp)
    want = E @ xw
    scale = meas * max(1.0, float(np.abs(E).max()))
    m.close("exact", got, want, tol, what, scale=scale, nontrivial=max(Ks) > 0)
    # integrate() is the same sum
    m.counters.setdefault("oracle:integrate", 0)
    if m.counters["oracle:integrate"] < 6:
        e = B.exps[-1]
        f = lambda x: float(B.eval(np.array([x]))[-1, 0])
        m.close("integrate", np.array([rule.integrate(f)]), want[-1:], tol, what, scale=scale)


def judge_high(m, rule, facs, K, what, rng):
    """some members of the claimed space at high degree: products of Legendre polynomials of the full degree"""
    from numpy.polynomial import legendre as leg
    pts, wts = np.asarray(rule.get_points(), float), np.asarray(rule.get_weights(), float)
    pts = pts.reshape(len(wts), -1)
    Ks = K if isinstance(K, tuple) else (K,) * len(facs)
    lo = np.concatenate([f.min(axis=0) for f in facs])
    hi = np.concatenate([f.max(axis=0) for f in facs])
    rules = [poly.simplex_rule(f, k) for f, k in zip(facs, Ks)]
    for t in range(40):
        got, want, scale, exps = np.array(wts), 1.0, 1.0, []
        o = 0
        for f, k, (xp, xw) in zip(facs, Ks, rules):
            d = f.shape[1]
            if t < d:                   # a power of one coordinate
                e = np.eye(d, dtype=int)[t] * k
            else:                       # a random member, of the full degree most of the time
                cuts = np.sort(rng.randint(0, k + 1, size=d - 1))
                e = np.diff(np.concatenate([[0], cuts, [k if t % 3 else int(rng.randint(k + 1))]]))
                e = np.maximum(e, 0)
                if e.sum() > k:
                    e = np.eye(d, dtype=int)[0] * k
            y, z = 1.0, 1.0
            for i in range(d):
                c = np.eye(int(e[i]) + 1)[int(e[i])]
                y = y * leg.legval(2 * (pts[:, o + i] - lo[o + i]) / (hi[o + i] - lo[o + i]) - 1, c)
                z = z * leg.legval(2 * (xp[:, i] - lo[o + i]) / (hi[o + i] - lo[o + i]) - 1, c)
            got = got * y
            want *= float(z @ xw)
            scale *= float(xw.sum()) * max(1e-3, float(np.abs(z).max()))
            exps.append([int(q) for q in e])
            o += d
        m.close("exact-high", np.array([got.sum()]), np.array([want]), 1e-11, (what, str(exps)), scale=scale)
    m.close("measure", np.array([wts.sum()]), np.array([np.prod([xw.sum() for _, xw in rules])]), 1e-12, what, scale=float(np.prod([xw.sum() for _, xw in rules])))


def simplex(base, rng, rep):
    return geom.random_simplex(base, rng, orient=1 if rep % 2 == 0 else -1, cond=4.0, scale=(0.05, 20.0))


def run(job, m):
    from FIAT import quadrature, quadrature_schemes, reference_element
    cq = quadrature_schemes.create_quadrature
    rng = m.rng()
    if "cell" in job:
        c = job["cell"]
        cell = geom.make_cell(c)
        for k in job["degrees"]:
            judge(m, cq(cell, k, scheme=job["scheme"]) if job["scheme"] != "default" else cq(cell, k), geom.factors(c), k,
                  "%s %s %d" % (c, job["scheme"], k))
    elif "tp" in job:
        c = job["tp"]
        cell = geom.make_cell(c)
        facs = geom.factors(c)
        for k in range(6):
            judge(m, cq(cell, k), facs, k, "%s uniform %d" % (c, k))
        nsub = [len(geom.factors(x)) for x in c[1:]]
        big = 4 if len(facs) > 2 else 9
        for _ in range(8):
            ks = tuple(int(z) for z in rng.randint(0, big, size=len(c) - 1))
            full = sum(((k,) * n for k, n in zip(ks, nsub)), ())
            judge(m, cq(cell, ks), facs, full, "%s %s" % (c, ks))
            judge(m, cq(cell, list(ks), "canonical"), facs, full, "%s %s canonical" % (c, ks))
        # nested tuples for nested products
        if any(not isinstance(x, str) and x[0] == "TP" for x in c[1:]):
            for _ in range(4):
                ks = tuple(tuple(int(z) for z in rng.randint(0, 5, size=n)) if n > 1 else int(rng.randint(0, 5)) for n in nsub)
                full = sum((k if isinstance(k, tuple) else (k,) for k in ks), ())
                judge(m, cq(cell, ks), facs, full, "%s %s" % (c, ks))
    elif "high" in job:
        c, k = job["high"], job["k"]
        k = tuple(k) if isinstance(k, (list, tuple)) else k
        cell = geom.make_cell(c)
        judge_high(m, cq(cell, k), geom.factors(c), k, "default %s" % (k,), rng)
        if geom.is_simplex(c):
            n = (k + 2) // 2
            judge_high(m, quadrature.make_quadrature(cell, n), geom.factors(c), 2 * n - 1, "%d points per direction" % n, rng)
    elif "moved" in job:
        c = simplex(job["moved"], rng, job["rep"])
        m.count("rules-on-moved-cells")
        for k in list(range(0, 9)) + [13]:
            for scheme in ("default", "canonical"):
                judge(m, cq(geom.make_cell(c), k, scheme), geom.factors(c), k, "moved %d %s" % (k, scheme), tol=1e-11)
        if job["moved"] != "I" or job["rep"] % 2 == 0:
            tp = ["TP", c, "I"]
            judge(m, cq(geom.make_cell(tp), (5, 3)), geom.factors(tp), (5, 3), "moved x I", tol=1e-11)
    elif "plain" in job:
        # a user-made Simplex with the standard topology
        base = geom.make_cell(job["plain"])
        c = simplex(job["plain"], rng, job["rep"])
        verts = tuple(tuple(v) for v in c[2])
        cell = reference_element.Simplex(base.get_shape(), verts, base.get_topology())
        m.count("rules-on-moved-cells")
        for k in range(0, 9):
            judge(m, cq(cell, k), [np.array(c[2])], k, "plain simplex %d" % k, tol=1e-11)
    elif "line" in job:
        c = job["line"]
        if c == "moved":
            c = simplex("I", rng, job["rep"])
        fam = job["fam"]
        cell = geom.make_cell(c)
        lo = 2 if fam == "GLL" else 1
        for n in list(range(lo, 25)) + ([32, 40] if fam != "GaussJacobi" else [30]):
            if fam == "GaussJacobi":
                r, k = quadrature.GaussJacobiQuadratureLineRule(cell, n), 2 * n - 1
            elif fam == "GLL":
                r, k = quadrature.GaussLobattoLegendreQuadratureLineRule(cell, n), 2 * n - 3
            elif fam == "GL":
                r, k = quadrature.GaussLegendreQuadratureLineRule(cell, n), 2 * n - 1
            else:
                r, k = quadrature.RadauQuadratureLineRule(cell, n, right=fam == "RadauR"), 2 * n - 2
            w = np.asarray(r.get_weights())
            m.check("point-count", len(w) == n and len(r.get_points()) == n, (fam, n), lambda: "%d weights" % len(w))
            m.check("positive", bool(np.all(w > 0)), (fam, n), lambda: "weights %s" % w[:4])
            judge(m, r, geom.factors(c), k, "%s(%d)" % (fam, n), tol=1e-11)
            x = np.sort(np.asarray(r.get_points(), float).ravel())
            v = np.sort(geom.ref_vertices(c).ravel())
            if fam == "GLL":
                m.close("endpoints", x[[0, -1]], v, 1e-13, (fam, n), scale=float(v[1] - v[0]))
            if fam.startswith("Radau") and n > 1:
                vv = geom.ref_vertices(c).ravel()
                end = vv[1] if fam == "RadauR" else vv[0]
                m.check("endpoints", np.min(np.abs(x - end)) < 1e-13 * (v[1] - v[0]), (fam, n), lambda: "end %s not a node" % end)
    elif "points" in job:
        c = job["points"]
        cell = geom.make_cell(c)
        for n in range(1, {0: 3, 1: 16, 2: 14, 3: 8}[geom.sdim(c)]):
            r = quadrature.make_quadrature(cell, n)
            judge(m, r, geom.factors(c), 2 * n - 1, "%s %d points per direction" % (c, n))
            m.check("point-count", len(r.get_points()) == n ** geom.sdim(c), n, lambda: "%d points" % len(r.get_points()))
    elif "face" in job:
        f = job["face"]
        tet = geom.ref_vertices("Tet")
        ids = [i for i in range(4) if i != f]
        fv = tet[ids]
        for n in range(1, 7):
            r = quadrature.UFCTetrahedronFaceQuadratureRule(f, n)
            pts, wts = np.asarray(r.get_points(), float), np.asarray(r.get_weights(), float)
            xp, xw = poly.simplex_rule(fv, 2 * n)
            lo, hi = geom.bbox("Tet")
            B = poly.Basis(lo, hi, 2 * n - 1)
            m.close("measure", np.array([wts.sum()]), np.array([xw.sum()]), 1e-12, (f, n))
            m.close("exact", B.eval(pts) @ wts, B.eval(xp) @ xw, 1e-11, (f, n), scale=float(np.abs(B.eval(xp)).max()))
            A = np.vstack([tet.T, np.ones(4)])
            lam = np.linalg.solve(A, np.vstack([pts.T, np.ones(len(pts))]))
            m.check("inside", np.abs(lam[f]).max() < 1e-12 and lam.min() > -1e-12, (f, n), "points off the face")
            rr = r.reference_rule()
            J = np.asarray(r.jacobian(), float)
            m.close("face-map", np.asarray(rr.get_points()) @ J.T + fv[0], pts, 1e-12, (f, n))
    elif "product" in job:
        cells = [["I", "T"], ["T", "I"], ["I", "I", "I"], ["I", "pt", "I"]][job["product"] % 4]
        for _ in range(3):
            ks = [int(k) for k in rng.randint(0, 6, size=len(cells))]
            rules = [cq(geom.make_cell(c), k) for c, k in zip(cells, ks)]
            r = quadrature.make_tensor_product_quadrature(*rules)
            judge(m, r, [f for c in cells for f in geom.factors(c)], tuple(ks), "product %s %s" % (cells, ks))
            P = np.asarray(r.get_points(), float)
            want = np.array([np.concatenate(t) for t in itertools.product(*[np.asarray(x.get_points(), float).reshape(len(x.get_weights()), -1) for x in rules])])
            m.close("product-order", P, want, 1e-15, str(cells))
            m.close("product-order", r.get_weights(), np.array([np.prod(t) for t in itertools.product(*[x.get_weights() for x in rules])]), 1e-15, str(cells))
