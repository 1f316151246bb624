"""C21: accuracy does not collapse with degree or near nodes."""
import numpy as np
from numpy.polynomial import legendre as L

from fiatmon import catalog as C
from fiatmon import geom, poly

RULE = ("one case = one spectral element, Gauss-type rule or expansion set at one (high) degree on one interval or simplex; values at, next to and "
        "arbitrarily close to nodes and vertices are compared with a backward-stable product formula, an orthonormal Legendre model or exact "
        "integrals; non-trivial = degree at least four")
REQUIRED = {"oracle:nodal": 60, "oracle:sum-to-one": 60, "oracle:near-node": 60, "oracle:near-node-derivative": 40, "oracle:reproduces": 60,
            "oracle:rule-exact": 120, "oracle:rule-sane": 120, "oracle:expansion-orthogonal": 8, "oracle:near-vertex": 24,
            "oracle:jacobi-high": 40, "oracle:bernstein-value": 8, "oracle:bernstein-derivative": 10, "points next to nodes": 10000}
ASSUMPTIONS = ["tolerance 2e-14 * (degree + 1)^2 for nodal values, 1e-12 * (points)^1.5 for rules; derivatives relative to their largest value",
               "derivatives that go through derivative matrices (Gauss-Radau) are judged to degree 16",
               "equispaced families are ill-conditioned by nature and not judged here"]

EPS = (0.0, 1e-300, 1e-17, 1.2e-16, 3e-16, 1e-15, 1e-14, 1e-13, 1e-12, 1e-11, 1e-10, 1e-9, 5e-9, 2e-8, 1e-7, 1e-5)


def jobs(tier, seed):
    th = tier == "thorough"
    out = []
    degs = [4, 8, 12, 16, 20, 24, 32, 40, 48, 64, 80, 104] + ([96, 128] if th else [])
    for fam in ("GLL", "GL", "GR"):
        for k in degs:
            if fam == "GR" and k > (48 if not th else 64):
                continue
            for c in ("I", "DI", "rnd", "tiny", "huge") if k < 80 or th else ("I", "rnd"):
                out.append({"key": "near:%s[%s,%d]" % (fam, c, k), "near": [fam, c, k], "cost": 1 + k / 16})
    for rule in ("gauss-jacobi", "gauss-legendre", "lobatto", "radau-right", "radau-left"):
        for mm in [2, 5, 10, 17, 24, 32, 45, 64, 90, 104, 128, 180] + ([250, 300] if th else []):
            for c in ("I", "DI", "rnd"):
                out.append({"key": "rule:%s[%s,%d]" % (rule, c, mm), "rule": [rule, c, mm], "cost": 1})
    for c, ds in (("T", (20, 31, 40, 60)), ("Tet", (12, 20, 31)), ("I", (40, 80, 127, 200, 301)), (["TP", "I", "T"], (20,)), ("Q", (40,)), ("H", (21,))):
        for d in ds if not th else ds + tuple(int(1.5 * x) for x in ds[-1:]):
            out.append({"key": "scheme:%s,%d" % (geom.cellname(c), d), "scheme": [c, d], "cost": 4})
    for c, ds in (("DI", (32, 64)), ("DT", (16, 24)), ("DTet", (10, 13)), ("I", (40,)), ("T", (20,)), ("Tet", (11,))):
        for d in ds:
            out.append({"key": "expansion:%s,%d" % (c, d), "expansion": [c, d], "cost": 8})
    for ab in ((0, 0), (1, 1), (2, 0), (0, 1), (5, 0), (11, 0), (21, 0)):
        out.append({"key": "jacobi:%d,%d" % ab, "jacobi": list(ab), "cost": 1})
    out.append({"key": "barycentric", "bary": True})
    for c, ds in (("I", (12, 21, 40, 66, 90)), ("T", (10, 21, 30, 42)), ("Tet", (8, 13))):
        for d in ds + ((60,) if th and c == "T" else (21,) if th and c == "Tet" else ()):
            out.append({"key": "bernstein:%s,%d" % (c, d), "bern": [c, d], "cost": 6})
    return out


def lagrange(x, t):
    """product formula for all nodal functions: backward stable, no cancellation near nodes"""
    n = len(x)
    out = np.ones((n, len(t)))
    for j in range(n):
        for k in range(n):
            if k != j:
                out[j] *= (t - x[k]) / (x[j] - x[k])
    return out


def lagrange_d(x, t):
    n = len(x)
    out = np.zeros((n, len(t)))
    for j in range(n):
        o = [k for k in range(n) if k != j]
        fac = np.array([(t - x[k]) / (x[j] - x[k]) for k in o]).reshape(len(o), -1)
        pre, suf = np.ones_like(fac), np.ones_like(fac)
        for i in range(1, len(o)):
            pre[i] = pre[i - 1] * fac[i - 1]
        for i in range(len(o) - 2, -1, -1):
            suf[i] = suf[i + 1] * fac[i + 1]
        for i, k in enumerate(o):
            out[j] += pre[i] * suf[i] / (x[j] - x[k])
    return out


def interval(c, rng):
    if c == "rnd":
        return geom.random_simplex("I", rng)
    if c == "tiny":
        return ["V", "I", [[0.0], [1e-7]]]
    if c == "huge":
        return ["V", "I", [[-1e6], [2e6]]]
    return c


def run(job, m):
    rng = m.rng()
    for k in ("near", "rule", "scheme", "expansion", "jacobi", "bary", "bern"):
        if k in job:
            return globals()["run_" + k](job, m, rng)


def run_near(job, m, rng):
    fam, c, k = job["near"]
    c = interval(c, rng)
    e = C.build([fam, c, k])
    x = np.array([float(np.ravel(list(ell.get_point_dict())[0])[0]) for ell in e.dual_basis()])
    v = geom.ref_vertices(c)[:, 0]
    h = abs(v[1] - v[0])
    tol = 2e-14 * (k + 1) ** 2
    big = k >= 4
    V = np.asarray(e.tabulate(0, np.array(x)[:, None])[(0,)], float)
    m.close("nodal", V, np.eye(len(x)), tol, k, scale=1.0, nontrivial=big)
    t = np.concatenate([x + s * h * d for d in EPS for s in (1, -1)] + [v, rng.uniform(v.min(), v.max(), size=7)])
    m.count("points next to nodes", len(t))
    T = e.tabulate(1, [(z,) for z in t])
    got, gotd = np.asarray(T[(0,)], float), np.asarray(T[(1,)], float)
    m.check("finite", bool(np.all(np.isfinite(got)) and np.all(np.isfinite(gotd))), k, "values or derivatives next to nodes are not finite")
    m.close("near-node", got, lagrange(x, t), tol, k, scale=1.0, nontrivial=big)
    m.close("sum-to-one", got.sum(axis=0), np.ones(len(t)), tol, k, scale=1.0, nontrivial=big)
    if k <= (24 if fam != "GR" else 16):
        want = lagrange_d(x, t)
        m.close("near-node-derivative", gotd, want, 10 * tol, k, scale=float(np.abs(want).max()), nontrivial=big)
    s = (2 * x - v.sum()) / (v[1] - v[0])
    r = (2 * t - v.sum()) / (v[1] - v[0])
    P = lambda z: np.array([L.legval(z, np.eye(k + 1)[j]) for j in range(k + 1)])
    m.close("reproduces", P(s) @ got, P(r), tol * 5, k, scale=1.0, nontrivial=big)


def make_rule(name, cell, mm):
    from FIAT import quadrature as Q
    if name == "gauss-jacobi":
        return Q.GaussJacobiQuadratureLineRule(cell, mm), 2 * mm - 1
    if name == "gauss-legendre":
        return Q.GaussLegendreQuadratureLineRule(cell, mm), 2 * mm - 1
    if name == "lobatto":
        return Q.GaussLobattoLegendreQuadratureLineRule(cell, mm), 2 * mm - 3
    return Q.RadauQuadratureLineRule(cell, mm, name.endswith("right")), 2 * mm - 2


def run_rule(job, m, rng):
    name, c, mm = job["rule"]
    c = interval(c, rng)
    q, deg = make_rule(name, geom.make_cell(c), mm)
    x = np.array([float(np.ravel(p)[0]) for p in q.get_points()])
    w = np.asarray(q.get_weights(), float)
    v = geom.ref_vertices(c)[:, 0]
    h = abs(v[1] - v[0])
    s = (2 * x - v.sum()) / (v[1] - v[0])
    m.check("rule-sane", len(x) == len(w) == mm and bool(np.all(w > 0)) and bool(np.all(np.isfinite(w))) and bool(np.all(np.abs(s) <= 1 + 1e-13)) and len(np.unique(np.round(s, 10))) == mm,
            mm, lambda: "weights or points are not those of a Gauss-type rule: min weight %.3g, max |x| %.17g, %d distinct points"
            % (w.min(), np.abs(s).max(), len(np.unique(np.round(s, 10)))))
    T = np.array([L.legval(s, np.eye(deg + 1)[j]) for j in range(deg + 1)])
    want = np.zeros(deg + 1)
    want[0] = h
    m.close("rule-exact", T @ w, want, 1e-12 * mm ** 1.5, mm, scale=h, nontrivial=mm >= 4)


def run_scheme(job, m, rng):
    import FIAT
    c, d = job["scheme"]
    q = FIAT.create_quadrature(geom.make_cell(c), d)
    sd = geom.sdim(c)
    pts = np.array([np.ravel(np.asarray(p, float)) for p in q.get_points()]).reshape(-1, sd)
    w = np.asarray(q.get_weights(), float)
    facs = geom.factors(c)
    rules = []
    B = poly.Basis(*geom.bbox(c), d) if len(facs) == 1 else poly.Basis(*geom.bbox(c), min(d, 24))
    m.check("rule-sane", len(pts) == len(w) and bool(np.all(np.isfinite(w))) and all(geom.in_hull(c, p, 1e-12) for p in pts[::max(1, len(pts) // 400)]),
            d, "points outside the cell or weights not finite")
    p2, w2 = geom.cell_rule(c, B.Kmax + 1)
    want = np.zeros(B.n)
    step = max(1, int(4e6 // max(1, B.n)))
    for i in range(0, len(p2), step):
        want += B.eval(p2[i:i + step]) @ w2[i:i + step]
    got = np.zeros(B.n)
    for i in range(0, len(pts), step):
        got += B.eval(pts[i:i + step]) @ w[i:i + step]
    m.close("rule-exact", got, want, 1e-10, d, scale=1.0)


def scaled_jacobi(n, a, x, t):
    """t^k P_k^{(a,0)}(x/t), k = 0..n, without dividing by t"""
    out = [np.ones_like(x)]
    if n:
        out.append(((a + 2) * x + a * t) / 2)
    for k in range(2, n + 1):
        c0 = 2 * k * (k + a) * (2 * k + a - 2)
        c1 = (2 * k + a - 1)
        c2 = (2 * k + a) * (2 * k + a - 2)
        c3 = 2 * (k + a - 1) * (k - 1) * (2 * k + a)
        out.append((c1 * (c2 * x + a * a * t) * out[-1] - c3 * t * t * out[-2]) / c0)
    return out


def dubiner(c, N, pts):
    """an orthogonal basis of P_N on a simplex, as homogeneous polynomials of barycentric coordinates"""
    v = geom.ref_vertices(c)
    d = v.shape[1]
    lam = np.linalg.solve(np.vstack([v.T, np.ones(d + 1)]), np.vstack([np.asarray(pts, float).T, np.ones(len(pts))]))
    # level 1: scaled Legendre polynomials in lam0, lam1
    level = [(k, f) for k, f in enumerate(scaled_jacobi(N, 0, lam[1] - lam[0], lam[0] + lam[1]))]
    t = lam[0] + lam[1]
    for j in range(2, d + 1):
        nxt = []
        for k, f in level:
            for r, g in enumerate(scaled_jacobi(N - k, 2 * k + j - 1, lam[j] - t, lam[j] + t)):
                nxt.append((k + r, f * g))
        t = t + lam[j]
        level = nxt
    return np.array([f for k, f in level])


def run_expansion(job, m, rng):
    from FIAT import expansions
    c, N = job["expansion"]
    cell = geom.make_cell(c)
    d = geom.sdim(c)
    es = expansions.get_expansion_set(cell)
    q, w = geom.cell_rule(c, 2 * N + 1)
    T = np.asarray(es.tabulate(N, [tuple(float(z) for z in p) for p in q]), float)
    m.check("finite", bool(np.all(np.isfinite(T))), N, "values are not finite")
    G = (T * w) @ T.T
    s = np.sqrt(np.abs(np.diag(G)))
    m.close("expansion-orthogonal", G / np.outer(s, s), np.eye(len(G)), 1e-11, N, scale=1.0)
    # at, next to and arbitrarily close to the vertices and edges
    V = geom.ref_vertices(c)
    ctr = V.mean(axis=0)
    pts = []
    for i in range(len(V)):
        for eps in (0.0, 1e-300, 1e-17, 1e-16, 1e-15, 1e-14, 1e-12, 1e-10, 1e-8, 1e-6, 1e-4):
            pts.append(V[i] + eps * (ctr - V[i]))
            j = (i + 1) % len(V)
            pts.append(V[i] + eps * (V[j] - V[i]))
            mid = 0.5 * (V[i] + V[j])
            pts.append(mid + eps * (ctr - mid))
    pts = np.array(pts)
    lo, hi = geom.bbox(c)
    own = dubiner(c, N, q)
    nrm = (own ** 2 * w).sum(axis=1)
    co = (T * w) @ own.T / nrm                    # exact coefficients in the model, a well conditioned projection
    m.close("expansion-in-model", co @ own, T, 1e-10, N, scale=float(np.abs(T).max()))
    want = co @ dubiner(c, N, pts)
    got = np.asarray(es.tabulate(N, [tuple(float(z) for z in p) for p in pts]), float)
    m.count("points next to nodes", len(pts))
    m.close("near-vertex", got, want, 1e-9, N, scale=float(np.abs(want).max()))
    n = min(N, {1: 32, 2: 8, 3: 4}[d])
    D = poly.dim_P(d, n)
    dv = es.tabulate_derivatives(n, [tuple(float(z) for z in p) for p in pts])
    der = np.array([[list(e[1]) for e in row] for row in dv], float)
    Bn = poly.Basis(lo, hi, n)
    cn = np.linalg.lstsq((Bn.eval(q) * np.sqrt(w)).T, (T[:D] * np.sqrt(w)).T, rcond=None)[0].T
    for i in range(d):
        wd = cn @ Bn.eval(pts, tuple(int(i == j) for j in range(d)))
        m.close("near-vertex", der[:, :, i], wd, 1e-8, (n, "derivative", i), scale=float(np.abs(wd).max()))


def exact_jacobi(n, a, b, x):
    """explicit sum in powers of (x-1)/2, in exact rational arithmetic (integer a, b)"""
    from fractions import Fraction
    from math import comb
    t = (Fraction(x) - 1) / 2
    return float(sum(comb(n + a, n - s) * comb(n + a + b + s, s) * t ** s for s in range(n + 1)))


def run_jacobi(job, m, rng):
    import mpmath
    from FIAT import jacobi, quadrature
    a, b = job["jacobi"]
    xs = [-1.0, -1.0 + 1e-15, -0.999, -0.3, 0.0, 1e-300, 0.7, 1.0 - 1e-12, 1.0]
    N = 60
    B = np.asarray(jacobi.eval_jacobi_batch(a, b, N, np.array(xs)[:, None]), float)
    D = np.asarray(jacobi.eval_jacobi_deriv_batch(a, b, N, np.array(xs)[:, None]), float)
    if True:
        for n in (1, 7, 20, 41, 60):
            want = np.array([float(exact_jacobi(n, a, b, x)) for x in xs])
            wd = np.array([float((n + a + b + 1) * exact_jacobi(n - 1, a + 1, b + 1, x) / 2) for x in xs])
            m.close("jacobi-high", B[n], want, 1e-11, n, scale=float(np.abs(want).max()))
            m.close("jacobi-high", D[n], wd, 1e-10, (n, "derivative"), scale=float(np.abs(wd).max()))
            m.close("jacobi-high", [jacobi.eval_jacobi(a, b, n, x) for x in xs], want, 1e-11, (n, "single"), scale=float(np.abs(want).max()))
        for mm in (8, 24, 40):
            x, w = quadrature.compute_gauss_jacobi_rule(a, b, mm)
            x, w = np.asarray(x, float), np.asarray(w, float)
            # moments of (1-x)^a (1+x)^b against Jacobi polynomials vanish but the first
            P = np.asarray(jacobi.eval_jacobi_batch(a, b, 2 * mm - 1, np.array(x)[:, None]), float)
            mu = float(mpmath.mpf(2) ** (a + b + 1) * mpmath.beta(a + 1, b + 1))
            want = np.zeros(2 * mm)
            want[0] = mu
            scale = np.maximum(np.abs(P).max(axis=1), 1.0)
            m.close("rule-exact", (P @ w) / scale, want / scale, 1e-11 * mm, (a, b, mm), scale=max(1.0, mu))
            m.check("rule-sane", len(x) == mm and bool(np.all(np.diff(np.sort(x)) > 0)) and bool(np.all(w > 0)) and np.abs(x).max() < 1, (a, b, mm),
                    "not the points and weights of a Gauss-Jacobi rule")


def run_bary(job, m, rng):
    """the shared kernel of the spectral elements, on nodes of its caller's choosing"""
    from FIAT.barycentric_interpolation import barycentric_interpolation as BI
    for n in (1, 2, 3, 5, 9, 17, 33, 65):
        for sc, off in ((1.0, 0.0), (1e-9, 0.0), (1e9, 0.0), (1.0, -7.0), (1e-150, 0.0)):
            x = off + sc * np.cos((2 * np.arange(n) + 1) * np.pi / (2 * n))[rng.permutation(n)]
            t = np.concatenate([x] + [x + s * d * sc for d in EPS for s in (1, -1)] + [off + sc * rng.uniform(-1, 1, size=5)])
            m.count("points next to nodes", len(t))
            T = BI(x, t, order=1)
            got = np.asarray(T[(0,)], float)
            m.close("near-node", got, lagrange(x, t), 2e-14 * n ** 2 * (1 + abs(off)), (n, sc, off), scale=1.0, nontrivial=n > 1)
            m.close("sum-to-one", got.sum(axis=0), np.ones(len(t)), 2e-14 * n ** 2, (n, sc, off), scale=1.0, nontrivial=n > 1)
            if n > 1:
                wd = lagrange_d(x, t)
                m.close("near-node-derivative", T[(1,)], wd, 1e-12 * n * n * (1 + abs(off)), (n, sc, off), scale=float(np.abs(wd).max()), nontrivial=True)


def run_bern(job, m, rng):
    """Bernstein polynomials of high degree against exact rational arithmetic"""
    import FIAT
    from fractions import Fraction as F
    from math import factorial
    c, n = job["bern"]
    cell = geom.make_cell(c)
    d = geom.sdim(c)
    e = FIAT.Bernstein(cell, n)
    V = [[F(float(x)) for x in v] for v in geom.ref_vertices(c)]
    lams = [[1] + [0] * d, [0] * d + [1], [F(1, d + 1)] * (d + 1)]
    lams += [[F(int(k), 64) for k in q] + [1 - sum(F(int(k), 64) for k in q)] for q in rng.randint(1, 64 // d, size=(2, d))]
    pts = [tuple(float(sum(l * v[i] for l, v in zip(lam, V))) for i in range(d)) for lam in lams]
    order = 2 if d == 1 else 1
    T = e.tabulate(order, pts)
    m.check("bernstein-type", all(np.asarray(v).dtype.kind == "f" for v in T.values()), n,
            lambda: "values of type %s" % sorted(set(str(np.asarray(v).dtype) for v in T.values())))
    m.check("finite", all(bool(np.all(np.isfinite(np.asarray(v, float)))) for v in T.values()), n, "values are not finite")
    # reference cells: lam_{i+1} = x_i (up to the vertices' positions), gradients by differences of vertices
    G = np.linalg.inv(np.vstack([np.array([[float(x) for x in v] for v in V]).T, np.ones(d + 1)]))[:, :d]
    Gf = [[F(float(x)).limit_denominator(1000) for x in row] for row in G]

    def exps(k, s):
        if k == 1:
            yield (s,)
            return
        for a in range(s, -1, -1):
            for r in exps(k - 1, s - a):
                yield (a,) + r

    def bern(ks, lam):
        if min(ks) < 0:
            return F(0)
        co = factorial(sum(ks))
        v = F(1)
        for k, l in zip(ks, lam):
            co //= factorial(k)
            v *= l ** k
        return co * v

    def deriv(ks, lam, al):
        for i in range(d):
            if al[i]:
                be = tuple(a - (j == i) for j, a in enumerate(al))
                s = sum(ks)
                return s * sum(Gf[j][i] * deriv(tuple(k - (q == j) for q, k in enumerate(ks)), lam, be)
                               for j in range(d + 1) if ks[j] > 0 and Gf[j][i])
        return bern(ks, lam)

    zero = (0,) * d
    V0 = np.asarray(T[zero], float)
    m.close("sum-to-one", V0.sum(axis=0), np.ones(len(pts)), 1e-12, n, scale=1.0)
    # the functions are told apart by their value pattern: judged as a set, by the exact exponents of best match
    ref = {ks: [float(bern(ks, lam)) for lam in lams] for ks in exps(d + 1, n)}
    names = sorted(ref)
    R = np.array([ref[k] for k in names])
    own = []
    for i in range(len(V0)):
        own.append(int(np.argmin(np.abs(R - V0[i]).max(axis=1))))
    m.close("bernstein-value", V0, R[own], 1e-12, n, scale=1.0)
    # every partial derivative sums to zero and equals the exact one
    for al, v in T.items():
        r = sum(al)
        v = np.asarray(v, float)
        sc = float(n) ** r
        m.close("sum-to-one", v.sum(axis=0), np.ones(len(pts)) * (r == 0), 1e-11, (n, al), scale=sc)
        if r == 0:
            continue
        W = np.array([[float(deriv(names[j], lam, al)) for lam in lams] for j in own[:300]])
        # values far below one do not identify the function: judge those that do
        good = np.array([np.sort(np.abs(R - V0[i]).max(axis=1))[1] > 1e-9 for i in range(len(W))])
        m.close("bernstein-derivative", v[:300][good], W[good], 1e-11, (n, al), scale=max(sc, float(np.abs(W).max())))
