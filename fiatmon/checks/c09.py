"""C09: expansion sets and orthogonal polynomials are what they claim."""
import math

import numpy as np

from fiatmon import geom, poly

RULE = ("one case = expansion set x cell x degree (Gram matrix, hierarchy, span, derivatives) or a one-dimensional recurrence "
        "x weights x degree against explicit formulas; non-trivial = degree at least one")
REQUIRED = {"oracle:orthogonal": 100, "oracle:hierarchy": 100, "oracle:derivatives": 60, "oracle:orthonormal-default": 15,
            "oracle:jacobi-value": 100, "oracle:jacobi-derivative": 100, "oracle:recurrence": 60, "oracle:gauss": 60,
            "oracle:span-Pk": 100, "oracle:polynomial-set": 40, "oracle:integer-points": 8, "oracle:projection": 6}
ASSUMPTIONS = ["tolerance 1e-9 (values) and 1e-8 (derivatives), relative"]

AB = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (3, 0), (0.5, 0.5), (-0.5, -0.5), (-0.5, 0.5), (2.5, 0.25), (-0.25, 1), (5, 0), (7, 2)]


def jobs(tier, seed):
    th = tier == "thorough"
    out = []
    tops = {"I": 14, "T": 9, "Tet": 6}
    if th:
        tops = {"I": 24, "T": 13, "Tet": 9}
    for base, N in tops.items():
        d = {"I": "DI", "T": "DT", "Tet": "DTet"}[base]
        cells = [base, d]
        if base in ("T", "Tet"):
            cells.append("I" + base)
        for c in cells:
            out.append({"key": "exp:%s" % c, "cell": c, "N": N, "cost": 5})
        for rep in range(6 if not th else 12):
            out.append({"key": "exp:rnd%d:%s" % (rep, base), "random": base, "rep": rep, "N": N, "cost": 6})
        out.append({"key": "siblings:" + base, "siblings": base, "random": base, "rep": 0, "N": min(N, 5), "cost": 9})
    for a, b in AB:
        out.append({"key": "jacobi:%s,%s" % (a, b), "ab": [a, b], "N": 14 if not th else 30})
    for a in (0, 1, 2, 0.5, 1.5):
        out.append({"key": "jaclog:%s" % a, "log": a})
    for c, k, shape in [("DI", 4, []), ("DT", 3, []), ("DTet", 2, []), ("DT", 2, [2]), ("DTet", 2, [3]), ("DI", 3, [2]), ("DT", 2, [2, 2]),
                        ("DT", 2, "sym"), ("DTet", 1, "sym"), ("DT", 0, []), ("DTet", 0, [3]), ("T", 3, []), ("Tet", 2, [3]), ("I", 5, []),
                        ("T", 2, "sym"), ("DT", 1, [3]), ("DT", 2, "sym3")]:
        out.append({"key": "pset:%s,%d,%s" % (c, k, shape), "pset": [c, k, shape], "cost": 3})
    out.append({"key": "exp:point", "point": True})
    return out


def run(job, m):
    if "ab" in job:
        return run_jacobi(job, m)
    if "log" in job:
        return run_log(job, m)
    if "pset" in job:
        return run_pset(job, m)
    if "point" in job:
        from FIAT import expansions, reference_element
        es = expansions.get_expansion_set(reference_element.Point())
        m.close("hierarchy", es.tabulate(0, [(), ()]), np.ones((1, 2)), 0.0, "point")
        m.check("hierarchy", es.get_num_members(0) == 1, "point members", "")
        return
    return run_exp(job, m)


def run_exp(job, m):
    from FIAT import expansions
    rng = m.rng()
    c = job.get("cell")
    if c is None:
        c = geom.random_simplex(job["random"], rng, orient=1 if job["rep"] % 2 == 0 else -1, cond=4.0)
    cell = geom.make_cell(c)
    d = geom.sdim(c)
    es = expansions.get_expansion_set(cell)
    N = job["N"]
    q, w = geom.cell_rule(c, 2 * N + 1)
    ql = [tuple(float(z) for z in p) for p in q]
    top = np.asarray(es.tabulate(N, ql), float)
    lo, hi = geom.bbox(c)
    vol = w.sum()
    for n in range(N + 1):
        D = poly.dim_P(d, n)
        m.check("count", es.get_num_members(n) == D == expansions.polynomial_dimension(cell, n), n,
                lambda: "%d members, dim P_%d = %d" % (es.get_num_members(n), n, D))
        T = np.asarray(es.tabulate(n, ql), float) if n != N else top
        if not m.check("shape", T.shape == (D, len(ql)), n, lambda: "shape %s" % (T.shape,)):
            continue
        G = (T * w) @ T.T
        s = np.sqrt(np.abs(np.diag(G)))
        off = G / np.outer(s, s) - np.eye(D)
        m.close("orthogonal", off, np.zeros((D, D)), 1e-9, n, scale=1.0, nontrivial=n > 0)
        if isinstance(c, str) and c.startswith("D"):
            m.close("orthonormal-default", np.diag(G), np.ones(D), 1e-9, n)
        m.close("uniform-norm", np.diag(G), np.full(D, G[0, 0]), 1e-8, n)
        # hierarchical: the set of degree n is the head of the set of degree N
        m.close("hierarchy", T, top[:D], 1e-10, n, scale=float(np.abs(top[:D]).max()))
        # and spans P_n
        B = poly.Basis(lo, hi, n)
        co = B.fit(T, q)
        far = np.array(geom.random_points(c, 6, rng, spread=0.4))
        got = np.asarray(es.tabulate(n, [tuple(float(z) for z in p) for p in far]), float)
        want = co @ B.eval(far)
        m.close("span-Pk", got, want, 1e-8, n, scale=float(np.abs(want).max()), nontrivial=n > 0)
    # derivatives, at ordinary and special points
    n = min(N, {1: 10, 2: 5, 3: 3}[d] + (1 if m.tier == "thorough" else 0))
    for nn in sorted(set([1, n])):
        B = poly.Basis(lo, hi, nn)
        co = B.fit(np.asarray(es.tabulate(nn, ql), float), q)
        V = geom.ref_vertices(c)
        pts = [tuple(float(z) for z in v) for v in V] + geom.random_points(c, 4, rng) + geom.random_points(c, 2, rng, spread=.5)
        dv = es.tabulate_derivatives(nn, pts)
        val = np.array([[e[0] for e in row] for row in dv], float)
        der = np.array([[list(e[1]) for e in row] for row in dv], float)
        wv = co @ B.eval(pts)
        m.close("derivatives", val, wv, 1e-8, ("value", nn), scale=float(np.abs(wv).max()))
        for i in range(d):
            wd = co @ B.eval(pts, tuple(int(i == j) for j in range(d)))
            m.close("derivatives", der[:, :, i], wd, 1e-8, (nn, i), scale=float(np.abs(wd).max()))
        if hasattr(es, "tabulate_jet") and nn <= 3:
            jet = es.tabulate_jet(nn, pts, order=2)
            for i in range(d):
                for j in range(d):
                    a = [0] * d
                    a[i] += 1
                    a[j] += 1
                    wd = co @ B.eval(pts, tuple(a))
                    g = np.asarray(jet[2])[..., i, j]
                    m.close("derivatives", g, wd, 1e-7, (nn, i, j), scale=max(1.0, float(np.abs(wd).max())))
    # integer coordinates are points like any other
    ip = [tuple(int(z) for z in v) for v in np.vstack([np.zeros((1, d)), np.eye(d)])]
    fp = [tuple(float(z) for z in p) for p in ip]
    m.close("integer-points", np.asarray(es.tabulate(3, ip), float), np.asarray(es.tabulate(3, fp), float), 1e-12, c)


def gbinom(x, k):
    r = 1.0
    for i in range(k):
        r *= (x - i) / (i + 1)
    return r


def jac(a, b, n, x):
    """explicit formula"""
    x = np.asarray(x, float)
    if n < 0:
        return 0 * x
    return sum(gbinom(n + a, n - s) * gbinom(n + b, s) * ((x - 1) / 2) ** s * ((x + 1) / 2) ** (n - s) for s in range(n + 1))


def run_jacobi(job, m):
    from FIAT import jacobi, orthopoly
    a, b = job["ab"]
    rng = m.rng()
    x = np.concatenate([[-1.0, 1.0, 0.0], rng.uniform(-1, 1, size=9)])
    N = job["N"]
    xs = x.reshape(-1, 1)
    batch = jacobi.eval_jacobi_batch(a, b, N, xs.copy())
    dbatch = jacobi.eval_jacobi_deriv_batch(a, b, N, xs.copy())
    OP = orthopoly.jacobi(N, a, b, x.copy())
    OD = orthopoly.jacobiD(N, a, b, x.copy())
    for n in range(N + 1):
        v = jac(a, b, n, x)
        dv = (n + a + b + 1) / 2.0 * jac(a + 1, b + 1, n - 1, x)
        s, ds = float(np.abs(v).max()) + 1, float(np.abs(dv).max()) + 1
        m.close("jacobi-value", np.array([jacobi.eval_jacobi(a, b, n, t) for t in x]), v, 1e-9, n, scale=s)
        m.close("jacobi-value", batch[n], v, 1e-9, ("batch", n), scale=s)
        m.close("jacobi-value", OP[:, n], v, 1e-9, ("orthopoly", n), scale=s)
        m.close("jacobi-derivative", np.array([jacobi.eval_jacobi_deriv(a, b, n, t) for t in x]), dv, 1e-9, n, scale=ds)
        m.close("jacobi-derivative", dbatch[n], dv, 1e-9, ("batch", n), scale=ds)
        m.close("jacobi-derivative", OD[:, n], dv, 1e-9, ("orthopoly", n), scale=ds)
        if n in (0, 1, N):
            m.close("jacobi-value", jacobi.eval_jacobi_batch(a, b, n, xs.copy()), batch[:n + 1], 1e-12, ("batch of", n), scale=s)
    if a + b != -1:
        h = [2 ** (a + b + 1) * math.gamma(n + a + 1) * math.gamma(n + b + 1) / ((2 * n + a + b + 1) * math.factorial(n) * math.gamma(n + a + b + 1)) for n in range(N + 1)]
        nf = 1 / np.sqrt(h)
        m.close("jacobi-value", orthopoly.jacobi(N, a, b, x, 2), OP * nf, 1e-9, "normalised", scale=float(np.abs(OP * nf).max()))
        m.close("jacobi-derivative", orthopoly.jacobiD(N, a, b, x, 2), OD * nf, 1e-9, "normalised", scale=float(np.abs(OD * nf).max()))
    # recursion coefficients generate the monic polynomials
    mu = 2 ** (a + b + 1) * math.gamma(a + 1) * math.gamma(b + 1) / math.gamma(a + b + 2)
    for n in range(1, N + 1):
        al, be = orthopoly.rec_jacobi(n, a, b)
        m.check("recurrence", np.shape(al) == (n,) and np.shape(be) == (n,), ("shape", n), lambda: "%s %s" % (np.shape(al), np.shape(be)))
        lead = [gbinom(2 * k + a + b, k) / 2.0 ** k for k in range(n + 1)]
        P = orthopoly.polyval(al, be, x)
        W = np.array([jac(a, b, k, x) / lead[k] for k in range(n + 1)]).T
        m.close("recurrence", P, W, 1e-9, n, scale=float(np.abs(W).max()))
        m.close("recurrence", be[0], mu, 1e-12, ("mu", n))
        al0, be0 = al.copy(), be.copy()
        z, w = orthopoly.gauss(al, be)
        T = np.array([jac(a, b, k, z) for k in range(2 * n)])
        want = np.zeros(2 * n)
        want[0] = mu
        m.close("gauss", T @ w, want, 1e-9, n, scale=max(1.0, mu, float(np.abs(T).max())))
        if n >= 3:
            z, w = orthopoly.lobatto(al, be, -1.0, 1.0)
            T = np.array([jac(a, b, k, z) for k in range(2 * n - 2)])
            m.close("gauss", T @ w, want[:2 * n - 2], 1e-8, ("lobatto", n), scale=max(1.0, mu, float(np.abs(T).max())))
            m.close("gauss", [z[0], z[-1]], [-1, 1], 1e-9, ("lobatto ends", n))
            m.check("arguments", np.array_equal(al, al0) and np.array_equal(be, be0), n, "lobatto changed its arguments")
        # the same on [0, 1]
        c, e = orthopoly.rec_jacobi01(n, a, b)
        y = (x + 1) / 2
        P = orthopoly.polyval(c, e, y)
        W01 = W / 2.0 ** np.arange(n + 1)
        m.close("recurrence", P, W01, 1e-9, ("01", n), scale=float(np.abs(W01).max()))
        m.close("recurrence", e[0], mu / 2 ** (a + b + 1), 1e-12, ("mu01", n))


def run_log(job, m):
    """orthogonality with respect to x^a log(1/x) on [0, 1]: moments 1/(a+k+1)^2"""
    from FIAT import orthopoly
    import mpmath as mp
    a = job["log"]
    mp.mp.dps = 50
    mom = orthopoly.mm_log(6, a)
    for n in range(6):
        # shifted Legendre, monic
        cs = [mp.mpf((-1) ** (n + k)) * mp.binomial(n, k) * mp.binomial(n + k, k) / mp.binomial(2 * n, n) for k in range(n + 1)]
        want = sum(c / mp.mpf(a + k + 1) ** 2 for k, c in enumerate(cs))
        m.close("recurrence", mom[n], float(want), 1e-9, ("mm_log", n), scale=abs(float(want)) + 1e-12)
    for N in range(1, 6):
        al, be = orthopoly.rec_jaclog(N, a)
        P = [[mp.mpf(1)]]
        prev = [mp.mpf(0)]
        for k in range(N):
            cur = P[-1]
            nxt = [mp.mpf(0)] + cur
            for i, cc in enumerate(cur):
                nxt[i] -= mp.mpf(float(al[k])) * cc
            for i, cc in enumerate(prev):
                nxt[i] -= mp.mpf(float(be[k])) * cc
            prev = cur
            P.append(nxt)
        dot = lambda p, q: sum(x * y / mp.mpf(a + i + j + 1) ** 2 for i, x in enumerate(p) for j, y in enumerate(q))
        for k in range(1, N + 1):
            for j in range(k):
                v = dot(P[k], P[j]) / mp.sqrt(dot(P[k], P[k]) * dot(P[j], P[j]))
                m.check("recurrence", abs(v) < 1e-6, ("jaclog", N, k, j), lambda: "monic polynomials %d and %d have cosine %s" % (k, j, mp.nstr(v, 5)))
        m.close("recurrence", be[0], 1.0 / (a + 1) ** 2, 1e-12, ("jaclog mu", N))


def run_pset(job, m):
    from FIAT import polynomial_set as ps, quadrature
    c, k, shape = job["pset"]
    cell = geom.make_cell(c)
    d = geom.sdim(c)
    rng = m.rng()
    if shape in ("sym", "sym3"):
        sz = 3 if shape == "sym3" else d
        S = ps.ONSymTensorPolynomialSet(cell, k, sz) if shape == "sym3" else ps.ONSymTensorPolynomialSet(cell, k)
        vs, ncomp = (sz, sz), sz * (sz + 1) // 2
    else:
        S = ps.ONPolynomialSet(cell, k, tuple(shape)) if shape else ps.ONPolynomialSet(cell, k)
        vs, ncomp = tuple(shape), (int(np.prod(shape)) if shape else 1)
    n = ncomp * poly.dim_P(d, k)
    m.check("polynomial-set", S.get_num_members() == n and tuple(S.get_shape()) == vs and S.get_degree() == k and S.get_embedded_degree() == k, "metadata",
            lambda: "%s members, shape %s" % (S.get_num_members(), S.get_shape()))
    q, w = geom.cell_rule(c, 2 * k + 1)
    ql = [tuple(float(z) for z in p) for p in q]
    r = 2 if k else 1
    t = S.tabulate(ql, r)
    m.check("polynomial-set", set(t) == set(poly.mis_upto(d, r)), "keys", "")
    v = np.asarray(t[(0,) * d], float)
    if not m.check("polynomial-set", v.shape == (n,) + vs + (len(q),), "shape", lambda: str(v.shape)):
        return
    F = v.reshape(n, -1, len(q))
    G = np.einsum("icq,jcq,q->ij", F, F, w)
    s = np.sqrt(np.diag(G))
    m.close("polynomial-set", G / np.outer(s, s), np.eye(n), 1e-9, "orthogonal")
    if c.startswith("D") and shape not in ("sym", "sym3"):
        m.close("polynomial-set", np.diag(G), np.ones(n), 1e-9, "orthonormal")
    if shape in ("sym", "sym3"):
        m.close("polynomial-set", v, np.swapaxes(v, 1, 2), 1e-13, "symmetric")
    lo, hi = geom.bbox(c)
    B = poly.Basis(lo, hi, k)
    co = B.fit(v, q)
    for a in t:
        wd = co @ B.eval(q, a)
        m.close("polynomial-set", np.asarray(t[a], float), wd, 1e-8, a, scale=max(1.0, float(np.abs(wd).max())))
    m.close("polynomial-set", np.asarray(S.tabulate_new(ql), float), v, 1e-11, "tabulate_new")
    # a permuted selection is the same functions
    items = [int(z) for z in rng.permutation(n)[:max(1, n // 2)]]
    before = np.array(S.get_coeffs(), copy=True)
    sub = S.take(items)
    m.close("polynomial-set", np.asarray(sub.tabulate(ql)[(0,) * d], float), v[items], 1e-12, "take")
    m.check("polynomial-set", np.array_equal(before, S.get_coeffs()), "take leaves the set", "coefficients changed")
    # normalised union: span of both, orthonormal coefficients
    i1 = sorted(set(items[:max(1, len(items) // 2)]))
    U = ps.polynomial_set_union_normalized(S.take(i1), S.take(items))
    u = np.asarray(U.tabulate(ql)[(0,) * d], float).reshape(U.get_num_members(), -1)
    vv = v[sorted(set(items))].reshape(len(set(items)), -1)
    m.check("polynomial-set", U.get_num_members() == len(set(items)) and poly.rank(np.vstack([u, vv])) == len(set(items)), "union",
            lambda: "union of %d distinct members has %d" % (len(set(items)), U.get_num_members()))
    if c.startswith("D") and not shape:
        Q = quadrature.make_quadrature(cell, k + 2)
        cf = rng.normal(size=n)
        f = lambda x: float(cf @ np.asarray(S.tabulate([tuple(x)])[(0,) * d], float)[:, 0])
        m.close("projection", np.asarray(ps.project(f, S, Q), float).ravel(), cf, 1e-9, "member")
        g = lambda x: float(np.exp(0.3 * sum(x)))
        got = np.asarray(ps.project(g, S, quadrature.make_quadrature(cell, k + 8)), float).ravel()
        qq, ww = geom.cell_rule(c, 2 * k + 16)
        bv = np.asarray(S.tabulate([tuple(float(z) for z in p) for p in qq])[(0,) * d], float)
        m.close("projection", got, bv @ (ww * np.exp(0.3 * qq.sum(axis=1))), 1e-7, "smooth")
