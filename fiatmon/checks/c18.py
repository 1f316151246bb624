"""C18: interpolation reproduces the space and commutes with derivatives."""
import numpy as np

from fiatmon import catalog as C
from fiatmon import duals, geom, poly, spaces
from fiatmon.checks.c01 import OSPECS, VSPECS, sibling_jobs

RULE = ("one case = one element x one interpolated function (every spanning function of the documented space, polynomials of the promised "
        "degree, random polynomials outside the space, random fields for the commuting diagrams); non-trivial = the function is not zero")
REQUIRED = {"oracle:reproduces-space": 250, "oracle:reproduces-promised-degree": 200, "oracle:projection": 250, "oracle:commutes": 60,
            "functions": 5000, "oracle:constrained-reproduces": 8, "oracle:callable-interpolation": 60}
ASSUMPTIONS = ["tolerance 1e-7 relative to the largest value of the interpolated functions",
               "elements whose nodes publish no data cannot be interpolated with and are outside the property",
               "commuting diagrams are judged on polynomial fields the advertised moment quadrature integrates exactly"]


def judged(s):
    if s[0] in ("Bern", "S", "Mix", "Enr", "Hdiv", "Hcurl") or not spaces.known(s):
        return False
    if s[0] in ("Disc", "Flat", "TP", "NEnr"):
        return all(judged(x) for x in s[1:])
    return True


COMMUTE = []
for _k in (1, 2, 3):
    COMMUTE += [("div", ("RT", "T", _k, "integral"), None), ("div", ("BDM", "T", _k, "integral"), None),
                ("rot", ("N1", "T", _k, "integral"), None), ("rot", ("N2", "T", _k, "integral"), None)]
for _k in (1, 2):
    COMMUTE += [("div", ("RT", "Tet", _k, "integral"), None), ("div", ("BDM", "Tet", _k, "integral"), None),
                ("curl", ("N1", "Tet", _k, "integral"), ("RT", "Tet", _k, "integral"))]
COMMUTE += [("curl", ("N2", "Tet", 2, "integral"), ("BDM", "Tet", 1, "integral")),
            ("grad", ("Lag", "T", 1), ("N1", "T", 1, "integral")), ("grad", ("Lag", "Tet", 1), ("N1", "Tet", 1, "integral")),
            ("curl", ("N1", "Tet", 3, "integral"), ("RT", "Tet", 3, "integral")), ("div", ("RT", "Tet", 3, "integral"), None),
            ("curl", ("N2", "Tet", 3, "integral"), ("BDM", "Tet", 2, "integral")), ("div", ("BDM", "Tet", 3, "integral"), None),
            ("div", ("RT", "T", 4, "integral"), None), ("div", ("BDM", "T", 4, "integral"), None), ("div", ("RT", "T", 6, "integral"), None),
            ("rot", ("N1", "T", 4, "integral"), None), ("rot", ("N2", "T", 4, "integral"), None), ("rot", ("N1", "T", 6, "integral"), None),
            ("div", ("RT", "T", 3, "integral(5)"), None), ("rot", ("N1", "T", 3, "integral(5)"), None), ("div", ("BDM", "T", 2, "integral(5)"), None),
            ("rot", ("N2", "T", 2, "integral(5)"), None), ("curl", ("N1", "Tet", 2, "integral(4)"), ("RT", "Tet", 2, "integral(4)")),
            ("div", ("RT", "T", 1, "integral(30)"), None), ("rot", ("N1", "T", 1, "integral(34)"), None), ("div", ("BDM", "T", 1, "integral(36)"), None),
            ("rot", ("N2", "T", 1, "integral(30)"), None), ("div", ("RT", "T", 2, "integral(44)"), None), ("rot", ("N1", "T", 3, "integral(32)"), None),
            ("div", ("RT", "Tet", 1, "integral(15)"), None), ("curl", ("N1", "Tet", 1, "integral(14)"), ("RT", "Tet", 1, "integral(14)")),
            ("grad", ("Lag", "I", 1), None), ("sdiv", ("AW", "T", 3), 24), ("div0", ("MTW", "T", 3), 9)]


def jobs(tier, seed):
    out = []
    for s in C.all_specs(tier) + C.high_specs(tier):
        if judged(s):
            out.append({"key": C.name(s), "spec": s, "cost": geom.sdim(C.cell_of(s)) + (s[-1] if isinstance(s[-1], int) else 1)})
    for s in OSPECS:
        out.append({"key": C.name(list(s)), "spec": list(s), "cost": 2})
    for s in VSPECS:
        for rep in range(1 if tier == "quick" else 6):
            out.append({"key": "rnd%d:%s" % (rep, C.name(list(s))), "random": list(s), "rep": rep, "cost": 3})
    for d, a, b in COMMUTE:
        for rep in range((1 if a[1] == "Tet" and a[2] > 2 or a[2] > 4 else 2) if tier == "quick" else 5):
            out.append({"key": "commute%d:%s:%s" % (rep, d, C.name(list(a))), "commute": [d, a, b], "rep": rep, "cost": 4 + (6 * a[2] if a[1] == "Tet" else 0)})
    out += sibling_jobs()
    out += C.lookalikes(('RT', 'N1', 'BDM', 'N2'))
    return out


def on_random(spec, rng, rep):
    c = geom.random_simplex(spec[1], rng, orient=1 if rep % 2 == 0 else -1)
    return [spec[0], c] + list(spec[2:])


class Field(object):
    """polynomial fields with exact derivatives: coef (n, *vs, nb) in a Legendre basis"""

    def __init__(self, basis, coef):
        self.basis, self.coef = basis, np.asarray(coef, float)
        self.n = self.coef.shape[0]

    def __call__(self, pts, alpha=None):
        return self.coef @ self.basis.eval(np.asarray(pts, float), alpha)

    def tab(self, order, pts):
        d = self.basis.d
        return {a: self(pts, a) for a in poly.mis_upto(d, order)}


def basis_for(cell, K):
    lo, hi = geom.bbox(cell)
    return poly.Basis(lo, hi, K, fdims=[f.shape[1] for f in geom.factors(cell)])


def as_field(cell, K, g, rng, m, what):
    B = basis_for(cell, K)
    pts, _ = geom.cell_rule(cell, 2 * K + 1)
    F = Field(B, B.fit(g(pts), pts))
    chk = np.array(geom.random_points(cell, 5, rng))
    v = g(chk)
    assert np.max(np.abs(F(chk) - v)) < 1e-8 * max(1.0, np.max(np.abs(v))), "oracle: cannot represent %s" % what
    return F


def dofs(nodes, field, sd):
    return duals.action(nodes, range(len(nodes)), field.tab, sd, field.n)


def degree_of(spec):
    k = spec[0]
    if k in C.COMPOSITE:
        return max(degree_of(s) for s in spec[1:])
    fam, a = k, spec[2:]
    if fam in ("P0",):
        return 0
    if fam == "KMV":
        d = geom.sdim(spec[1])
        return a[0] if a[0] == 1 else (a[0] + (2 if a[0] == 5 else 1) if d == 2 else max(a[0] + 2, 4))
    return {"Her": 3, "Mor": 2, "QArg": 5, "Bell": 5, "AW": 3, "AWnc": 2, "MTW": 3, "BDFM": 2}.get(fam) or a[0]


def vshape(e):
    return tuple(e.value_shape())


def promised(spec):
    """(degree k, kind): all polynomials of total degree k, of the family's kind, are in the space"""
    fam, a = spec[0], spec[2:]
    if fam in ("RT", "N1", "DRT"):
        return a[0] - 1, "vec"
    if fam in ("BDM", "N2"):
        return a[0], "vec"
    if fam == "BDFM":
        return 1, "vec"
    if fam == "MTW":
        return 3, "vec"
    if fam in ("Reg", "HHJ"):
        return a[0], "sym"
    if fam == "AW":
        return 3, "sym"
    if fam == "AWnc":
        return 2, "sym"
    if fam in ("Lag", "DG", "GLL", "GL", "GR", "CR", "DT", "DPC", "KMV", "Arg"):
        return a[0], "scalar"
    if fam in ("P0", "Her", "Mor", "QArg", "Bell"):
        return {"P0": 0, "Her": 3, "Mor": 2, "QArg": 5, "Bell": 5}[fam], "scalar"
    return None


KIND = {"scalar": lambda S, d: S, "vec": spaces.vec, "sym": spaces.sym}


def interpolate(m, e, spec, g, K, oracle, what, rng, nfirst=None):
    """g(points) -> fields that must be reproduced"""
    cell = C.cell_of(spec)
    sd = geom.sdim(cell)
    F = as_field(cell, K, g, rng, m, what)
    nodes = e.dual_basis()
    A = dofs(nodes, F, sd)
    if nfirst:
        A[nfirst:] = 0
    chk = geom.random_points(cell, 7, rng) + geom.random_points(cell, 3, rng, spread=0.3)
    zero = (0,) * sd
    v = np.asarray(e.tabulate(0, chk)[zero], float)
    got = np.tensordot(A.T, v, axes=1)
    want = g(np.array(chk))
    m.count("functions", F.n)
    m.close(oracle, got, want, 1e-7, what=what, scale=max(1.0, float(np.max(np.abs(want))) if want.size else 1.0))
    return A


CONSTR = {"Bell": (18, 4, "scalar"), "AW": (24, 2, "sym"), "AWnc": (15, 1, "sym"), "MTW": (9, 1, "vec")}


def run(job, m):
    rng = m.rng()
    if "commute" in job:
        return commute(job, m, rng)
    spec = on_random(job["random"], rng, job["rep"]) if "random" in job else job["spec"]
    e = C.build(spec)
    cell = C.cell_of(spec)
    sd = geom.sdim(cell)
    nodes = e.dual_basis()
    if len(duals.published(nodes)) < len(nodes):
        m.count("elements without published nodes")
        return
    K = degree_of(spec)
    interpolate(m, e, spec, lambda p: spaces.space(spec, p), K, "reproduces-space", C.name(spec), rng)
    pr = promised(spec)
    if pr is not None:
        k, kind = pr
        # an explicit monomial-like random polynomial of exactly that degree, not the spanning set above
        B = poly.Basis(*geom.bbox(cell), k)
        R = rng.normal(size=(3, B.n))
        interpolate(m, e, spec, lambda p: KIND[kind](R @ B.eval(p), sd), k, "reproduces-promised-degree", "%s P%d" % (C.name(spec), k), rng)
    if spec[0] in CONSTR:
        nf, k, kind = CONSTR[spec[0]]
        B = poly.Basis(*geom.bbox(cell), k)
        interpolate(m, e, spec, lambda p: KIND[kind](B.eval(p), sd), k, "constrained-reproduces", "first %d" % nf, rng, nfirst=nf)
        interpolate(m, e, spec, lambda p: spaces.CONSTRAINED_FIRST[spec[0]][1](cell, p), K, "constrained-reproduces", "own space of first %d" % nf,
                    rng, nfirst=nf)
    # projection: a function outside the space
    Bb = basis_for(cell, K + 2)
    vs = vshape(e)
    F = Field(Bb, rng.normal(size=(2,) + vs + (Bb.n,)))
    if len(vs) == 2:
        F.coef = F.coef + np.swapaxes(F.coef, 1, 2)
    A = dofs(nodes, F, sd)
    A1 = duals.action(nodes, range(len(nodes)), lambda o, p: {k: np.tensordot(A.T, np.asarray(v, float), axes=1)
                                                              for k, v in e.tabulate(o, p).items()}, sd, 2)
    m.close("projection", A1, A, 1e-7, what="twice", scale=max(1.0, float(np.abs(A).max())))
    m.count("functions", 2)
    # a user's loop: [l(f) for l in dual], for point values of scalar functions
    if not vs and all(getattr(L, "get_type_tag", lambda: "")() == "PointEval" for L in nodes):
        B = poly.Basis(*geom.bbox(cell), min(K, pr[0] if pr else 1))
        c = rng.normal(size=B.n)
        d = np.array([float(np.ravel(L(lambda x: float(np.ravel(c @ B.eval(np.array([x], float)))[0])))[0]) for L in nodes])
        chk = geom.random_points(cell, 5, rng)
        v = np.asarray(e.tabulate(0, chk)[(0,) * sd], float)
        want = c @ B.eval(np.array(chk))
        if pr:
            m.close("callable-interpolation", d @ v, want, 1e-8, what="call", scale=max(1.0, np.abs(want).max()))


def dmat(F, pts, kind, d):
    """derivative fields of a vector field (n, d, q)"""
    G = [F(pts, tuple(int(i == j) for j in range(d))) for i in range(d)]
    return deriv(G, kind, d)


def deriv(G, kind, d):
    if kind in ("div", "div0"):
        return sum(G[i][:, i] for i in range(d))
    if kind == "rot":
        return G[0][:, 1] - G[1][:, 0]
    if kind == "curl":
        return np.stack([G[1][:, 2] - G[2][:, 1], G[2][:, 0] - G[0][:, 2], G[0][:, 1] - G[1][:, 0]], axis=1)
    if kind == "grad":
        return np.stack(G, axis=1)
    if kind == "sdiv":
        return sum(G[i][:, i] for i in range(d))
    raise KeyError(kind)


def data_degree(spec, K, d, rep):
    """the highest degree of data the advertised rule integrates exactly against the moments' weights"""
    v = spec[-1]
    if isinstance(v, str) and v.startswith("integral("):
        return int(v[9:-1]) - K
    if isinstance(v, str) and v == "integral" and not (rep and d == 3):
        return min(4 * K - 1, 16 if d == 2 else 11)       # advertised: 5 (degree + 1)
    return K + 2


def commute(job, m, rng):
    kind, a, b = job["commute"]
    a = list(a)
    spec = a
    if job["rep"]:
        spec = on_random(a, rng, job["rep"])
    e = C.build(spec)
    cell = C.cell_of(spec)
    d = geom.sdim(cell)
    nodes = e.dual_basis()
    K = degree_of(spec)
    nfirst = None
    if kind in ("sdiv", "div0"):
        nfirst, kf = b, K
    else:
        kf = data_degree(spec, K, d, job["rep"])
    vs = vshape(e)
    lo, hi = geom.bbox(cell)
    B = poly.Basis(lo, hi, kf)
    coef = rng.normal(size=(4,) + vs + (B.n,))
    if len(vs) == 2:
        coef = coef + np.swapaxes(coef, 1, 2)
    F = Field(B, coef)
    A = dofs(nodes, F, d)
    if nfirst:
        A[nfirst:] = 0
    pts, w = geom.cell_rule(cell, 2 * kf + 2)
    lp = [tuple(float(z) for z in p) for p in pts]
    T = e.tabulate(1, lp)
    G = [np.tensordot(A.T, np.asarray(T[tuple(int(i == j) for j in range(d))], float), axes=1) for i in range(d)]
    got = deriv(G, kind, d)                       # derivative of the interpolant
    want = dmat(F, pts, kind, d)                  # derivative of the function
    if kind == "grad" and b is None:
        # one dimension: derivative of the P1 interpolant is the mean of the derivative
        mean = (want * w).sum(axis=-1, keepdims=True) / w.sum()
        want = np.broadcast_to(mean, got.shape)
    elif kind in ("div", "rot", "div0", "sdiv"):
        deg = {"div": K - 1, "rot": K - 1, "div0": 0, "sdiv": 1}[kind]
        Q = poly.orth(spaces.P(cell, deg, pts) * np.sqrt(w))
        want = ((want * np.sqrt(w)) @ Q.T) @ Q / np.sqrt(w)
    else:
        sb = [b[0], spec[1]] + list(b[2:])
        e2 = C.build(sb)
        n2 = e2.dual_basis()
        B2 = poly.Basis(lo, hi, kf)
        H = Field(B2, B2.fit(want, pts))
        A2 = dofs(n2, H, d)
        want = np.tensordot(A2.T, np.asarray(e2.tabulate(0, lp)[(0,) * d], float), axes=1)
    m.count("functions", 4)
    m.close("commutes", got, want, 1e-7, what="%s %s" % (kind, C.name(spec)), scale=max(1.0, float(np.abs(got).max())))
    # fields without derivative keep none: a gradient / curl / solenoidal field stays one
    if kind in ("div", "rot") and d == 2:
        b1 = poly.Basis(lo, hi, kf + 1)
        c = rng.normal(size=(3, b1.n))
        g = [c @ b1.eval(pts, a_) for a_ in ((1, 0), (0, 1))]
        field = np.stack(g if kind == "rot" else [g[1], -g[0]], axis=1)
        H = Field(B, B.fit(field, pts))
        A = dofs(nodes, H, d)
        G = [np.tensordot(A.T, np.asarray(T[tuple(int(i == j) for j in range(d))], float), axes=1) for i in range(d)]
        m.close("commutes", deriv(G, kind, d), np.zeros((3, len(pts))), 1e-7, what="kernel of %s" % kind, nontrivial=True,
                scale=max(1.0, float(np.abs(G[0]).max())))
