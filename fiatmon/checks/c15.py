"""C15: every degree-of-freedom object computes its documented quantity."""
import itertools

import numpy as np

from fiatmon import catalog as C
from fiatmon import duals, geom, poly
from fiatmon.checks.c01 import OSPECS, VSPECS

RULE = ("one case = a functional kind on a cell, facet and point or rule, applied through its published data to a random polynomial or "
        "smooth function whose derivatives the oracle knows, against the quantity the kind names, computed from the vertex coordinates; or "
        "one degree of freedom's representation in the expansion basis against its published action on every expansion function")
REQUIRED = {"oracle:quantity": 1800, "oracle:riesz": 1500, "oracle:dual-riesz": 250, "oracle:call": 200, "oracle:declared": 1500, "kinds": 1000}
ASSUMPTIONS = ["integrals over a facet are taken in the measure of the given facet rule times the documented scaling of normal and tangent",
               "the face-tangent moment is judged as the moment of the tangential traces (v x n).(p x n)",
               "normals, where the cell is not a UFC cell, are the cell's own (judged in C05)"]

CELLS = ["I", "T", "Tet"]


class Fn(object):
    """random polynomial (degree deg) or smooth field of given shape, with exact derivatives"""

    def __init__(self, sd, shape, rng, deg=None, lo=None, hi=None):
        self.sd, self.shape = sd, shape
        self.comps = list(itertools.product(*[range(k) for k in shape]))
        self.deg = deg
        if deg is not None:
            self.B = poly.Basis(lo if lo is not None else [-1] * sd, hi if hi is not None else [1] * sd, deg)
            self.c = {c: rng.uniform(-1, 1, size=self.B.n) for c in self.comps}
        else:
            self.c = {c: [(rng.uniform(-1, 1), rng.uniform(-1.5, 1.5, size=sd), rng.uniform(0, 6)) for _ in range(3)] for c in self.comps}

    def d(self, pts, comp=(), alpha=None):
        pts = np.asarray(pts, float).reshape(-1, self.sd)
        alpha = tuple(alpha) if alpha is not None else (0,) * self.sd
        if self.deg is not None:
            return self.c[comp] @ self.B.eval(pts, alpha)
        out = np.zeros(len(pts))
        for a, k, ph in self.c[comp]:
            out += a * np.prod([k[i] ** alpha[i] for i in range(self.sd)]) * np.sin(pts @ k + ph + sum(alpha) * np.pi / 2)
        return out

    def at(self, pts, alpha=None):
        """(*shape, npts)"""
        pts = np.asarray(pts, float).reshape(-1, self.sd)
        out = np.zeros(self.shape + (len(pts),))
        for c in self.comps:
            out[c] = self.d(pts, c, alpha)
        return out

    def grad(self, pts, comp=()):
        return np.array([self.d(pts, comp, e) for e in np.eye(self.sd, dtype=int)])

    def hess(self, pts, comp=()):
        e = np.eye(self.sd, dtype=int)
        return np.array([[self.d(pts, comp, e[i] + e[j]) for j in range(self.sd)] for i in range(self.sd)])


def apply(ell, fn):
    """the published action"""
    tot, mag = 0.0, 0.0
    for pt, w, a, c in duals.terms(ell):
        v = float(fn.d([pt], tuple(c), a)[0])
        tot += w * v
        mag += abs(w * v)
    return tot, mag


def own_normal(c, cell, f):
    """the documented normal of facet f"""
    base = c if isinstance(c, str) else c[1]
    V = geom.ref_vertices(c)
    vid = cell.get_topology()[geom.sdim(c) - 1][f]
    E = V[list(vid)]
    if base == "T":
        t = E[1] - E[0]
        return np.array([t[1], -t[0]]) / np.linalg.norm(t)
    if base == "Tet":
        x = np.cross(E[1] - E[0], E[2] - E[0])
        return -2.0 * x / np.linalg.norm(x)
    if base in ("I", "DI"):
        other = V[[1, 0][vid[0]]]
        n = E[0] - other
        return n / np.linalg.norm(n)
    return np.asarray(cell.compute_normal(f), float)


def measure(E):
    E = np.asarray(E, float)
    if len(E) == 1:
        return 1.0
    J = (E[1:] - E[0]).T
    return np.sqrt(np.linalg.det(J.T @ J)) / {1: 1.0, 2: 2.0, 3: 6.0}[J.shape[1]]


def jobs(tier, seed):
    out = []
    reps = 3 if tier == "quick" else 25
    for b in CELLS:
        out.append({"key": "kinds:%s" % b, "cell": b, "rep": 0, "cost": 100})
        for r in range(reps if b != "Tet" or tier == "thorough" else 1):
            out.append({"key": "kinds:%s*%d" % (b, r), "cell": b, "rnd": r, "cost": 100 if b == "Tet" else 5})
    for b in ("DT", "IT", "DI", "DTet", "ITet"):
        out.append({"key": "kinds:%s" % b, "cell": b, "points_only": 1})
    skip = ("Mix", "Enr", "TP", "Flat", "Hdiv", "Hcurl", "NEnr", "Res", "Disc", "Bern", "S", "DPC", "FBub", "Bub", "DRT")
    for s in C.simple_specs(tier):
        if s[0] in skip or not geom.is_simplex(s[1]) or (s[0] in ("DPC",)):
            continue
        if tier == "quick" and isinstance(s[2] if len(s) > 2 else 0, int) and len(s) > 2 and s[2] > {1: 8, 2: 5, 3: 3}[geom.sdim(s[1])]:
            continue
        out.append({"key": "dual:%s" % C.name(s), "dual": s, "cost": geom.sdim(s[1]) ** 3})
    for s in OSPECS:
        out.append({"key": "dual:%s" % C.name(list(s)), "dual": list(s)})
    quick = [("RT", "T", 2, "integral"), ("N1", "T", 2, "point"), ("Her", "T"), ("Reg", "T", 1), ("Mor", "T"), ("N1", "Tet", 1, "integral"), ("MTW", "T", 3), ("AWnc", "T", 2)]
    for s in (quick if tier == "quick" else [v for v in VSPECS if v[0] not in skip]):
        out.append({"key": "dual-rnd:%s" % C.name(list(s)), "dual": list(s), "rnd": 1})
    for s in C.tp_specs(tier):
        out.append({"key": "product:%s" % C.name(s), "product": s})
    for b in ("I", "T"):
        out.append({"key": "siblings:kinds:" + b, "siblings": b, "sizes": [], "cell": b, "rnd": 0, "cost": 20})
    for s in [("RT", "T", 2, "integral"), ("N1", "Tet", 1, "point"), ("Her", "T"), ("Mor", "T"), ("BDM", "T", 1, "point"), ("Reg", "T", 0), ("CR", "T", 1), ("DT", "T", 2)]:
        out.append({"key": "siblings:dual:%s" % C.name(list(s)), "siblings": s[1], "sizes": [], "dual": list(s), "rnd": 1, "cost": 5})
    return out


def run(job, m):
    if "dual" in job:
        return run_dual(job, m)
    if "product" in job:
        return run_product(job, m)
    rng = m.rng()
    b = job["cell"]
    c = geom.random_simplex(b, rng) if "rnd" in job else b
    Kinds(m, c, rng, bool(job.get("points_only"))).run()


class Kinds(object):
    def __init__(self, m, c, rng, points_only):
        from FIAT import functional, quadrature
        self.F, self.Qm = functional, quadrature
        self.m, self.c, self.rng = m, c, rng
        self.cell = geom.make_cell(c)
        self.sd = geom.sdim(c)
        self.top = self.cell.get_topology()
        self.V = geom.ref_vertices(c)
        self.points_only = points_only
        self.lo, self.hi = geom.bbox(c)

    # -- judging -----------------------------------------------------------
    def fns(self, shape, deg):
        out = [Fn(self.sd, shape, self.rng, deg, self.lo, self.hi)]
        return out

    def judge(self, ell, shape, want, what, deg=None, order=0):
        """want(fn) is the documented quantity; deg: exactness of the rule (None: any smooth function)"""
        m = self.m
        m.count("kinds")
        m.count("kind:" + type(ell).__name__)
        m.check("declared", tuple(ell.target_shape) == shape, (what, "shape"), lambda: "target shape %s" % (ell.target_shape,))
        m.check("declared", ell.max_deriv_order == order, (what, "order"), lambda: "max_deriv_order %s, expected %d" % (ell.max_deriv_order, order))
        m.check("declared", ell.get_reference_element() is self.cell and isinstance(ell.get_type_tag(), str) and isinstance(ell.tostr(), str),
                (what, "accessors"))
        tests = [Fn(self.sd, shape, self.rng, deg if deg is not None else 3, self.lo, self.hi)]
        if deg is None:
            tests.append(Fn(self.sd, shape, self.rng))
        for k, fn in enumerate(tests):
            got, mag = apply(ell, fn)
            w = float(want(fn))
            m.close("quantity", got, w, 1e-9, (what, "polynomial" if k == 0 else "smooth"), scale=max(mag, abs(w), 1e-3), nontrivial=True)
        self.riesz(ell, shape, what)

    def riesz(self, ell, shape, what):
        from FIAT import polynomial_set
        deg = int(self.rng.randint(1, 4 if self.sd < 3 else 3))
        U = polynomial_set.ONPolynomialSet(self.cell, deg, shape) if shape else polynomial_set.ONPolynomialSet(self.cell, deg)
        R = np.asarray(ell.to_riesz(U), float)
        E = expected_riesz(ell, U, self.c, shape)
        self.m.close("riesz", R, E, 1e-9, (what, deg), scale=max(1.0, np.abs(E).max()))
        # contraction with coefficients gives the number the published data give
        a = self.rng.uniform(-1, 1, size=U.get_num_members())
        co = np.tensordot(a, np.asarray(U.get_coeffs(), float), 1)
        got = float(np.sum(R * co))
        mod = model(U, self.c)
        tot = sum(w * float((a @ mod.coef.reshape(len(a), -1, mod.basis.n)[:, flat(shape, cc)] @ mod.basis.eval([pt], al))[0])
                  for pt, w, al, cc in duals.terms(ell))
        self.m.close("riesz", got, tot, 1e-8, (what, "action"), scale=max(1.0, abs(tot), np.abs(E).max()))

    def pt(self, d=None, en=None):
        """a random point of an entity"""
        if d is None:
            f = self.V
        else:
            f = self.V[list(self.top[d][en])]
        lam = self.rng.exponential(size=len(f))
        lam /= lam.sum()
        return tuple(float(z) for z in lam @ f)

    def facet_rule(self, deg):
        """a rule on the reference facet"""
        from FIAT.reference_element import ufc_simplex
        p, w = poly.unit_simplex_rule(self.sd - 1, (deg + 3) // 2 + 1)
        cell = self.cell.construct_subelement(self.sd - 1)
        return self.Qm.QuadratureRule(cell, [tuple(float(z) for z in x) for x in p], w), np.asarray(p, float), np.asarray(w, float)

    def cell_rule(self, deg):
        p, w = poly.simplex_rule(self.V, deg)
        return self.Qm.QuadratureRule(self.cell, [tuple(float(z) for z in x) for x in p], w), np.asarray(p, float), np.asarray(w, float)

    def fmap(self, f, p):
        E = self.V[list(self.top[self.sd - 1][f])]
        return E[0] + p @ (E[1:] - E[0])

    def run(self):
        F, sd, cell, rng, J = self.F, self.sd, self.cell, self.rng, self.judge
        # point kinds
        for rep in range(3):
            x = self.pt() if rep else tuple(float(z) for z in self.V[rep])
            J(F.PointEvaluation(cell, x), (), lambda f: f.d([x])[0], ("PointEvaluation", rep))
            for comp in range(sd):
                J(F.ComponentPointEvaluation(cell, comp, (sd,), x), (sd,), lambda f: f.d([x], (comp,))[0], ("ComponentPointEvaluation", rep, comp))
            for o in (1, 2, 3):
                for al in poly.mis(sd, o):
                    J(F.PointDerivative(cell, x, al), (), lambda f: f.d([x], (), al)[0], ("PointDerivative", rep, al), order=o)
            v, w = rng.uniform(-1, 1, size=sd), rng.uniform(-1, 1, size=sd)
            if sd > 1:
                self.inner(v, w, x, rep)
            self.calls(x, rep)
        if sd == 1:
            for f in self.top[0]:
                x = tuple(float(z) for z in self.V[self.top[0][f][0]])
                n = own_normal(self.c, cell, f)
                J(F.PointNormalDerivative(cell, f, x), (), lambda g: n @ g.grad([x])[:, 0], ("PointNormalDerivative", f), order=1)
        else:
            for f in sorted(self.top[sd - 1]):
                E = self.V[list(self.top[sd - 1][f])]
                n = own_normal(self.c, cell, f)
                sn = n * measure(E)
                x = self.pt(sd - 1, f)
                J(F.PointNormalDerivative(cell, f, x), (), lambda g: n @ g.grad([x])[:, 0], ("PointNormalDerivative", f), order=1)
                J(F.PointNormalSecondDerivative(cell, f, x), (), lambda g: n @ g.hess([x])[:, :, 0] @ n, ("PointNormalSecondDerivative", f), order=2)
                J(F.PointNormalEvaluation(cell, f, x), (sd,), lambda g: n @ g.at([x])[:, 0], ("PointNormalEvaluation", f))
                J(F.PointScaledNormalEvaluation(cell, f, x), (sd,), lambda g: sn @ g.at([x])[:, 0], ("PointScaledNormalEvaluation", f))
                if sd == 3:
                    for k in (0, 1):
                        t = E[k + 1] - E[0]
                        J(F.PointFaceTangentEvaluation(cell, f, k, x), (sd,), lambda g: t @ g.at([x])[:, 0], ("PointFaceTangent", f, k))
                if not self.points_only:
                    self.facet_moments(f, E, n, sn)
            for e in sorted(self.top[1]):
                E = self.V[list(self.top[1][e])]
                x = self.pt(1, e)
                t = E[1] - E[0]
                J(F.PointEdgeTangentEvaluation(cell, e, x), (sd,), lambda g: t @ g.at([x])[:, 0], ("PointEdgeTangent", e))
                if not self.points_only:
                    p, w = poly.unit_simplex_rule(1, 5)
                    Q = self.Qm.QuadratureRule(cell.construct_subelement(1), [tuple(float(z) for z in q) for q in p], w)
                    ph = np.polynomial.polynomial.polyval(p[:, 0], rng.uniform(-1, 1, size=4))
                    X = E[0] + p * t
                    J(F.IntegralMomentOfEdgeTangentEvaluation(cell, Q, ph, e), (sd,), lambda g: np.sum(w * ph * (t @ g.at(X))), ("EdgeTangentMoment", e), deg=4)
        self.cell_moments()
        for rep in range(6):
            self.generic(rep)

    def generic(self, rep):
        """a functional given by its data: several points, components listed repeatedly, derivatives of several orders"""
        sd, rng = self.sd, self.rng
        shape = [(), (sd,), (sd, sd)][rep % 3]
        comps = list(itertools.product(*[range(k) for k in shape]))
        pick = lambda: comps[rng.randint(len(comps))]
        pts = [self.pt() for _ in range(3)]
        pd = {x: [(float(rng.uniform(-1, 1)), pick()) for _ in range(rng.randint(1, 5))] for x in pts[:rng.randint(0 if rep > 2 else 1, 4)]}
        alphas = [a for o in range(3) for a in poly.mis(sd, o)]
        dd = {}
        if rep > 1:
            for x in pts[rng.randint(3):]:
                dd[x] = [(float(rng.uniform(-1, 1)), tuple(alphas[rng.randint(len(alphas))]), pick()) for _ in range(rng.randint(1, 5))]
        order = max([sum(a) for l in dd.values() for _, a, _ in l] or [0])
        ell = self.F.Functional(self.cell, shape, {x: list(l) for x, l in pd.items()}, {x: list(l) for x, l in dd.items()}, "generic")
        self.judge(ell, shape, lambda f: sum(w * f.d([x], c)[0] for x, l in pd.items() for w, c in l)
                   + sum(w * f.d([x], c, a)[0] for x, l in dd.items() for w, a, c in l), ("generic", rep), order=order)

    def inner(self, v, w, x, rep):
        """v^T u w on symmetric fields"""
        ell = self.F.PointwiseInnerProductEvaluation(self.cell, v, w, x)
        sd = self.sd
        self.m.count("kinds")
        self.m.check("declared", tuple(ell.target_shape) == (sd, sd), "shape")
        for k in range(2):
            f = Fn(sd, (sd, sd), self.rng, 3, self.lo, self.hi) if k == 0 else Fn(sd, (sd, sd), self.rng)
            for i in range(sd):
                for j in range(i):
                    f.c[(i, j)] = f.c[(j, i)]
            got, mag = apply(ell, f)
            want = v @ f.at([x])[..., 0] @ w
            self.m.close("quantity", got, want, 1e-9, ("PointwiseInnerProduct", rep, k), scale=max(mag, 1e-3))
        self.riesz(ell, (sd, sd), ("PointwiseInnerProduct", rep))

    def facet_moments(self, f, E, n, sn):
        F, sd, cell, rng, J = self.F, self.sd, self.cell, self.rng, self.judge
        deg = 3
        Q, p, w = self.facet_rule(2 * deg + 1)
        X = self.fmap(f, p)
        B = poly.Basis([0] * (sd - 1), [1] * (sd - 1), deg)
        ph = rng.uniform(-1, 1, size=B.n) @ B.eval(p)
        # a finer rule of the oracle's own for the same integrals
        p2, w2 = poly.unit_simplex_rule(sd - 1, deg + 4)
        X2 = self.fmap(f, p2)
        co = rng.uniform(-1, 1, size=B.n)
        ph, ph2 = co @ B.eval(p), co @ B.eval(p2)
        J(F.IntegralMomentOfNormalDerivative(cell, f, Q, ph), (), lambda g: np.sum(w2 * ph2 * (n @ g.grad(X2))), ("NormalDerivativeMoment", f), deg=deg, order=1)
        J(F.IntegralMomentOfScaledNormalEvaluation(cell, Q, ph, f), (sd,), lambda g: np.sum(w2 * ph2 * (sn @ g.at(X2))), ("ScaledNormalMoment", f), deg=deg)
        J(F.IntegralMomentOfNormalEvaluation(cell, Q, ph, f), (sd,), lambda g: np.sum(w2 * ph2 * (sn @ g.at(X2))), ("NormalMoment", f), deg=deg)
        u = sn / np.linalg.norm(sn)
        J(F.IntegralMomentOfNormalNormalEvaluation(cell, Q, ph, f), (sd, sd), lambda g: np.sum(w2 * ph2 * np.einsum('i,ijp,j->p', u, g.at(X2), sn)), ("NormalNormalMoment", f), deg=deg)
        if sd == 2:
            t = E[1] - E[0]
            J(F.IntegralMomentOfTangentialEvaluation(cell, Q, ph, f), (sd,), lambda g: np.sum(w2 * ph2 * (t @ g.at(X2))), ("TangentialMoment", f), deg=deg)
            for k in range(4):
                leg = np.polynomial.legendre.legval(2 * p2[:, 0] - 1, [0] * k + [1])
                J(F.IntegralLegendreNormalMoment(cell, f, k, deg + 3), (2,), lambda g: np.sum(w2 * leg * (sn @ g.at(X2))), ("LegendreNormal", f, k), deg=deg)
                J(F.IntegralLegendreTangentialMoment(cell, f, k, deg + 3), (2,), lambda g: np.sum(w2 * leg * (t @ g.at(X2))), ("LegendreTangential", f, k), deg=deg)
                L2 = measure(E) ** 2
                un = n / np.linalg.norm(n)
                ut = t / np.linalg.norm(t)
                J(F.IntegralLegendreNormalNormalMoment(cell, f, k, deg + 3), (2, 2),
                  lambda g: L2 * np.sum(w2 * leg * np.einsum('i,ijp,j->p', un, g.at(X2), un)), ("LegendreNormalNormal", f, k), deg=deg)
                J(F.IntegralLegendreNormalTangentialMoment(cell, f, k, deg + 3), (2, 2),
                  lambda g: L2 * np.sum(w2 * leg * np.einsum('i,ijp,j->p', un, g.at(X2), ut)), ("LegendreNormalTangential", f, k), deg=deg)
                s = rng.uniform(-1, 1, size=2)
                J(F.IntegralLegendreDirectionalMoment(cell, s, f, k, deg + 3), (2,), lambda g: np.sum(w2 * leg * (s @ g.at(X2))), ("LegendreDirectional", f, k), deg=deg)
                s2 = rng.uniform(-1, 1, size=2)
                J(F.IntegralLegendreBidirectionalMoment(cell, s, s2, f, k, deg + 3), (2, 2),
                  lambda g: L2 * np.sum(w2 * leg * np.einsum('i,ijp,j->p', s, g.at(X2), s2)), ("LegendreBidirectional", f, k), deg=deg)
            # with a rule for fields of degree q: exact for the field times any moment up to that degree
            p3, w3 = poly.unit_simplex_rule(1, 16)
            X3 = self.fmap(f, p3)
            for q in (1, 2, 4, 5, 6, 7):
                for k in (q, q // 2, 0):
                    leg3 = np.polynomial.legendre.legval(2 * p3[:, 0] - 1, [0] * k + [1])
                    J(F.IntegralLegendreNormalMoment(cell, f, k, q), (2,), lambda g: np.sum(w3 * leg3 * (sn @ g.at(X3))), ("LegendreNormal", f, k, q), deg=q)
                    J(F.IntegralLegendreTangentialMoment(cell, f, k, q), (2,), lambda g: np.sum(w3 * leg3 * (t @ g.at(X3))), ("LegendreTangential", f, k, q), deg=q)
                    J(F.IntegralLegendreNormalNormalMoment(cell, f, k, q), (2, 2),
                      lambda g: L2 * np.sum(w3 * leg3 * np.einsum('i,ijp,j->p', un, g.at(X3), un)), ("LegendreNormalNormal", f, k, q), deg=q)
                    J(F.IntegralLegendreNormalTangentialMoment(cell, f, k, q), (2, 2),
                      lambda g: L2 * np.sum(w3 * leg3 * np.einsum('i,ijp,j->p', un, g.at(X3), ut)), ("LegendreNormalTangential", f, k, q), deg=q)
        if sd == 3:
            CO = rng.uniform(-1, 1, size=(3, B.n))
            P, P2 = CO @ B.eval(p), CO @ B.eval(p2)
            J(F.IntegralMomentOfFaceTangentEvaluation(cell, Q, P, f), (3,),
              lambda g: np.sum(w2 * np.sum(np.cross(g.at(X2).T, sn) * np.cross(P2.T, sn), axis=1)), ("FaceTangentMoment", f), deg=deg)
            J(F.MonkIntegralMoment(cell, Q, P.T, f), (3,), lambda g: np.sum(w2 * np.sum(g.at(X2) * P2, axis=0)), ("MonkMoment", f), deg=deg)

    def cell_moments(self):
        F, sd, cell, rng, J = self.F, self.sd, self.cell, self.rng, self.judge
        deg = 3
        Q, p, w = self.cell_rule(2 * deg + 1)
        p2, w2 = poly.simplex_rule(self.V, 2 * deg + 4)
        B = poly.Basis(self.lo, self.hi, deg)
        co = rng.uniform(-1, 1, size=B.n)
        ph, ph2 = co @ B.eval(p), co @ B.eval(p2)
        J(F.IntegralMoment(cell, Q, ph), (), lambda g: np.sum(w2 * ph2 * g.d(p2)), ("IntegralMoment",), deg=deg)
        for k in range(sd):
            J(F.IntegralMoment(cell, Q, ph, (k,), (sd,)), (sd,), lambda g: np.sum(w2 * ph2 * g.d(p2, (k,))), ("IntegralMoment", k), deg=deg)
            for l in range(sd):
                J(F.IntegralMoment(cell, Q, ph, (k, l), (sd, sd)), (sd, sd), lambda g: np.sum(w2 * ph2 * g.d(p2, (k, l))), ("IntegralMoment", k, l), deg=deg)
        J(F.IntegralMomentOfDivergence(cell, Q, ph), (sd,), lambda g: np.sum(w2 * ph2 * sum(g.d(p2, (k,), np.eye(sd, dtype=int)[k]) for k in range(sd))),
          ("DivergenceMoment",), deg=deg, order=1)
        for shp in [(sd,), (sd, sd)]:
            CO = rng.uniform(-1, 1, size=shp + (B.n,))
            P, P2 = CO @ B.eval(p), CO @ B.eval(p2)
            J(F.FrobeniusIntegralMoment(cell, Q, P), shp, lambda g: np.sum(w2 * P2 * g.at(p2)), ("FrobeniusMoment", shp), deg=deg)
        if sd == 2:
            CO = rng.uniform(-1, 1, size=(2, B.n))
            P, P2 = CO @ B.eval(p), CO @ B.eval(p2)
            e = np.eye(2, dtype=int)
            J(F.IntegralMomentOfTensorDivergence(cell, Q, P), (2, 2),
              lambda g: np.sum(w2 * sum(P2[i] * g.d(p2, (i, j), e[j]) for i in range(2) for j in range(2))), ("TensorDivergenceMoment",), deg=deg, order=1)
        if sd > 1:
            v, u = rng.uniform(-1, 1, size=sd), rng.uniform(-1, 1, size=sd)
            ell = F.TensorBidirectionalMomentInnerProductEvaluation(cell, v, u, Q, ph, 2 * deg)
            g = Fn(sd, (sd, sd), rng, deg, self.lo, self.hi)
            for i in range(sd):
                for j in range(i):
                    g.c[(i, j)] = g.c[(j, i)]
            got, mag = apply(ell, g)
            self.m.count("kinds")
            self.m.close("quantity", got, np.sum(w2 * ph2 * np.einsum('i,ijp,j->p', v, g.at(p2), u)), 1e-9, ("BidirectionalMoment",), scale=max(mag, 1e-3))
            self.riesz(ell, (sd, sd), ("BidirectionalMoment",))
        # evaluation on a callable
        M = F.IntegralMoment(cell, Q, ph)
        g = Fn(sd, (), rng, deg, self.lo, self.hi)
        self.m.close("call", float(M(lambda x: float(g.d([x])[0]))), np.sum(w2 * ph2 * g.d(p2)), 1e-9, "IntegralMoment", scale=1.0)
        for shp in [(sd,), (sd, sd)]:
            g = Fn(sd, shp, rng, deg, self.lo, self.hi)
            for comp in g.comps:
                M = F.IntegralMoment(cell, Q, ph, comp, shp)
                self.m.close("call", float(M(lambda x: g.at([x])[..., 0])), np.sum(w2 * ph2 * g.d(p2, comp)), 1e-9, ("IntegralMoment", comp), scale=1.0)

    def calls(self, x, rep):
        import sympy
        g = Fn(self.sd, (), self.rng)
        ell = self.F.PointEvaluation(self.cell, x)
        self.m.close("call", float(ell(lambda y: float(g.d([y])[0]))), g.d([x])[0], 1e-12, ("PointEvaluation", rep), scale=1.0)
        a, k, ph = g.c[()][0]
        sym = lambda X: a * sympy.sin(sum(float(k[i]) * X[i] for i in range(self.sd)) + ph)
        for o in (1, 2):
            for al in poly.mis(self.sd, o):
                want = a * np.prod([k[i] ** al[i] for i in range(self.sd)]) * np.sin(np.dot(x, k) + ph + o * np.pi / 2)
                self.m.close("call", float(self.F.PointDerivative(self.cell, x, al)(sym)), want, 1e-10, ("PointDerivative", rep, al), scale=1.0)


def flat(shape, c):
    return int(np.ravel_multi_index(c, shape)) if shape else 0


_models = {}


def model(U, c):
    """exact polynomial model of a polynomial set"""
    from fiatmon.fitting import Fit
    return Fit(c, U.get_embedded_degree() if hasattr(U, "get_embedded_degree") else U.get_degree(),
               lambda p: np.asarray(list(U.tabulate(p).values())[0], float), np.random.RandomState(0))


def expected_riesz(ell, U, c, shape):
    from fiatmon.fitting import Fit
    es, ed = U.get_expansion_set(), U.get_embedded_degree()
    fit = Fit(c, ed, lambda p: np.asarray(es.tabulate(ed, p), float), np.random.RandomState(0))
    E = np.zeros(tuple(shape) + (fit.coef.shape[0],))
    for pt, w, al, cc in duals.terms(ell):
        E[tuple(cc)] += w * (fit.coef @ fit.basis.eval([pt], al))[:, 0]
    return E


def run_dual(job, m):
    from FIAT import polynomial_set
    from fiatmon.fitting import Fit
    spec = job["dual"]
    rng = m.rng()
    if job.get("rnd"):
        spec = [spec[0], geom.random_simplex(spec[1], rng)] + spec[2:]
    e = C.build(spec)
    c = C.cell_of(spec)
    ds = e.get_dual_set()
    nodes = ds.get_nodes()
    shape = tuple(e.value_shape())
    for k, L in enumerate(nodes):
        m.check("declared", tuple(L.target_shape) == shape, ("node shape", k), lambda: "node %d of a %s-valued element acts on %s" % (k, shape, L.target_shape))
    deg = max(1, min(e.degree(), 7))
    cell = e.get_reference_element()
    U = polynomial_set.ONPolynomialSet(cell, deg, shape) if shape else polynomial_set.ONPolynomialSet(cell, deg)
    R = np.asarray(ds.to_riesz(U), float)
    es = U.get_expansion_set()
    fit = Fit(c, deg, lambda p: np.asarray(es.tabulate(deg, p), float), rng)
    assert fit.resid < 1e-8
    E = np.zeros((len(nodes),) + shape + (fit.coef.shape[0],))
    for k, L in enumerate(nodes):
        for pt, w, al, cc in duals.terms(L):
            E[(k,) + tuple(cc)] += w * (fit.coef @ fit.basis.eval([pt], al))[:, 0]
    m.close("dual-riesz", R.shape, E.shape, 0, "shape") if R.shape != E.shape else None
    sc = np.maximum(1.0, np.abs(E).reshape(len(nodes), -1).max(axis=1)).reshape((-1,) + (1,) * (E.ndim - 1))
    m.close("dual-riesz", R / sc, E / sc, 1e-8, "all nodes", scale=1.0)
    pick = rng.permutation(len(nodes))[:(4 if m.tier == 'quick' else 12)]
    for k in sorted(int(i) for i in pick):
        S = np.asarray(nodes[k].to_riesz(U), float)
        m.close("riesz", S / sc[k], E[k] / sc[k], 1e-8, ("node", k), scale=1.0)
    m.check("dual-riesz", ds.get_entity_ids() == e.entity_dofs() and ds.get_entity_closure_ids() == e.entity_closure_dofs()
            and ds.get_reference_element() is not None, "tables")


def run_product(job, m):
    """degrees of freedom of a tensor product, where published, are the products of the factors'"""
    spec = job["product"]
    rng = m.rng()
    e, A, B = C.build(spec), C.build(spec[1]), C.build(spec[2])
    sa, sb = (x.get_reference_element().get_spatial_dimension() for x in (A, B))
    va = tuple(A.value_shape())
    vb = tuple(B.value_shape())
    nodes = e.dual_basis()
    na, nb = A.dual_basis(), B.dual_basis()
    m.check("declared", len(nodes) == len(na) * len(nb), "number of nodes")
    f, g = Fn(sa, va, rng, 3), Fn(sb, vb, rng, 3)

    def act(ell, fn):
        return sum(w * fn.d([pt], tuple(cc), al)[0] for pt, w, al, cc in duals.terms(ell))

    for k, L in enumerate(nodes):
        i, j = divmod(k, len(nb))
        if L is None or not (L.get_point_dict() or L.deriv_dict):
            m.count("products without published data")
            continue
        if not va and not vb:
            m.check("declared", tuple(L.target_shape) == (), ("node shape", k),
                    lambda: "node %d of a scalar product acts on functions of shape %s" % (k, L.target_shape))
        got = 0.0
        for pt, w, al, cc in duals.terms(L):
            m.check("declared", al is None and len(pt) == sa + sb and len(cc) == len(va) + len(vb), ("term", k))
            got += w * f.d([pt[:sa]], tuple(cc) if va else ())[0] * g.d([pt[sa:]], tuple(cc) if vb else ())[0]
        want = act(na[i], f) * act(nb[j], g)
        m.close("quantity", got, want, 1e-10, ("product", k), scale=max(1.0, abs(want)))
