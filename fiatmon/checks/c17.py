"""C17: unsupported requests are rejected, never answered wrongly."""
import itertools
import warnings

import numpy as np

from fiatmon import catalog as C
from fiatmon import geom

RULE = ("one case = one request outside the documented domain (constructor, rule, dual set, query or option) carried out for real; the oracle wants "
        "an error; 'controls' are the nearest requests inside the domain and must be answered; non-trivial = every request")
REQUIRED = {"oracle:degree": 600, "oracle:cell": 500, "oracle:variant": 250, "oracle:rule": 200, "oracle:constituents": 60, "oracle:restriction": 60,
            "oracle:entity": 900, "oracle:query": 80, "oracle:helper": 80, "oracle:control": 150}
ASSUMPTIONS = ["points with too many coordinates, and negative derivative orders, are not judged (FIAT ignores the former and answers the latter with "
               "an empty dictionary)",
               "any exception counts as a rejection",
               "families on cells the literature does not define but FIAT answers sensibly (Crouzeix-Raviart, Raviart-Thomas, BDM on intervals; "
               "Lagrange-type families of any degree on points) are not judged"]

CELLS = {"pt": "pt", "I": "I", "T": "T", "Tet": "Tet", "Q": "Q", "H": "H", "II": ["TP", "I", "I"], "TI": ["TP", "T", "I"],
         "III": ["TP", "I", "I", "I"], "DI": "DI", "DT": "DT", "DTet": "DTet", "IT": "IT", "ITet": "ITet"}
KIND = {"pt": "pt", "I": "I", "DI": "I", "T": "T", "DT": "T", "IT": "T", "Tet": "K", "DTet": "K", "ITet": "K", "Q": "Q", "H": "H",
        "II": "II", "TI": "TI", "III": "III"}
ANY = 99
# family -> {cell kind: (lowest, highest degree)} of the documented domain; None = not judged on that kind
DOMAIN = {
    "Lag": {"I": (1, ANY), "T": (1, ANY), "K": (1, ANY), "pt": None},
    "DG": {"I": (0, ANY), "T": (0, ANY), "K": (0, ANY), "pt": None},
    "DT": {"I": (0, ANY), "T": (0, ANY), "K": (0, ANY), "pt": None},
    "GLL": {"I": (1, ANY)}, "GL": {"I": (0, ANY)}, "GR": {"I": (0, ANY)},
    "CR": {"I": None, "T": (1, 1), "K": (1, 1)},
    "DPC": {"I": (0, ANY), "Q": (0, ANY), "H": (0, ANY), "II": (0, ANY), "III": (0, ANY), "pt": None},
    "S": {"I": (1, ANY), "Q": (1, ANY), "H": (1, ANY), "II": (1, ANY), "III": (1, ANY)},
    "Bern": {"I": (1, ANY), "T": (1, ANY), "K": (1, ANY), "pt": None},
    "KMV": {"T": (1, 5), "K": (1, 3)},
    "Her": {"I": (3, 3), "T": (3, 3), "K": (3, 3)},
    "Mor": {"T": None}, "QArg": {"T": None}, "Bell": {"T": None},
    "Arg": {"T": (5, ANY)},
    "RT": {"I": None, "T": (1, ANY), "K": (1, ANY)}, "DRT": {"I": None, "T": (1, ANY), "K": (1, ANY)},
    "N1": {"T": (1, ANY), "K": (1, ANY)}, "BDM": {"I": None, "T": (1, ANY), "K": (1, ANY)}, "N2": {"T": (1, ANY), "K": (1, ANY)},
    "BDFM": {"T": (2, 2)}, "Reg": {"T": (0, ANY), "K": (0, ANY)}, "HHJ": {"T": (0, ANY)},
    "AW": {"T": (3, 3)}, "AWnc": {"T": (2, 2)}, "MTW": {"T": (3, 3)},
    "Bub": {"I": (2, ANY), "T": (3, ANY), "K": (4, ANY), "pt": None}, "FBub": {"I": None, "T": (2, ANY), "K": (3, ANY), "pt": None},
    "HDT": {"T": (0, ANY), "K": (0, ANY), "Q": (0, ANY), "II": (0, ANY), "TI": (0, ANY), "III": (0, ANY)},
    "P0": {"I": None, "T": None, "K": None, "pt": None},
}
NODEG = ("Mor", "QArg", "Bell", "P0")
VARIANTS = ["Integral", "INTEGRAL", "Point", "integral()", "integral(a)", "integral(-3)", "integral(3.5)", "xintegral(9)", "integral(9)x", "integral 9",
            "points", "point(9)", "pointwise", "", " ", "equispaced", "integral(9", "integral9)", "(9)", "moment", "integral[9]", " integral", "point "]


def jobs(tier, seed):
    out = [{"key": "family %s" % f, "do": "family", "fam": f, "cost": 5} for f in sorted(DOMAIN)]
    for f in ("RT", "N1", "BDM", "N2"):
        for c in ("T", "Tet"):
            out.append({"key": "variant %s %s" % (f, c), "do": "variant", "fam": f, "cell": c, "cost": 8})
    for d in ("rules", "constituents", "hdivcurl", "restriction", "trace", "helpers", "queries", "functionals", "quadrature element"):
        out.append({"key": d, "do": d, "cost": 4})
    specs = [s for s in C.all_specs("quick")]
    pick = {}
    for s in specs:
        pick.setdefault((s[0], geom.cellname(C.cell_of(s))), s)
    pick = sorted(C.name(s) for s in pick.values()) if tier == "quick" else sorted(C.name(s) for s in specs)
    by = {C.name(s): s for s in specs}
    n = 8
    for i in range(n):
        out.append({"key": "entities %d" % i, "do": "entities", "specs": [by[k] for k in pick[i::n]], "cost": 20})
    return out


def run(job, m):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["do_" + job["do"].replace(" ", "_")](job, m)


def answers(m, fn, what):
    """a request inside the domain must be answered"""
    m.observe("control", what)
    try:
        fn()
    except Exception as x:
        m.fail("control", what, "a supported request was rejected: %s: %s" % (type(x).__name__, x))


def construct(fam, cell, deg):
    a = [] if deg is None else [deg]
    if fam == "Her" and deg is not None:
        return geom._fiat().CubicHermite(geom.make_cell(cell), deg)
    if fam in ("RT", "N1", "BDM", "N2"):
        a = a + ["integral"]
    return C.simple(fam, cell, a)


def use(fam, cell, deg):
    """construct and use: an object that answers nothing is not an answer"""
    return construct(fam, cell, deg)


def do_family(job, m):
    fam = job["fam"]
    dom = DOMAIN[fam]
    rng = m.rng()
    for ck, cell in CELLS.items():
        kind = KIND[ck]
        if kind in dom and dom[kind] is None:
            continue
        if kind not in dom:
            ok = [v[0] for v in dom.values() if v]
            degs = [None] if fam in NODEG else sorted(set([0, 1, 2] + ok + [k + 1 for k in ok]))
            if kind in ("T", "K", "H"):
                degs = [k for k in degs if k is None or k <= 5]
            for k in degs:
                m.raises("cell", lambda: use(fam, cell, k), (fam, ck, k))
            continue
        lo, hi = dom[kind]
        bad = list(range(lo - 4, lo)) + ([] if hi == ANY else list(range(hi + 1, hi + 6)) + [hi + 10, hi + 100])
        cells = [("", cell)]
        if ck in ("I", "T", "Tet"):
            cells += [(" random", geom.random_simplex(ck, rng)), (" flipped", geom.random_simplex(ck, rng, orient=-1))]
        for nm, c in cells:
            for k in bad:
                m.raises("degree", lambda: use(fam, c, k), (fam, ck + nm, k))
        if ck in ("I", "T", "Tet", "Q", "H"):
            ok = sorted(set([lo, hi] if hi != ANY else [lo, lo + 1])) if kind != "K" and kind != "H" else [lo]
            for k in ok:
                answers(m, lambda: use(fam, cell, k), (fam, ck, k))


def do_variant(job, m):
    F = geom._fiat()
    fam, c = job["fam"], job["cell"]
    for k in (1, 2):
        for v in VARIANTS:
            m.raises("variant", lambda: C.simple(fam, c, [k, v]), (fam, c, k, v))
        # quadrature degree of the moments below the minimum documented for the family
        lowest = k if fam in ("RT", "N1") else k + 1
        for q in range(0, lowest):
            m.raises("variant", lambda: C.simple(fam, c, [k, "integral(%d)" % q]), (fam, c, k, q))
        answers(m, lambda: C.simple(fam, c, [k, "integral(%d)" % (lowest + 1)]), (fam, c, k, lowest + 1))
    for k in ((3, 4) if c == "T" else (3,)):
        for q in range(0, k + (0 if fam in ("RT", "N1") else 1)):
            m.raises("variant", lambda: C.simple(fam, c, [k, "integral(%d)" % q]), (fam, c, k, q))
        m.raises("variant", lambda: C.simple(fam, c, [k, "spectral"]), (fam, c, k))
    for k in (0, -1, -2):
        for v in ("point", "integral", "integral(5)", None):
            m.raises("degree", lambda: C.simple(fam, c, [k, v]), (fam, c, k, v))


def do_rules(job, m):
    F = geom._fiat()
    from FIAT import quadrature as q, quadrature_schemes as qs
    make = geom.make_cell
    rng = m.rng()
    cq = F.create_quadrature
    cells = dict(CELLS)
    cells["T random"] = geom.random_simplex("T", rng)
    cells["Tet random"] = geom.random_simplex("Tet", rng)
    for ck, c in cells.items():
        cell = make(c)
        for s in ("default", "canonical", "KMV"):
            for d in (-1, -2, -7):
                m.raises("rule", lambda: cq(cell, d, s), ("negative degree", ck, d, s))
        for s in ("Default", "gauss", "", "kmv", "canonical ", "GLL", "vertex", "collapsed"):
            for d in (0, 1, 2, 9):
                m.raises("rule", lambda: cq(cell, d, s), ("scheme", ck, d, s))
        for n in (0, -1, -5):
            m.raises("rule", lambda: F.make_quadrature(cell, n), ("points", ck, n))
        if ck not in ("T", "IT", "DT", "Tet", "DTet", "ITet", "T random", "Tet random"):
            for d in (1, 2, 3):
                m.raises("rule", lambda: cq(cell, d, "KMV"), ("KMV on", ck, d))
        answers(m, lambda: cq(cell, 3), ("rule", ck))
    for ck, hi in (("T", 5), ("Tet", 3), ("T random", 5), ("Tet random", 3)):
        for d in [0] + list(range(hi + 1, hi + 8)) + [40]:
            m.raises("rule", lambda: cq(make(cells[ck]), d, "KMV"), ("KMV degree", ck, d))
        answers(m, lambda: cq(make(cells[ck]), hi, "KMV"), ("KMV degree", ck, hi))
    for ck in ("II", "TI", "III", "Q", "H"):
        n = {"II": 2, "TI": 2, "III": 3, "Q": 2, "H": 3}[ck]
        cell = make(CELLS[ck])
        for k in (1, 2, 3, 4):
            if k != n:
                m.raises("rule", lambda: cq(cell, (2,) * k), ("number of degrees", ck, k))
                m.raises("rule", lambda: cq(cell, [3] * k), ("number of degrees", ck, k, "list"))
        for i in range(n):
            d = [2] * n
            d[i] = -1
            m.raises("rule", lambda: cq(cell, tuple(d)), ("one negative degree", ck, i))
    for ck in ("T", "Tet", "I", "Q"):
        sd = geom.sdim(ck)
        for a, b in ((0, 1), (1, 0), (3, 2), (2, 3), (7, 1)):
            m.raises("rule", lambda: q.QuadratureRule(make(ck), [(0.1,) * sd] * a, [0.5] * b), ("mismatch", ck, a, b))
        answers(m, lambda: q.QuadratureRule(make(ck), [(0.1,) * sd] * 2, [0.5] * 2), ("rule", ck))
    for c in ("I", "DI", geom.random_simplex("I", rng)):
        nm = geom.cellname(c)
        for n in (1, 0, -1, -3):
            m.raises("rule", lambda: q.GaussLobattoLegendreQuadratureLineRule(make(c), n), ("GLL", nm, n))
        for n in (0, -1, -3):
            m.raises("rule", lambda: q.GaussLegendreQuadratureLineRule(make(c), n), ("GL", nm, n))
            m.raises("rule", lambda: q.RadauQuadratureLineRule(make(c), n), ("GR", nm, n))
            m.raises("rule", lambda: q.RadauQuadratureLineRule(make(c), n, right=False), ("GR left", nm, n))
            m.raises("rule", lambda: q.GaussJacobiQuadratureLineRule(make(c), n), ("GJ", nm, n))
        answers(m, lambda: q.GaussLobattoLegendreQuadratureLineRule(make(c), 2), ("GLL", nm))
        answers(m, lambda: q.GaussLegendreQuadratureLineRule(make(c), 1), ("GL", nm))
        answers(m, lambda: q.RadauQuadratureLineRule(make(c), 1), ("GR", nm))
    for n in (0, -1):
        m.raises("rule", lambda: q.CollapsedQuadratureTriangleRule(make("T"), n), ("collapsed T", n))
        m.raises("rule", lambda: q.CollapsedQuadratureTetrahedronRule(make("Tet"), n), ("collapsed Tet", n))


def tab0(e, order=0):
    """an element that refuses to be tabulated has not answered"""
    sd = e.get_reference_element().get_spatial_dimension()
    e.tabulate(order, [(0.2,) * sd])
    return e


def do_constituents(job, m):
    F = geom._fiat()
    B = C.build
    L = lambda k, c="T": ["Lag", c, k]
    RT, N1, BDM = (lambda k, c="T": ["RT", c, k, "point"]), (lambda k, c="T": ["N1", c, k, "point"]), (lambda k, c="T": ["BDM", c, k, "point"])
    Reg, HHJ, AW = (lambda k, c="T": ["Reg", c, k]), (lambda k, c="T": ["HHJ", c, k]), ["AW", "T", 3]
    mixed = ["Mix", L(1), L(1)]
    II = ["TP", L(1, "I"), L(2, "I")]
    hd, hc = ["Hdiv", ["TP", L(1, "I"), ["DG", "I", 0]]], ["Hcurl", ["TP", L(1, "I"), ["DG", "I", 0]]]
    bad = [("cells", [L(1), L(1, "Tet")]), ("cells", [L(1), L(1, "I")]), ("cells", [RT(1), RT(1, "Tet")]), ("cells", [II, ["Lag", "T", 1]]),
           ("cells", [II, ["TP", L(1), L(1, "I")]]), ("cells", [["S", "Q", 1], II]), ("cells", [["Flat", II], II]),
           ("cells", [["DPC", "Q", 1], ["DPC", "H", 1]]), ("cells", [L(1), ["Lag", "DT", 1]]), ("cells", [L(1), ["Lag", "IT", 1]]),
           ("cells", [L(2), L(1), L(1, "Tet")]),
           ("mapping", [RT(1), N1(1)]), ("mapping", [BDM(1), ["N2", "T", 1, "point"]]), ("mapping", [Reg(0), HHJ(0)]), ("mapping", [hd, hc]),
           ("mapping", [AW, Reg(1)]), ("mapping", [L(1), RT(1)]), ("mapping", [RT(1, "Tet"), N1(1, "Tet")]), ("mapping", [RT(1), RT(2), N1(1)]),
           ("mapping", [mixed, RT(1)]), ("mapping", [["HDT", "T", 0], RT(1)]),
           ("shape", [L(1), mixed]), ("shape", [mixed, L(2), L(1)]), ("shape", [mixed, ["Mix", L(1), L(1), L(1)]]),
           ("shape", [["Mix", L(1), RT(1)], L(1)]), ("shape", [L(1, "I"), ["Mix", L(1, "I"), L(1, "I")]]), ("none", [])]
    for why, parts in bad:
        m.raises("constituents", lambda: F.EnrichedElement(*[B(p) for p in parts]), ("Enr", why, [C.name(p) for p in parts]))
        if len(parts) > 1:
            m.raises("constituents", lambda: F.EnrichedElement(*[B(p) for p in parts[::-1]]), ("Enr", why, [C.name(p) for p in parts], "reversed"))
    nonnodal = [("not nodal", [L(1), ["Bern", "T", 2]]), ("not nodal", [L(1), ["Enr", L(1), ["Bub", "T", 3]]]), ("not nodal", [["Bern", "T", 3]]),
                ("not nodal", [["S", "Q", 1]]), ("not nodal", [["Enr", L(1), ["Bub", "T", 3]], ["Bub", "T", 4]]), ("not nodal", [["HDT", "T", 1]]),
                ("not nodal", [mixed, mixed]), ("cells", [L(1), L(1, "Tet")]), ("cells", [L(1), L(1, "I")]),
                ("cells", [L(1), ["Lag", "DTet", 1]]), ("mapping", [RT(1), N1(1)]),
                ("mapping", [BDM(1), N1(2)]), ("shape", [L(1), RT(1)]), ("mapping", [Reg(0), HHJ(0)]), ("expansion", [II, ["TP", L(1, "I"), ["Bub", "I", 2]]]), ("none", [])]
    for why, parts in nonnodal:
        m.raises("constituents", lambda: F.NodalEnrichedElement(*[B(p) for p in parts]), ("NEnr", why, [C.name(p) for p in parts]))
        if len(parts) > 1:
            m.raises("constituents", lambda: F.NodalEnrichedElement(*[B(p) for p in parts[::-1]]), ("NEnr", why, [C.name(p) for p in parts], "reversed"))
    for parts in ([], [L(1), L(1, "Tet")], [L(1), L(1, "I")], [II, L(1)], [RT(1), RT(1, "Tet")]):
        m.raises("constituents", lambda: F.MixedElement([B(p) for p in parts]), ("Mix", [C.name(p) for p in parts]))
    vec = [RT(1), N1(1), BDM(1), hd, hc, RT(1, "Tet")]
    for a, b in itertools.product(vec, repeat=2):
        m.raises("constituents", lambda: tab0(B(["TP", a, b])), ("TP of two vectors", C.name(a), C.name(b)))
    for a, b in ((Reg(0), Reg(0)), (Reg(0), HHJ(1)), (mixed, mixed), (mixed, ["Mix", L(1, "I"), L(1, "I")]), (Reg(0), RT(1))):
        m.raises("constituents", lambda: tab0(B(["TP", a, b])), ("TP", C.name(a), C.name(b)))
    for a in (["TP", L(1), L(1, "I")], ["TP", L(1, "I"), L(1)], L(1, "I"), L(1), L(1, "Tet"), ["TP", L(1), L(1)], ["TP", II, II],
              ["Hdiv", ["TP", RT(1), ["DG", "I", 0]]], ["TP", L(1, "Tet"), L(1, "I")]):
        m.raises("constituents", lambda: tab0(B(["Flat", a])), ("Flat", C.name(a)))
    for parts in ([L(1), ["Bub", "T", 3]], [RT(1), RT(2)], [II, II]):
        answers(m, lambda: F.EnrichedElement(*[B(p) for p in parts]), [C.name(p) for p in parts])
    answers(m, lambda: tab0(B(["TP", RT(1), L(1, "I")])), "TP vector x scalar")


def do_hdivcurl(job, m):
    F = geom._fiat()
    B = C.build
    L, D = (lambda k, c="I": ["Lag", c, k]), (lambda k, c="I": ["DG", c, k])
    zero = {"I": [L(1), ["GLL", "I", 2]], "T": [L(1, "T"), ["KMV", "T", 2]]}
    one = {"I": [D(0), ["GL", "I", 1], ["GR", "I", 1]]}
    top = {"T": [D(1, "T"), ["P0", "T"]]}
    one2 = [["RT", "T", 1, "point"], ["N1", "T", 1, "point"], ["BDM", "T", 1, "point"]]
    none = [["Reg", "T", 0], ["HHJ", "T", 0], ["CR", "T", 1]]
    bad_div, bad_curl = [], []
    for a, b in itertools.product(zero["I"], repeat=2):
        bad_div.append((a, b))
        bad_curl.append((a, b))
    for a, b in itertools.product(one["I"], repeat=2):
        bad_div.append((a, b))
        bad_curl.append((a, b))
    for a in zero["T"]:
        for b in zero["I"]:
            bad_div += [(a, b), (b, a)]
            bad_curl += [(a, b), (b, a)]
        for b in one["I"]:
            bad_div += [(a, b), (b, a)]          # a 1-form, fine for curl
    for a in top["T"]:
        for b in one["I"]:
            bad_div += [(a, b), (b, a)]
            bad_curl += [(a, b), (b, a)]
        for b in zero["I"]:
            bad_curl += [(a, b), (b, a)]         # a 2-form, fine for div
    for a in one2:
        for b in zero["I"]:
            bad_div.append((a, b))
        for b in one["I"]:
            bad_curl.append((a, b))
    for w, bad in (("Hdiv", bad_div), ("Hcurl", bad_curl)):
        for a, b in bad:
            m.raises("constituents", lambda: tab0(B([w, ["TP", a, b]])), (w, "form degree", C.name(a), C.name(b)))
        for a in none[:2]:
            for b in zero["I"] + one["I"]:
                m.raises("constituents", lambda: tab0(B([w, ["TP", a, b]])), (w, "no form degree", C.name(a), C.name(b)))
        for a in (L(1, "T"), ["RT", "T", 1, "point"], ["Flat", ["TP", L(1), D(0)]], ["S", "Q", 1], ["Mix", L(1), D(0)]):
            m.raises("constituents", lambda: B([w, a]), (w, "not a product", C.name(a)))
        answers(m, lambda: tab0(B([w, ["TP", L(1), D(0)]])), w)


def do_restriction(job, m):
    F = geom._fiat()
    B = C.build
    R = F.RestrictedElement
    els = [["Lag", "T", 4], ["Lag", "Tet", 4], ["RT", "T", 2, "point"], ["Her", "T"], ["Reg", "T", 1], ["Lag", "I", 3],
           ["Enr", ["Lag", "T", 1], ["Bub", "T", 3]]]
    for s in els:
        e = B(s)
        n = e.space_dimension()
        for d in ("ridge", "Interior", "vertices", "", "INTERIOR", "cell", "edges", "facet ", "vertex,edge", "boundary", "peak"):
            m.raises("restriction", lambda: R(e, restriction_domain=d), (C.name(s), "unknown domain", d))
        m.raises("restriction", lambda: R(e), (C.name(s), "nothing named"))
        m.raises("restriction", lambda: R(e, indices=[]), (C.name(s), "no indices"))
        m.raises("restriction", lambda: R(e, indices=()), (C.name(s), "no indices (tuple)"))
        for st in ("interior", "vertex", "facet"):
            m.raises("restriction", lambda: R(e, st), (C.name(s), "a string for indices", st))
        m.raises("restriction", lambda: R(e, indices=[0, n]), (C.name(s), "index out of range"))
        m.raises("restriction", lambda: R(e, indices=[n + 3]), (C.name(s), "index out of range"))
        if s[0] != "Enr":
            answers(m, lambda: R(e, indices=[0, n - 1]), (C.name(s), "indices"))
    for s, d in ((["Lag", "T", 2], "interior"), (["RT", "T", 2, "point"], "vertex"), (["DG", "T", 2], "facet"), (["DG", "T", 2], "vertex"),
                 (["Lag", "Tet", 3], "interior"), (["RT", "Tet", 1, "point"], "interior"), (["RT", "Tet", 2, "point"], "edge"), (["N1", "T", 1, "point"], "interior"),
                 (["N1", "T", 1, "point"], "vertex"), (["Lag", "I", 1], "interior"), (["CR", "T", 1], "vertex"), (["CR", "T", 1], "interior"), (["BDM", "T", 1, "point"], "interior"),
                 (["Reg", "Tet", 0], "vertex"), (["P0", "T"], "facet"), (["HHJ", "T", 0], "vertex")):
        m.raises("restriction", lambda: R(B(s), restriction_domain=d), ("empty", C.name(s), d))
    for s, d in ((["Lag", "I", 3], "face"),):
        m.raises("restriction", lambda: R(B(s), restriction_domain=d), ("no such entities", C.name(s), d))


def do_trace(job, m):
    F = geom._fiat()
    make = geom.make_cell
    for c, degs in (("T", [(1,), (1, 1), (0, 0, 0)]), ("Tet", [(1,), (2, 2), (1, 1, 1)]), ("Q", [(1,), (1, 1), (1, 2, 3)]),
                    (["TP", "I", "I"], [(1,), (1, 2, 3), ()]), (["TP", "T", "I"], [(1,), (1, 2, 3), ()]), (["TP", "I", "I", "I"], [(1,), (1, 2), (1, 1, 1, 1)])):
        for d in degs:
            m.raises("degree", lambda: F.HDivTrace(make(c), d), ("HDT", geom.cellname(c), d))
    for c in ("pt", "I", "DI", "H", ["V", "I", [[1.], [3.]]]):
        for d in (0, 1, 2, (1,), (1, 1)):
            m.raises("cell", lambda: F.HDivTrace(make(c), d), ("HDT", geom.cellname(c), d))
    for c, d in ((["TP", "I", "I"], (1, -1)), (["TP", "I", "I"], (-1, 1)), (["TP", "T", "I"], (-1, 0)), (["TP", "T", "I"], (0, -1))):
        m.raises("degree", lambda: F.HDivTrace(make(c), d), ("HDT", geom.cellname(c), d))
    answers(m, lambda: F.HDivTrace(make(["TP", "I", "I"]), (1, 2)), "HDT")
    # dofs of an element over which a trace is never an expansion
    for c in ("T", "Tet", "Q"):
        e = F.HDivTrace(make(c), 1)
        for nm in ("get_nodal_basis", "get_coeffs", "dmats"):
            m.raises("query", getattr(e, nm), (nm, c))
    for c in ("Q", ["TP", "I", "I"], ["TP", "T", "I"]):
        e = F.HDivTrace(make(c), 1)
        for x in (0.0, 0.3, 1.0):
            m.raises("query", lambda: e.tabulate(0, [(x,) * geom.sdim(c)]), ("cell points of a product cell", geom.cellname(c), x))


def do_helpers(job, m):
    F = geom._fiat()
    from FIAT import expansions, polynomial_set as ps, orthopoly as op, reference_element as re, barycentric_interpolation, pointwise_dual, jacobi
    make = geom.make_cell
    R = lambda fn, *w: m.raises("helper", fn, w)
    for d in (4, 5, -1, 17):
        R(lambda: re.ufc_simplex(d), "ufc_simplex", d)
        R(lambda: re.default_simplex(d), "default_simplex", d)
    for n in ("prism", "wedge", "foo", "", "Triangle", "quad", "tetra", "triangles", "interval * foo", "foo * interval", "pyramid", "hexa"):
        R(lambda: re.ufc_cell(n), "ufc_cell", n)
    for n in ("vertex", "interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron", "interval * interval", "triangle * interval"):
        answers(m, lambda: re.ufc_cell(n), n)
    for ck in ("Q", "H", "II", "TI", "III"):
        c = make(CELLS[ck])
        R(lambda: expansions.get_expansion_set(c), "expansion set", ck)
        for k in (0, 1, 3):
            R(lambda: expansions.polynomial_dimension(c, k), "dimension", ck, k)
            R(lambda: ps.ONPolynomialSet(c, k), "polynomial set", ck, k)
    for k in (1, 2, 5):
        R(lambda: expansions.polynomial_dimension(make("pt"), k), "dimension", "pt", k)
        R(lambda: ps.ONPolynomialSet(make("pt"), k), "polynomial set", "pt", k)
        R(lambda: expansions.get_expansion_set(make("pt")).tabulate(k, [()]), "point expansion", k)
    sets = {"pt": expansions.PointExpansionSet, "I": expansions.LineExpansionSet, "T": expansions.TriangleExpansionSet, "Tet": expansions.TetrahedronExpansionSet}
    for a, S in sets.items():
        for b in ("pt", "I", "T", "Tet", "Q", "H"):
            if geom.sdim(b) != geom.sdim(a):
                R(lambda: S(make(b)), "expansion set", a, "on", b)
    # Jacobi recurrences and Gauss rules
    for a, b in ((-1.0, 0), (0, -1.0), (-2, 0), (0, -1.5), (-1, -1), (-3.2, 4)):
        R(lambda: op.rec_jacobi01(3, a, b), "rec_jacobi01", a, b)
    for N in (0, -1, -4):
        R(lambda: op.rec_jacobi01(N, 0, 0), "rec_jacobi01", N)
    for N in (2.0, 3.5, "3", None):
        R(lambda: op.rec_jacobi01(N, 0, 0), "rec_jacobi01", N)
    answers(m, lambda: op.rec_jacobi(3, -0.5, 0.5), "rec_jacobi")
    # cells
    for ck in CELLS:
        c = make(CELLS[ck])
        D = c.get_dimension()
        top = c.get_topology()
        for d in sorted(top):
            n = len(top[d])
            for i in (n, n + 1, -1, n + 40):
                R(lambda: c.get_entity_transform(d, i), "entity transform", ck, d, i)
        for d in (5, -1, 17, (9, 9)):
            R(lambda: c.get_entity_transform(d, 0), "entity transform", ck, d)
    for ck, bad in (("T", [0, 2, 5]), ("Tet", [0, 1, 3]), ("I", [1, 2]), ("Q", [0, 2]), ("H", [0, 1, 3]), ("DT", [0, 2]), ("DTet", [1, 3])):
        c = make(ck)
        for d in bad:
            R(lambda: c.compute_reference_normal(d, 0), "reference normal", ck, d)
    for ck in ("II", "TI", "III"):
        c = make(CELLS[ck])
        n = len(c.cells)
        for d in ((1,) * (n + 1), (0,) * (n - 1) if n > 2 else (0,)):
            R(lambda: c.compute_reference_normal(d, 0), "reference normal", ck, d)
        for k in (1, 4):
            if k != c.get_spatial_dimension():
                R(lambda: c.contains_point((0.5,) * k), "contains_point", ck, k)
    for ck in ("Q", "H"):
        for d in (-1, 4, 9):
            R(lambda: make(ck).construct_subelement(d), "subelement", ck, d)
    for ck in ("pt", "T", "Tet", "I"):
        for d in (4, 9, -1):
            R(lambda: make(ck).construct_subelement(d), "subelement", ck, d)
    R(lambda: make("pt").construct_subelement(1), "subelement", "pt", 1)
    for a, b in (("T", "Tet"), ("I", "T"), ("Tet", "I")):
        R(lambda: re.make_affine_mapping(make(a).get_vertices(), make(b).get_vertices()), "affine mapping", a, b)
    for c in (["TP", "T", "I"], ["TP", "I", "T"], ["TP", "T", "T"], "T", "Tet", ["TP", "Tet", "I"]):
        R(lambda: re.flatten_reference_cube(make(c)), "flatten_reference_cube", c)
    # duals through given points
    for s in (["Lag", "T", 2], ["DG", "Tet", 1], ["Lag", "I", 3], ["RT", "T", 1, "integral"]):
        e = C.build(s)
        sd = geom.sdim(s[1])
        n = e.space_dimension() // (sd if s[0] == "RT" else 1)
        rng = m.rng()
        for k in (n - 1, n + 1, 2 * n):
            if k != n and k > 0:
                R(lambda: pointwise_dual.compute_pointwise_dual(e, geom.random_points(s[1], k, rng)), "pointwise dual", C.name(s), k)
        R(lambda: pointwise_dual.compute_pointwise_dual(e, [tuple(p) + (0.1,) for p in geom.random_points(s[1], n, rng)]), "pointwise dual", C.name(s), "coordinates")
        if s[0] != "RT":
            R(lambda: pointwise_dual.compute_pointwise_dual(e, [geom.random_points(s[1], 1, rng)[0]] * n) if n > 1 else 1 / 0, "pointwise dual", C.name(s), "repeated point")


def do_functionals(job, m):
    F = geom._fiat()
    from FIAT import functional as fn, quadrature as q
    make = geom.make_cell
    R = lambda f, *w: m.raises("query", f, w)
    for ck in ("T", "Tet", "I"):
        c = make(ck)
        sd = geom.sdim(ck)
        x = (0.25,) * sd
        for shp in ((sd,), (2,), (3,), (7,)):
            for comp in (-1, -2, shp[0], shp[0] + 1, shp[0] + 9):
                R(lambda: fn.ComponentPointEvaluation(c, comp, shp, x), "component", ck, comp, shp)
            answers(m, lambda: fn.ComponentPointEvaluation(c, shp[0] - 1, shp, x), ("component", ck, shp))
        for shp in ((), (2, 2), (3, 3), (1, 1, 1)):
            R(lambda: fn.ComponentPointEvaluation(c, 0, shp, x), "shape", ck, shp)
        rule = F.create_quadrature(c, 3)
        n = len(rule.get_points())
        for k in (n - 1, n + 1, 2 * n, 0):
            if k != n:
                R(lambda: fn.FrobeniusIntegralMoment(c, rule, np.ones((sd, k))), "values", ck, k)
                R(lambda: fn.FrobeniusIntegralMoment(c, rule, np.ones((sd, sd, k))), "tensor values", ck, k)
        answers(m, lambda: fn.FrobeniusIntegralMoment(c, rule, np.ones((sd, n))), ("moment", ck))
        if sd == 2:
            for shp in ((n,), (3, n), (2, n + 1), (1, n), (2, 2, n)):
                R(lambda: fn.IntegralMomentOfTensorDivergence(c, rule, np.ones(shp)), "divergence values", ck, shp)
    p = fn.PointEvaluation(make("T"), (0.2, 0.3))
    R(lambda: p.evaluate(lambda x: 1.0), "evaluate")


def do_quadrature_element(job, m):
    rng = m.rng()
    F = geom._fiat()
    make = geom.make_cell
    for c in ("I", "T", "Tet", "Q", ["TP", "T", "I"]):
        n = 5
        P = geom.random_points(c, n, rng)
        e = F.QuadratureElement(make(c), P)
        D = e.get_reference_element().get_dimension()
        sd = geom.sdim(c)
        nm = geom.cellname(c)
        R = lambda f, *w: m.raises("query", f, ("QE", nm) + w)
        answers(m, lambda: e.tabulate(0, P), ("QE", nm))
        answers(m, lambda: e.tabulate(0, P, (D, 0)), ("QE", nm, "cell"))
        for o in (1, 2, 3):
            R(lambda: e.tabulate(o, P), "order", o)
        for k in (0, 1, n - 1):
            R(lambda: e.tabulate(0, P[:k]), "fewer points", k)
        R(lambda: e.tabulate(0, P + P[:1]), "more points")
        R(lambda: e.tabulate(0, P[::-1]), "other order")
        for i in range(n):
            for j in range(sd):
                for eps in (1e-3, -1e-3, 1e-7, -1e-9):
                    Q = [list(p) for p in P]
                    Q[i][j] += eps
                    R(lambda: e.tabulate(0, [tuple(p) for p in Q]), "moved point", i, j, eps)
        for d in sorted(e.get_reference_element().get_topology()):
            if d != D:
                R(lambda: e.tabulate(0, P, (d, 0)), "entity", d)
        R(lambda: e.tabulate(0, P, (D, 1)), "entity", D, 1)


def do_queries(job, m):
    F = geom._fiat()
    B = C.build
    noexp = [["TP", ["Lag", "I", 1], ["Lag", "I", 2]], ["Hdiv", ["TP", ["Lag", "I", 1], ["DG", "I", 0]]], ["Enr", ["Lag", "T", 1], ["Bub", "T", 3]],
             ["Mix", ["Lag", "T", 1], ["Lag", "T", 1]], ["Flat", ["TP", ["Lag", "I", 1], ["Lag", "I", 2]]], ["S", "Q", 2], ["S", "H", 1], ["HDT", "T", 1],
             ["Bern", "T", 2], ["TP", ["RT", "T", 1, "point"], ["DG", "I", 0]], ["Hcurl", ["TP", ["Lag", "I", 1], ["DG", "I", 0]]]]
    for s in noexp:
        e = B(s)
        for nm in ("get_nodal_basis", "get_coeffs", "dmats"):
            m.raises("query", lambda: getattr(e, nm)(), (C.name(s), nm))
        if s[0] != "Flat":
            m.raises("query", lambda: e.get_num_members(1), (C.name(s), "get_num_members"))
    m.raises("query", lambda: F.FiniteElement(geom.make_cell("T"), B(["Lag", "T", 1]).get_dual_set(), 1).tabulate(0, [(0.1, 0.1)]), "abstract tabulate")
    for s in (["S", "Q", 2], ["S", "H", 1]):
        m.raises("query", lambda: B(s).get_dual_set(), (C.name(s), "get_dual_set"))


def do_entities(job, m):
    rng = m.rng()
    for s in job["specs"]:
        e = C.build(s)
        cell = e.get_reference_element()
        top = cell.get_topology()
        nm = C.name(s)
        for d in sorted(top):
            sub = cell.construct_subelement(d)
            P = geom.random_points_of(sub, 2, rng) if geom.tdim(d) else [()]
            n = len(top[d])
            for i in (n, n + 1, -1):
                m.raises("entity", lambda: e.tabulate(0, P, (d, i)), (nm, d, i))
        D = cell.get_dimension()
        P = geom.random_points_of(cell, 2, rng)
        bad = [7, -1] if not isinstance(D, tuple) else [7, tuple([5] * len(D))]
        for d in bad:
            m.raises("entity", lambda: e.tabulate(1, P, (d, 0)), (nm, d))
