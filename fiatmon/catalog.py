"""The element catalogue: how to build every supported element, from JSON specs.

spec = [family, cell, *args]          a simple element
     | ["TP", A, B]  ["Flat", A]  ["Hdiv", A]  ["Hcurl", A]
     | ["Enr", A, B, ...]  ["NEnr", A, B, ...]  ["Mix", A, B, ...]
     | ["Disc", A]  ["Res", A, {"indices": [...]}|{"domain": "..."}]
"""
import itertools
import warnings

from fiatmon import geom

COMPOSITE = ("TP", "Flat", "Hdiv", "Hcurl", "Enr", "NEnr", "Mix", "Disc", "Res")


def F():
    return geom._fiat()


def simple(fam, cell, args):
    X = F()
    c = geom.make_cell(cell)
    a = list(args)
    T = {"Lag": X.Lagrange, "DG": X.DiscontinuousLagrange, "GLL": X.GaussLobattoLegendre, "GL": X.GaussLegendre,
         "GR": X.GaussRadau, "CR": X.CrouzeixRaviart, "P0": X.P0, "DT": X.DiscontinuousTaylor, "DPC": X.DPC,
         "S": X.Serendipity, "Bern": X.Bernstein, "KMV": X.KongMulderVeldhuizen, "Her": X.CubicHermite,
         "Mor": X.Morley, "Arg": X.Argyris, "QArg": X.QuinticArgyris, "Bell": X.Bell,
         "RT": X.RaviartThomas, "DRT": X.DiscontinuousRaviartThomas, "BDM": X.BrezziDouglasMarini,
         "BDFM": X.BrezziDouglasFortinMarini, "N1": X.Nedelec, "N2": X.NedelecSecondKind,
         "Reg": X.Regge, "HHJ": X.HellanHerrmannJohnson, "AW": X.ArnoldWinther, "AWnc": X.ArnoldWintherNC,
         "MTW": X.MardalTaiWinther, "Bub": X.Bubble, "FBub": X.FacetBubble, "HDT": X.HDivTrace}
    if fam == "HDT" and isinstance(a[0], list):
        a[0] = tuple(a[0])
    if fam == "QE":
        return X.QuadratureElement(c, [tuple(p) for p in a[0]], *a[1:])
    return T[fam](c, *a)


def build(spec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return _build(spec)


def parts(spec):
    """the specs of the elements a composite is made of"""
    return [x for x in spec[1:] if isinstance(x, list) and x and isinstance(x[0], str)] if spec[0] in COMPOSITE else []


def _build(spec):
    return assemble(spec, [_build(s) for s in parts(spec)])


def assemble(spec, P):
    """the composite of given element objects"""
    X = F()
    k = spec[0]
    if k == "TP":
        return X.TensorProductElement(*P)
    if k == "Flat":
        from FIAT.tensor_product import FlattenedDimensions
        return FlattenedDimensions(*P)
    if k == "Hdiv":
        return X.Hdiv(*P)
    if k == "Hcurl":
        return X.Hcurl(*P)
    if k == "Enr":
        return X.EnrichedElement(*P)
    if k == "NEnr":
        return X.NodalEnrichedElement(*P)
    if k == "Mix":
        return X.MixedElement(P)
    if k == "Disc":
        return X.DiscontinuousElement(*P)
    if k == "Res":
        o = spec[2]
        if "indices" in o:
            return X.RestrictedElement(P[0], indices=list(o["indices"]))
        return X.RestrictedElement(P[0], restriction_domain=o["domain"])
    return simple(k, spec[1], spec[2:])


def cell_of(spec):
    k = spec[0]
    if k == "TP":
        return ["TP", cell_of(spec[1]), cell_of(spec[2])]
    if k == "Flat":
        return {2: "Q", 3: "H"}[geom.sdim(cell_of(spec[1]))]
    if k in COMPOSITE:
        return cell_of(spec[1])
    return spec[1]


def name(spec):
    k = spec[0]
    if k == "Res":
        o = spec[2]
        return "Res{%s|%s}" % (name(spec[1]), o.get("domain") or ",".join(map(str, o["indices"])))
    if k in COMPOSITE:
        return k + "{" + "|".join(name(s) for s in spec[1:]) + "}"
    if k == "QE":
        return "QE[%s,%d]" % (geom.cellname(spec[1]), len(spec[2]))
    return "%s[%s%s]" % (k, geom.cellname(spec[1]), "".join("," + str(a) for a in spec[2:]))


# ----------------------------------------------------------------------
def simple_specs(tier="quick"):
    """All element families x reference cells x degrees x variants."""
    th = tier == "thorough"
    out = []

    def add(fam, cells, *argses):
        for c in cells:
            for a in argses:
                out.append([fam, c] + list(a))

    r = lambda a, b: [(k,) for k in range(a, b + 1)]
    add("Lag", ["I"], *r(1, 8 if not th else 12))
    add("Lag", ["T"], *r(1, 6 if not th else 9))
    add("Lag", ["Tet"], *r(1, 4 if not th else 6))
    add("DG", ["I"], *r(0, 6 if not th else 10))
    add("DG", ["T"], *r(0, 5 if not th else 8))
    add("DG", ["Tet"], *r(0, 4 if not th else 5))
    add("GLL", ["I"], *r(1, 9 if not th else 16))
    add("GL", ["I"], *r(0, 9 if not th else 16))
    add("GR", ["I"], *r(0, 7 if not th else 12))
    add("P0", ["I", "T", "Tet"], ())
    add("CR", ["T", "Tet"], (1,))
    add("DT", ["I"], *r(0, 5 if not th else 7))
    add("DT", ["T"], *r(0, 4 if not th else 6))
    add("DT", ["Tet"], *r(0, 3 if not th else 4))
    add("DPC", ["I", "Q"], *r(0, 5 if not th else 7))
    add("DPC", ["H"], *r(0, 4 if not th else 5))
    add("S", ["Q"], *r(1, 6 if not th else 9))
    add("S", ["H"], *r(1, 5 if not th else 7))
    add("Bern", ["I"], *r(1, 6 if not th else 9))
    add("Bern", ["T"], *r(1, 5 if not th else 7))
    add("Bern", ["Tet"], *r(1, 4 if not th else 5))
    add("KMV", ["T"], *r(1, 5))
    add("KMV", ["Tet"], *r(1, 3))
    add("Her", ["I", "T", "Tet"], ())
    add("Mor", ["T"], ())
    add("Arg", ["T"], *r(5, 6 if not th else 8))
    add("QArg", ["T"], ())
    add("Bell", ["T"], ())
    for v in ("point", "integral"):
        add("RT", ["T"], *[(k, v) for k in range(1, 5 if not th else 7)])
        add("N1", ["T"], *[(k, v) for k in range(1, 5 if not th else 7)])
        add("BDM", ["T"], *[(k, v) for k in range(1, 4 if not th else 6)])
        add("N2", ["T"], *[(k, v) for k in range(1, 4 if not th else 6)])
    for k in range(1, 4 if not th else 5):
        add("RT", ["Tet"], (k, "point"))
        add("N1", ["Tet"], (k, "point"))
    for k in range(1, 3 if not th else 4):
        add("RT", ["Tet"], (k, "integral"))
        add("N1", ["Tet"], (k, "integral"))
        add("BDM", ["Tet"], (k, "point"), (k, "integral"))
        add("N2", ["Tet"], (k, "point"), (k, "integral"))
    add("RT", ["Tet"], (3, "integral(5)"))
    add("N1", ["Tet"], (3, "integral(5)"))
    add("N2", ["Tet"], (3, "point"))
    add("BDM", ["Tet"], (3, "point"))
    add("RT", ["T"], (2, "integral(3)"), (2, None))
    add("N1", ["T"], (2, "integral(3)"), (2, None))
    add("BDM", ["T"], (2, "integral(4)"), (2, None))
    add("N2", ["T"], (2, "integral(4)"), (2, None))
    add("DRT", ["T"], *r(1, 4))
    add("DRT", ["Tet"], *r(1, 2 if not th else 3))
    add("BDFM", ["T"], (2,))
    add("Reg", ["T"], *r(0, 3 if not th else 4))
    add("Reg", ["Tet"], *r(0, 1 if not th else 2))
    add("HHJ", ["T"], *r(0, 3 if not th else 4))
    add("AW", ["T"], (3,))
    add("AWnc", ["T"], (2,))
    add("MTW", ["T"], (3,))
    add("Bub", ["I"], *r(2, 5))
    add("Bub", ["T"], *r(3, 5))
    add("Bub", ["Tet"], *r(4, 5 if not th else 6))
    add("FBub", ["I"], *r(1, 3))
    add("FBub", ["T"], *r(2, 5))
    add("FBub", ["Tet"], *r(3, 5 if not th else 6))
    return out


def high_specs(tier="quick"):
    """degrees beyond simple_specs, where hard-wired tables and capped rules show"""
    th = tier == "thorough"
    out = []
    for v in ("point", "integral"):
        for k in (5, 6):
            out += [[f, "T", k, v] for f in ("RT", "N1")]
        for k in (4, 5, 6):
            out += [[f, "T", k, v] for f in ("BDM", "N2")]
        out += [["N1", "Tet", 4, v], ["RT", "Tet", 4, v], ["N2", "Tet", 3, v], ["BDM", "Tet", 3, v], ["N2", "Tet", 4, v]]
    out += [["N1", "Tet", 3, "integral"], ["RT", "Tet", 3, "integral"], ["BDM", "Tet", 4, "point"]]
    out += [["N1", "T", 5, "integral(7)"], ["RT", "T", 5, "integral(6)"], ["N1", "Tet", 2, "integral(4)"], ["N2", "Tet", 2, "integral(5)"],
            ["BDM", "T", 3, "integral(7)"], ["N2", "T", 4, "integral(5)"], ["RT", "Tet", 2, "integral(3)"], ["BDM", "Tet", 2, "integral(3)"]]
    out += [["DRT", "T", 5], ["DRT", "T", 6], ["DRT", "Tet", 3]]
    out += [["Lag", "T", 7], ["Lag", "T", 8], ["Lag", "Tet", 5], ["Lag", "I", 10], ["Lag", "I", 12]]
    out += [["DG", "T", 6], ["DG", "T", 7], ["DG", "Tet", 5], ["DG", "I", 8], ["DG", "I", 10]]
    out += [["Bern", "I", 9], ["Bern", "T", 7], ["Bern", "T", 9], ["Bern", "Tet", 5], ["Bern", "Tet", 6]]
    out += [["S", "Q", 7], ["S", "Q", 8], ["S", "Q", 9], ["S", "H", 6], ["S", "H", 7]]
    out += [["Reg", "T", 4], ["Reg", "T", 5], ["Reg", "Tet", 2], ["HHJ", "T", 4], ["HHJ", "T", 5]]
    out += [["Arg", "T", 7], ["DPC", "Q", 6], ["DPC", "Q", 7], ["DPC", "H", 5], ["DT", "T", 5], ["DT", "I", 7]]
    out += [[f, "I", k] for f in ("GLL", "GL", "GR") for k in (11, 13, 16)]
    out += [["Bub", "T", 6], ["FBub", "T", 6]]
    if th:
        out += [["Bub", "Tet", 6], ["FBub", "Tet", 6], ["RT", "T", 7, "integral"], ["N1", "T", 8, "point"], ["BDM", "T", 7, "point"], ["N2", "T", 7, "integral"], ["N1", "Tet", 5, "point"],
                ["RT", "Tet", 5, "point"], ["BDM", "Tet", 4, "integral"], ["Arg", "T", 8], ["Lag", "Tet", 7], ["Lag", "T", 10], ["DRT", "T", 7],
                ["DT", "T", 7], ["DT", "Tet", 5], ["S", "Q", 11], ["S", "H", 8], ["Reg", "T", 6], ["Reg", "Tet", 3], ["HHJ", "T", 6], ["DPC", "Q", 9]]
    have = set(name(s) for s in simple_specs(tier))
    return [s for s in out if name(s) not in have]


def tp_specs(tier="quick"):
    th = tier == "thorough"
    I = "I"
    Lg = lambda k, c=I: ["Lag", c, k]
    D = lambda k, c=I: ["DG", c, k]
    out = []
    for a, b in [(Lg(1), Lg(2)), (Lg(2), D(1)), (D(0), Lg(3)), (D(1), D(2)), (["GLL", I, 3], ["GL", I, 2]),
                 (["GR", I, 2], Lg(1)), (["Her", I], D(1)), (["Bub", I, 3], Lg(1)),
                 (Lg(2, "T"), Lg(1)), (D(1, "T"), Lg(2)), (["CR", "T", 1], D(0)), 
                 (Lg(1), Lg(2, "T")), (Lg(1, "T"), D(1, "T")),
                 (["RT", "T", 1, "point"], D(0)), (["RT", "T", 2, "point"], Lg(1)), (["N1", "T", 1, "point"], Lg(2)),
                 (["BDM", "T", 1, "point"], D(1)), 
                 (["DG", "T", 2], ["KMV", "T", 2]), (["DT", I, 2], Lg(2)), (["DT", "T", 1], D(1)), (Lg(1), ["DT", I, 1]),
                 (["DT", I, 1], Lg(1, "T")), (["RT", "T", 2, "integral"], Lg(1)), (["N1", "T", 2, "integral"], D(1)),
                 (["BDM", "T", 2, "integral"], D(0)), (["Mor", "T"], Lg(1)), (Lg(1), ["Her", I])]:
        out.append(["TP", a, b])
    out.append(["TP", ["TP", Lg(1), D(1)], Lg(2)])
    out.append(["TP", ["TP", Lg(2), Lg(1)], D(0)])
    out.append(["TP", Lg(1), ["TP", D(0), Lg(2)]])
    out.append(["TP", ["TP", ["GLL", I, 2], ["GLL", I, 2]], ["GLL", I, 2]])
    if th:
        out += [["TP", Lg(4), Lg(5)], ["TP", Lg(3, "T"), Lg(3)], ["TP", ["TP", Lg(2), Lg(3)], ["TP", D(1), Lg(1)]],
                ["TP", Lg(2, "Tet"), Lg(1)], ["TP", ["Arg", "T", 5], Lg(1)]]
    return out


def flat_specs(tier="quick"):
    th = tier == "thorough"
    I = "I"
    out = []
    for a, b in [(["Lag", I, 1], ["Lag", I, 2]), (["Lag", I, 3], ["DG", I, 1]), (["GLL", I, 3], ["GLL", I, 3]),
                 (["GL", I, 1], ["GL", I, 2]), (["DG", I, 0], ["DG", I, 0])]:
        out.append(["Flat", ["TP", a, b]])
    for a, b, c in [(["Lag", I, 1], ["Lag", I, 2], ["Lag", I, 1]), (["GLL", I, 2], ["GLL", I, 2], ["GLL", I, 2]),
                    (["DG", I, 1], ["Lag", I, 1], ["DG", I, 0])]:
        out.append(["Flat", ["TP", ["TP", a, b], c]])
        out.append(["Flat", ["TP", a, ["TP", b, c]]] if th else ["Flat", ["TP", ["TP", b, a], c]])
    return out


def hdivcurl_specs(tier="quick"):
    I = "I"
    Lg = lambda k, c=I: ["Lag", c, k]
    D = lambda k, c=I: ["DG", c, k]
    out = []
    for a, b in [(Lg(1), D(0)), (Lg(2), D(1)), (["GLL", I, 3], ["GL", I, 2])]:
        out.append(["Hdiv", ["TP", a, b]])
        out.append(["Hdiv", ["TP", b, a]])
        out.append(["Hcurl", ["TP", a, b]])
        out.append(["Hcurl", ["TP", b, a]])
    # prisms
    out.append(["Hdiv", ["TP", ["RT", "T", 1, "point"], D(0)]])
    out.append(["Hdiv", ["TP", ["RT", "T", 2, "point"], D(1)]])
    out.append(["Hdiv", ["TP", ["BDM", "T", 1, "point"], D(0)]])
    out.append(["Hdiv", ["TP", ["N1", "T", 1, "point"], D(0)]])
    out.append(["Hdiv", ["TP", D(0, "T"), Lg(1)]])
    out.append(["Hdiv", ["TP", D(1, "T"), Lg(2)]])
    out.append(["Hdiv", ["TP", Lg(1), D(1, "T")]])
    out.append(["Hcurl", ["TP", ["N1", "T", 1, "point"], Lg(1)]])
    out.append(["Hcurl", ["TP", ["N1", "T", 2, "integral"], Lg(2)]])
    out.append(["Hcurl", ["TP", ["RT", "T", 1, "point"], Lg(1)]])
    out.append(["Hcurl", ["TP", ["N2", "T", 1, "point"], Lg(2)]])
    out.append(["Hcurl", ["TP", Lg(2, "T"), D(1)]])
    out.append(["Hcurl", ["TP", D(0), Lg(1, "T")]])
    # hexahedra
    for w, f in [("Hdiv", ["Hdiv", ["TP", Lg(1), D(0)]]), ("Hdiv", ["Hdiv", ["TP", D(0), Lg(1)]])]:
        out.append([w, ["TP", f, D(0)]])
    out.append(["Hdiv", ["TP", ["TP", D(0), D(0)], Lg(1)]])
    out.append(["Hdiv", ["TP", ["Hcurl", ["TP", D(0), Lg(1)]], D(0)]])
    out.append(["Hcurl", ["TP", ["Hcurl", ["TP", Lg(1), D(0)]], Lg(1)]])
    out.append(["Hcurl", ["TP", ["Hcurl", ["TP", D(1), Lg(2)]], Lg(2)]])
    out.append(["Hcurl", ["TP", ["TP", Lg(1), Lg(1)], D(0)]])
    out.append(["Hcurl", ["TP", ["Hdiv", ["TP", D(0), Lg(1)]], Lg(1)]])
    out.append(["Flat", ["Hdiv", ["TP", Lg(2), D(1)]]])
    out.append(["Flat", ["Hcurl", ["TP", D(1), Lg(2)]]])
    out.append(["Flat", ["Hdiv", ["TP", ["Hdiv", ["TP", Lg(1), D(0)]], D(0)]]])
    out.append(["Flat", ["Hcurl", ["TP", ["TP", Lg(1), Lg(1)], D(0)]]])
    return out


def composite_specs(tier="quick"):
    I, T, K = "I", "T", "Tet"
    out = []
    out.append(["Enr", ["Lag", T, 1], ["Bub", T, 3]])
    out.append(["Enr", ["Lag", I, 1], ["Bub", I, 3]])
    out.append(["Enr", ["Lag", K, 1], ["Bub", K, 4]])
    out.append(["Enr", ["Lag", T, 1], ["FBub", T, 2], ["Bub", T, 3]])
    out.append(["Enr", ["RT", T, 1, "point"], ["BDM", T, 2, "point"]])
    out.append(["Enr", ["Hdiv", ["TP", ["Lag", I, 1], ["DG", I, 0]]], ["Hdiv", ["TP", ["DG", I, 0], ["Lag", I, 1]]]])
    out.append(["Enr", ["Hcurl", ["TP", ["Lag", I, 2], ["DG", I, 1]]], ["Hcurl", ["TP", ["DG", I, 1], ["Lag", I, 2]]]])
    out.append(["Flat", ["Enr", ["Hdiv", ["TP", ["Lag", I, 2], ["DG", I, 1]]], ["Hdiv", ["TP", ["DG", I, 1], ["Lag", I, 2]]]]])
    out.append(["Enr", ["TP", ["Lag", I, 1], ["Lag", I, 2]], ["TP", ["Bub", I, 3], ["Bub", I, 2]]])
    out.append(["NEnr", ["Lag", T, 1], ["Bub", T, 3]])
    out.append(["NEnr", ["Lag", I, 1], ["Bub", I, 3]])
    out.append(["NEnr", ["Lag", K, 1], ["Bub", K, 4]])
    out.append(["NEnr", ["Lag", T, 2], ["Bub", T, 3]])
    out.append(["NEnr", ["RT", T, 1, "point"], ["Res", ["RT", T, 2, "point"], {"domain": "interior"}]])
    out.append(["NEnr", ["CR", T, 1], ["Bub", T, 3]])
    out.append(["NEnr", ["Lag", T, 1], ["FBub", T, 2], ["Bub", T, 3]])
    out.append(["Mix", ["Lag", T, 2], ["RT", T, 1, "point"]])
    out.append(["Mix", ["RT", T, 2, "integral"], ["DG", T, 1], ["N1", T, 1, "point"]])
    out.append(["Mix", ["Lag", K, 2], ["Lag", K, 1]])
    out.append(["Mix", ["Lag", I, 2], ["DG", I, 0]])
    out.append(["Mix", ["Reg", T, 0], ["Lag", T, 1]])
    out.append(["Mix", ["TP", ["Lag", I, 1], ["DG", I, 1]], ["Hdiv", ["TP", ["Lag", I, 1], ["DG", I, 0]]]])
    out.append(["Mix", ["S", "Q", 2], ["DPC", "Q", 1]])
    for s in [["Lag", T, 2], ["Lag", K, 3], ["RT", T, 2, "point"], ["RT", K, 1, "integral"], ["N1", T, 2, "point"],
              ["Her", T], ["CR", T, 1], ["Lag", I, 3], ["Reg", T, 1], ["N2", K, 1, "point"], ["BDM", T, 2, "integral"],
              ["TP", ["Lag", I, 1], ["DG", I, 1]], ["Bern", T, 2]]:
        out.append(["Disc", s])
    for s, doms in [(["Lag", T, 4], ["interior", "vertex", "edge", "facet"]),
                    (["Lag", K, 4], ["interior", "vertex", "edge", "face", "facet"]),
                    (["Lag", I, 3], ["interior", "vertex", "facet"]),
                    (["RT", T, 2, "point"], ["interior", "facet", "edge"]),
                    (["RT", K, 2, "point"], ["interior", "facet", "face"]),
                    (["N1", K, 2, "point"], ["edge", "face"]),
                    (["N1", T, 2, "integral"], ["interior", "facet"]),
                    (["Her", T], ["interior", "vertex"]), (["Her", K], ["vertex", "face", "facet"]),
                    (["Reg", T, 1], ["interior", "facet"]), (["Reg", K, 1], ["edge", "face"]),
                    (["BDM", T, 2, "point"], ["interior", "facet"]), (["KMV", T, 3], ["interior", "vertex", "edge"])]:
        for d in doms:
            out.append(["Res", s, {"domain": d}])
    out.append(["Res", ["Lag", T, 3], {"indices": [0, 3, 9]}])
    out.append(["Res", ["Lag", K, 2], {"indices": [1, 2, 5, 8]}])
    out.append(["Res", ["RT", T, 2, "point"], {"indices": [0, 2, 6]}])
    out.append(["Res", ["Res", ["Lag", T, 4], {"domain": "facet"}], {"domain": "edge"}])
    return out


def all_specs(tier="quick", hdt=False):
    return dedup(simple_specs(tier) + tp_specs(tier) + flat_specs(tier) + hdivcurl_specs(tier) + composite_specs(tier))


def dedup(specs):
    seen, out = set(), []
    for s in specs:
        k = name(s)
        if k not in seen:
            seen.add(k)
            out.append(s)
    return out


def trace_specs(tier="quick"):
    out = []
    for k in range(0, 4 if tier == "quick" else 6):
        out.append(["HDT", "T", k])
        out.append(["HDT", "Tet", k])
        out.append(["HDT", "Q", k])
        out.append(["HDT", ["TP", "I", "I"], k])
        out.append(["HDT", ["TP", "T", "I"], k])
    out.append(["HDT", ["TP", "I", "I"], [1, 2]])
    out.append(["HDT", ["TP", "T", "I"], [2, 1]])
    out.append(["HDT", ["TP", "T", "I"], [0, 3]])
    out.append(["HDT", ["TP", "I", "T"], [1, 2]])
    out.append(["HDT", ["TP", "I", "I"], [3, 0]])
    for k in (0, 1, [1, 1, 2], [0, 2, 1]):
        out.append(["HDT", ["TP", "I", "I", "I"], k])
    for k in (1, [1, 2], [2, 0]):
        out.append(["HDT", ["TP", "Q", "I"], k])
    for c in ("DT", "IT", "DTet", "ITet"):
        out += [["HDT", c, 1], ["HDT", c, 2]]
    return out


def cost(spec):
    """a rough order in which to start jobs"""
    c = cell_of(spec)
    k = max([x for x in spec[2:] if isinstance(x, int)] or [2])
    return (k + 1) ** geom.sdim(c) * (1 if spec[0] in ("Bern", "S", "GL", "GLL", "GR") else 3)


def lookalikes(kinds=None):
    """groups of different elements of one class that agree in degree, dimension or cell: whatever is remembered under too little confuses them"""
    L, D = (lambda k: ["Lag", "I", k]), (lambda k: ["DG", "I", k])
    t = lambda a, b: ["TP", a, b]
    g = {"TP2": [t(L(1), D(1)), t(D(1), L(1)), t(L(1), L(1)), t(D(1), D(1)), t(["GL", "I", 1], L(1)), t(L(1), ["GR", "I", 1])],
         "TP2b": [t(L(2), D(1)), t(D(1), L(2)), t(L(1), D(2)), t(D(2), L(1)), t(L(2), L(1)), t(L(1), L(2))],
         "TP3": [t(["Lag", "T", 1], D(1)), t(["DG", "T", 1], L(1)), t(["CR", "T", 1], L(1)), t(["Lag", "T", 1], L(1))],
         "TPv": [t(["RT", "T", 1, "point"], D(0)), t(["N1", "T", 1, "point"], D(0)), t(["RT", "T", 1, "integral"], D(0))],
         "Hdiv": [["Hdiv", t(L(1), D(0))], ["Hdiv", t(D(0), L(1))], ["Hdiv", t(L(1), D(0))]],
         "Hcurl": [["Hcurl", t(L(1), D(0))], ["Hcurl", t(D(0), L(1))], ["Hcurl", t(L(1), D(0))]],
         "HdivHcurl": [["Hdiv", t(D(1), L(2))], ["Hcurl", t(D(1), L(2))], ["Hdiv", t(L(2), D(1))], ["Hcurl", t(L(2), D(1))]],
         "Flat": [["Flat", t(L(1), D(1))], ["Flat", t(D(1), L(1))], ["Flat", t(L(1), L(1))], ["Flat", t(D(1), D(1))]],
         "Res": [["Res", ["Lag", "T", 3], {"indices": [0, 3, 9]}], ["Res", ["Lag", "T", 3], {"domain": "vertex"}], ["Res", ["Lag", "T", 3], {"indices": [4, 5, 6]}],
                 ["Res", ["DG", "T", 3], {"indices": [0, 3, 9]}], ["Res", ["Lag", "T", 4], {"domain": "interior"}], ["Res", ["Lag", "T", 2], {"indices": [3, 4, 5]}]],
         "Disc": [["Disc", ["Lag", "T", 1]], ["Disc", ["CR", "T", 1]], ["Disc", ["RT", "T", 1, "point"]], ["Disc", ["N1", "T", 1, "point"]]],
         "Enr": [["Enr", ["Lag", "T", 1], ["Bub", "T", 3]], ["Enr", ["CR", "T", 1], ["Bub", "T", 3]], ["Enr", ["DG", "T", 1], ["Bub", "T", 3]]],
         "NEnr": [["NEnr", ["Lag", "T", 1], ["Bub", "T", 3]], ["NEnr", ["CR", "T", 1], ["Bub", "T", 3]], ["NEnr", ["Bub", "T", 3], ["Lag", "T", 1]]],
         "Mix": [["Mix", ["Lag", "T", 1], ["DG", "T", 1]], ["Mix", ["DG", "T", 1], ["Lag", "T", 1]], ["Mix", ["CR", "T", 1], ["DG", "T", 1]]]}
    for f in ("RT", "N1", "BDM", "N2"):
        for c, k in (("T", 2), ("Tet", 1)):
            g["%s[%s]" % (f, c)] = [[f, c, k, "point"], [f, c, k, "integral"], [f, c, k, "integral(%d)" % (k + 3)], [f, c, k, "point"]]
    return [{"key": "together:" + n, "together": v, "cost": 10} for n, v in sorted(g.items()) if kinds is None or v[0][0] in kinds]
