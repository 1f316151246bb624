"""C12: results depend only on the arguments, never on history or batching."""
import json
import os
import pickle
import subprocess
import sys
import threading

import numpy as np

from fiatmon import catalog as C
from fiatmon import duals, geom
from fiatmon.checks import c01

RULE = ("one case = element x query in a history: seeded random call sequences (tabulation, tables, support tables, nodes, coefficients, cell geometry, "
        "quadrature, interleaved with other objects, with composite constructors and in several threads) where every answer is compared with the answer of "
        "a fresh object, answers already given out are re-examined at the end, and arguments are re-examined on return; plus point batches presented "
        "differently; non-trivial = the answer is a non-empty array or table")
REQUIRED = {"oracle:history": 6000, "oracle:held-answers": 400, "oracle:batching": 2500, "oracle:representation": 1500, "monitor:M-ARG": 5000,
            "oracle:parents-unchanged": 300, "oracle:global-history": 300, "oracle:threads": 200, "oracle:argument": 1500, "oracle:caller-owns-answers": 1000, "oracle:process": 300}
ASSUMPTIONS = ["answers are compared to 1e-12 relative, so a different but equivalent summation order is not a violation",
               "mutating a returned table by hand is not a query and is not exercised (arrays returned by tabulate are overwritten)"]
TASKS_PER_CHILD = 1     # every job starts from a process in which FIAT has been imported and nothing built


def jobs(tier, seed):
    th = tier == "thorough"
    out = []
    specs = [s for s in C.all_specs(tier) + C.trace_specs("quick")]
    for s in specs:
        big = geom.sdim(C.cell_of(s)) == 3 and s[0] in ("S", "Arg")
        out.append({"key": "hist:" + C.name(s), "spec": s, "cost": geom.sdim(C.cell_of(s)) ** 2 + (3 if big else 0) + (s[-1] if isinstance(s[-1], int) else 0)})
    for c in ["pt", "I", "T", "Tet", "Q", "H", "DI", "DT", "DTet", "IT", "ITet", ["TP", "I", "I"], ["TP", "T", "I"], ["TP", ["TP", "I", "I"], "I"]]:
        out.append({"key": "cell:" + geom.cellname(c), "cell": c})
    for r in range(6 if not th else 40):
        out.append({"key": "global%d" % r, "glob": r, "cost": 30})
    for r in range(4 if not th else 24):
        out.append({"key": "threads%d" % r, "thr": r, "cost": 30})
    for r in range(8 if not th else 40):
        out.append({"key": "parents%d" % r, "par": r, "cost": 15})
    for b in ("I", "T", "Tet"):
        out.append({"key": "process-siblings:" + b, "proc": b, "cost": 28})
    comps = C.dedup(C.tp_specs(tier) + C.flat_specs(tier) + C.hdivcurl_specs(tier) + C.composite_specs(tier))
    for r in range(48):
        out.append({"key": "parts%d" % r, "parts": comps[r::48], "cost": 25})
    many = [s for s in specs + comps if th or not (spec_slow(s) and geom.sdim(C.cell_of(s)) == 3)]
    for r in range(16):
        out.append({"key": "process%d" % r, "proc": many[r::16], "cost": 28})
    return out


# -- other processes -----------------------------------------------------------
def child():
    """in a process of its own: read (specs, seed) from the standard input, write the answers to the standard output"""
    from fiatmon import loader
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    loader.load()
    specs, seed = pickle.load(sys.stdin.buffer)
    ans = {}
    for s in specs:
        n = item_name(s)
        if s[0] == "cell":
            c = geom.make_cell(s[1])
            q = cell_queries(c, np.random.RandomState(seed))
            ans[n] = {k: canon(ask(lambda: q[k](c))) for k in sorted(q)}
            continue
        try:
            e = C.build(s)
        except Exception as x:
            ans[n] = "raised " + type(x).__name__
            continue
        q = queries(s, e, np.random.RandomState(seed), True)
        ans[n] = {k: canon(ask(lambda: q[k](e))) for k in sorted(q)}
    pickle.dump(ans, out)
    out.close()


def item_name(s):
    return C.name(s) if s[0] != "cell" and not isinstance(C.cell_of(s), list) else json.dumps(s)


def on_siblings(base, rng):
    """cells with much in common, and elements on them"""
    out = []
    for c in geom.siblings(base, rng, [1e-3, 1e3]):
        out.append(["cell", c])
        for s in c01.SIBS:
            if s[1] == base:
                out.append([s[0], c] + list(s[2:]))
    return out


def processes(job, m, rng):
    """the same elements in processes with different hash seeds, built in different orders"""
    seed = int(rng.randint(2**31))
    got = []
    if isinstance(job["proc"], str):
        job = dict(job, proc=on_siblings(job["proc"], rng))
    orders = [job["proc"], job["proc"][::-1]]
    from fiatmon import core
    for hs, specs in zip(("0", "%d" % (1 + rng.randint(10**9))), orders):
        env = dict(os.environ, PYTHONHASHSEED=hs, PYTHONPATH=core.VERIF + os.pathsep + os.environ.get("PYTHONPATH", ""))
        r = subprocess.run([sys.executable, "-W", "ignore", "-c", "from fiatmon.checks import c12; c12.child()"], input=pickle.dumps((specs, seed)),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        if r.returncode:
            m.check("process", False, hs, lambda: "the process failed: " + r.stderr.decode(errors="replace")[-800:])
            return
        got.append(pickle.loads(r.stdout))
    for n in got[0]:
        d = same(got[1][n], got[0][n], n)
        m.check("process", d is None, n, lambda: "another process (hash seed, order of construction) answers differently: %s" % d,
                nontrivial=not isinstance(got[0][n], str))


# -- canonical answers ----------------------------------------------------
def canon(x):
    """a comparable deep copy of an answer"""
    if isinstance(x, np.ndarray):
        return np.array(x, copy=True) if x.dtype != object else [canon(y) for y in x.tolist()]
    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [canon(y) for y in x]
    if isinstance(x, (int, float, np.floating, np.integer, bool, str)) or x is None:
        return x
    if isinstance(x, Exception):
        return "raised " + type(x).__name__
    return str(type(x))


def same(a, b, path=""):
    """None, or where they differ"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return "%s: shape %s, expected %s" % (path, a.shape, b.shape)
        if a.size == 0:
            return None
        try:
            if a.dtype.kind == "f" and b.dtype.kind == "f":
                na, nb = np.isnan(a), np.isnan(b)
                if not np.array_equal(na, nb):
                    return path + ": NaN in different places"
                a, b = np.where(na, 0.0, a), np.where(nb, 0.0, b)
            sc = max(1e-300, float(np.max(np.abs(b))))
            d = np.abs(a - b)
            if not (np.max(d) <= 1e-12 * max(sc, 1.0)):
                return "%s: differs by %.3g" % (path, float(np.max(d)))
        except TypeError:
            return None if a.tolist() == b.tolist() else path + ": differs"
        return None
    if type(a) is not type(b) and not (isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number))):
        return "%s: %s, expected %s" % (path, str(a)[:80], str(b)[:80])
    if isinstance(a, dict):
        if set(a) != set(b):
            return "%s: keys %s, expected %s" % (path, sorted(a)[:9], sorted(b)[:9])
        for k in a:
            r = same(a[k], b[k], path + "[" + k + "]")
            if r:
                return r
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return "%s: length %d, expected %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    if isinstance(a, (float, np.floating)) or isinstance(b, (float, np.floating)):
        return None if abs(a - b) <= 1e-12 * max(1.0, abs(b)) or (a != a and b != b) else "%s: %r, expected %r" % (path, a, b)
    return None if a == b else "%s: %s, expected %s" % (path, str(a)[:80], str(b)[:80])


def ask(f):
    try:
        return f()
    except Exception as x:
        return x


# -- the queries ------------------------------------------------------------
def queries(spec, e, rng, small=False):
    """{name: function of an element returning a raw answer}"""
    cell = e.get_reference_element()
    sd = cell.get_spatial_dimension()
    c = C.cell_of(spec)
    q = {}
    trace = spec[0] == "HDT"
    top = cell.get_topology()

    def tab(order, pts, ent=None):
        return lambda el: el.tabulate(order, [tuple(p) for p in pts], ent)

    P, R = geom.random_points(c, 3, rng, 0.2), geom.random_points(c, 2, rng)
    V = [tuple(float(z) for z in v) for v in geom.ref_vertices(c)]
    heavy = sd == 3 and not trace and spec[0] in ("S",)
    q["tab0"] = tab(0, P)
    q["tab0b"] = tab(0, R)
    q["tab1"] = tab(1, P)
    q["tab1v"] = tab(1, V[:2] + R)
    q["tab2"] = tab(2 if not heavy else 1, R)
    q["tabv"] = tab(0, V)
    if not small and sd < 3:
        q["tab3"] = tab(3, R)
    for d in sorted(top, key=str):
        if geom.tdim(d) < sd:
            for t in range(2):
                en = sorted(top[d])[rng.randint(len(top[d]))]
                L = geom.sub_ref_rule_points(cell, d, 2, rng)
                q["tab%s%d" % (d, t)] = tab(t, L, (d, en))
    q["entity_dofs"] = lambda el: el.entity_dofs()
    q["closure"] = lambda el: el.entity_closure_dofs()
    q["nodes"] = lambda el: [None if n is None else [n.get_type_tag(), sorted((str(k), str(v)) for k, v in (n.get_point_dict() or {}).items()),
                                                     sorted((str(k), str(v)) for k, v in n.deriv_dict.items())] for n in el.dual_basis()]
    for nm in ("space_dimension", "degree", "get_order", "mapping", "value_shape", "get_formdegree", "num_sub_elements", "is_nodal", "get_coeffs", "dmats"):
        q[nm] = (lambda n_: lambda el: getattr(el, n_)())(nm)
    if spec[0] != "Mix" and not trace and not (spec[0] == "Disc" and spec[1][0] == "Mix"):
        from FIAT import finite_element as FE
        for d in sorted(top, key=str):
            q["support%s" % (d,)] = (lambda dd: lambda el: FE.entity_support_dofs(el, dd))(d)
    # the cell, through the element
    q["vertices"] = lambda el: el.get_reference_element().get_vertices()
    q["topology"] = lambda el: el.get_reference_element().get_topology()
    q["volume"] = lambda el: el.get_reference_element().volume()
    return q


def cell_queries(cell, rng):
    sd = cell.get_spatial_dimension()
    q = {"vertices": lambda c: c.get_vertices(), "topology": lambda c: c.get_topology(), "volume": lambda c: c.volume(),
         "connectivity": lambda c: c.get_connectivity(), "sub_entities": lambda c: c.sub_entities, "dimension": lambda c: c.get_dimension()}
    top = cell.get_topology()
    simplex = hasattr(cell, "compute_tangents")
    for d in sorted(top, key=str):
        for en in (sorted(top[d])[:1] + sorted(top[d])[-1:]):
            L = geom.sub_ref_rule_points(cell, d, 2, rng)
            q["transform%s%d" % (d, en)] = (lambda d, en, L: lambda c: [c.get_entity_transform(d, en)(p) for p in L])(d, en, L)
            if simplex:
                q["points%s%d" % (d, en)] = (lambda d, en: lambda c: c.make_points(d, en, sd + 2))(d, en)
                q["tangents%s%d" % (d, en)] = (lambda d, en: lambda c: c.compute_tangents(d, en))(d, en)
                if d == sd - 1:
                    for nm in ("compute_normal", "compute_scaled_normal"):
                        q["%s%d" % (nm, en)] = (lambda nm, en: lambda c: getattr(c, nm)(en))(nm, en)
                if d == 1:
                    q["edge%d" % en] = (lambda en: lambda c: c.compute_edge_tangent(en))(en)
            q["refnormal%s%d" % (d, en)] = (lambda d, en: lambda c: c.compute_reference_normal(d, en))(d, en)
        q["sub%s" % (d,)] = (lambda d: lambda c: c.construct_subelement(d).get_vertices())(d)
    P = geom.random_points_of(cell, 3, rng, 0.4)
    q["contains"] = lambda c: [bool(c.contains_point(p)) for p in P]
    X = sys.modules["FIAT"]
    for k in (0, 1, 3, 6):
        q["quad%d" % k] = (lambda k: lambda c: [np.array(z) for z in (X.create_quadrature(c, k).get_points(), X.create_quadrature(c, k).get_weights())])(k)
    if simplex:
        from FIAT import expansions, polynomial_set
        Q = [tuple(p) for p in P]
        for n in (0, 2, 3):
            q["exp%d" % n] = (lambda n: lambda c: expansions.get_expansion_set(c).tabulate(n, Q))(n)
            q["on%d" % n] = (lambda n: lambda c: polynomial_set.ONPolynomialSet(c, n).tabulate(Q, 1))(n)
    return q


def history(m, make, q, rng, steps, other=None, oracle="history"):
    """one random call sequence on one object, judged against fresh objects"""
    names = sorted(q)
    base = {}
    for n in names:
        base[n] = canon(ask(lambda: q[n](make())))
    obj = make()
    held = []
    seq = list(rng.permutation(names)) + [names[rng.randint(len(names))] for _ in range(steps)]
    trail = []
    for n in seq:
        n = str(n)
        if other is not None and rng.randint(4) == 0:
            k = sorted(other[1])[rng.randint(len(other[1]))]
            ask(lambda: other[1][k](other[0]))
            trail.append("other." + k)
        raw = ask(lambda: q[n](obj))
        r = same(canon(raw), base[n], n)
        trail.append(n)
        m.check(oracle, r is None, n, lambda: "%s after %s" % (r, trail[-12:]), nontrivial=not (isinstance(base[n], str) and base[n].startswith("raised")))
        if not isinstance(raw, Exception):
            held.append((n, raw))
    # answers handed out earlier still say what they said
    for n, raw in held:
        r = same(canon(raw), base[n], n)
        m.check("held-answers", r is None, n, lambda: "an answer given out earlier changed: %s" % r)
    return base, obj


def run(job, m):
    rng = m.rng()
    if "glob" in job:
        return global_history(job, m, rng)
    if "proc" in job:
        return processes(job, m, rng)
    if "thr" in job:
        return threads(job, m, rng)
    if "par" in job:
        return parents(job, m, rng)
    if "parts" in job:
        return parts_unchanged(job, m, rng)
    if "cell" in job:
        c = job["cell"]
        return history(m, lambda: geom.make_cell(c), cell_queries(geom.make_cell(c), rng), rng, 40)
    spec = job["spec"]
    sd = geom.sdim(C.cell_of(spec))
    slow = spec_slow(spec)
    e0 = C.build(spec)
    q = queries(spec, e0, rng, small=slow)
    if slow:
        # one fresh object serves all baselines' tables; tabulations each get their own
        shared = C.build(spec)
        cache = {}

        def make():
            return C.build(spec)
        names = sorted(q)
        base = {}
        for n in names:
            base[n] = canon(ask(lambda: q[n](shared)))
        obj = e0
        for n in [str(x) for x in rng.permutation(names)] + [names[rng.randint(len(names))] for _ in range(6)]:
            r = same(canon(ask(lambda: q[n](obj))), base[n], n)
            m.check("history", r is None, n, lambda: r)
    else:
        o = ["Lag", "T", 2] if sd == 2 else ["Lag", "I", 3]
        oe = C.build(o)
        twin = C.build(spec)
        which = (oe, queries(o, oe, rng, True)) if rng.randint(2) else (twin, q)
        history(m, lambda: C.build(spec), q, rng, 12 if m.tier == "quick" else 60, which)
    if spec[0] == "HDT":
        return
    batching(spec, e0, m, rng)


def spec_slow(spec):
    s = C.name(spec)
    return spec[0] in ("Arg", "QArg", "Bell", "Reg", "AW", "MTW", "AWnc") or any(k in s for k in ("Tet", "[H", "Arg", "S[Q", "Reg[")) or \
        (isinstance(spec[-1], int) and spec[-1] > 4)


def batching(spec, e, m, rng):
    c = C.cell_of(spec)
    sd = geom.sdim(c)
    V = [tuple(float(z) for z in v) for v in geom.ref_vertices(c)]
    P = geom.random_points(c, 4, rng, 0.3) + V[:2]
    # a node of the element, where rational formulas are singular
    for n in list(e.dual_basis())[:40:7]:
        d = n.get_point_dict() if n is not None and n.get_point_dict() else {}
        if d:
            p = tuple(float(z) for z in list(d)[0])
            if len(p) == sd:
                P.append(p)
                break
    P.append(P[1])
    order = 1 if spec_slow(spec) else 2
    full = {k: np.asarray(v, float) for k, v in e.tabulate(order, P).items()}
    perm = [int(i) for i in rng.permutation(len(P))]
    cut = 1 + rng.randint(len(P) - 1)
    ways = {"permuted": [(perm, [P[i] for i in perm])], "split": [(list(range(cut)), P[:cut]), (list(range(cut, len(P))), P[cut:])],
            "single": [([i], [P[i]]) for i in range(len(P))], "twice": [(list(range(len(P))) * 2, P + P)]}
    for w, parts in ways.items():
        for idx, pts in parts:
            got = e.tabulate(order, pts)
            for k in full:
                m.close("batching", np.asarray(got[k], float), full[k][..., idx], 1e-11, (w, k, len(idx)),
                        scale=max(1.0, float(np.abs(full[k]).max())))
    A = np.array(P, float)
    reps = {"tuple of tuples": tuple(P), "list of lists": [list(p) for p in P], "array": A, "list of arrays": [np.array(p) for p in P],
            "fortran array": np.asfortranarray(A), "read-only array": ro(A), "strided array": np.repeat(A, 2, axis=0)[::2], "numpy scalars": [tuple(np.float64(z) for z in p) for p in P]}
    for w, pts in reps.items():
        keep = pickle.dumps(pts)
        got = e.tabulate(order, pts)
        m.check("argument", pickle.dumps(pts) == keep, w, "the points passed in were changed")
        for k in full:
            m.close("representation", np.asarray(got[k], float), full[k], 1e-11, (w, k), scale=max(1.0, float(np.abs(full[k]).max())))
    # the caller's own arrays are used again for other points, and the tables handed out are overwritten
    for w, pts, refill in (("array", A.copy(), lambda p, X: p.__setitem__(Ellipsis, X)), ("list", list(P), lambda p, X: p.__setitem__(slice(None), [tuple(x) for x in X])),
                           ("list of lists", [list(p) for p in P], lambda p, X: [q.__setitem__(slice(None), list(x)) for q, x in zip(p, X)])):
        for step, idx in (("first", list(range(len(P)))), ("refilled", perm), ("refilled again", perm[::-1])):
            refill(pts, A[idx])
            got = e.tabulate(order, pts)
            for k in full:
                m.close("refilled", np.asarray(got[k], float), full[k][..., idx], 1e-11, (w, step, k), scale=max(1.0, float(np.abs(full[k]).max())))
            for k in got:
                if getattr(getattr(got[k], "flags", None), "writeable", False):
                    got[k][...] = 17.0
            if step == "first":
                got = e.tabulate(order, pts)
                for k in full:
                    m.close("refilled", np.asarray(got[k], float), full[k], 1e-11, (w, "overwritten", k), scale=max(1.0, float(np.abs(full[k]).max())))
    # many points at once
    n = {True: 40, False: 300}[spec_slow(spec)] if spec[0] not in ("S", "Flat", "Mix") or m.tier == "thorough" else 60
    B = geom.random_points(c, n, rng, 0.3)
    B = [B[int(i)] for i in rng.randint(n, size=n // 8)] + B
    big = {k: np.asarray(v, float) for k, v in e.tabulate(1, B).items()}
    for lo in range(0, len(B), 29 if n < 100 else 113):
        hi = min(len(B), lo + (29 if n < 100 else 113))
        got = e.tabulate(1, B[lo:hi])
        for k in big:
            m.close("batching", np.asarray(got[k], float), big[k][..., lo:hi], 1e-11, ("many", k, lo), scale=max(1.0, float(np.abs(big[k]).max())))
    if not spec_slow(spec) and spec[0] not in ("S", "Flat", "Mix", "TP", "Hdiv", "Hcurl") or m.tier == "thorough":
        # thousands
        B = geom.random_points(c, 2300, rng, 0.2)
        for o, n in ((0, 2100 + rng.randint(200)), (1, 1030 + rng.randint(100))):
            B = B[:n]
            big = {k: np.asarray(v, float) for k, v in e.tabulate(o, B).items()}
            for k in big:
                m.check("batching", big[k].shape[-1] == n, ("thousands", k), lambda: "%d columns for %d points" % (big[k].shape[-1], n))
            idx = sorted(set([0, 1, 2, n - 3, n - 2, n - 1] + [int(i) for i in rng.randint(n, size=250)]))
            got = e.tabulate(o, [B[i] for i in idx])
            for k in big:
                m.close("batching", big[k][..., idx], np.asarray(got[k], float), 1e-11, ("thousands", k), scale=max(1.0, float(np.abs(big[k]).max())))
    # on the entities, in their own coordinates
    cell = e.get_reference_element()
    top = cell.get_topology()
    for d in sorted(top, key=str):
        if not 0 < geom.tdim(d) < sd:
            continue
        en = sorted(top[d])[rng.randint(len(top[d]))]
        L = [tuple(float(z) for z in p) for p in geom.sub_ref_rule_points(cell, d, 2, rng)]
        L = L[:3] + L[:1]
        ref = {k: np.asarray(v, float) for k, v in e.tabulate(1, L, (d, en)).items()}
        for w, idx, pts in [("reversed", list(range(len(L)))[::-1], L[::-1]), ("array", list(range(len(L))), np.array(L)), ("lists", list(range(len(L))), [list(p) for p in L]),
                            ("tuple", list(range(len(L))), tuple(L))] + [("single", [i], [L[i]]) for i in range(len(L))]:
            keep = pickle.dumps(pts)
            got = e.tabulate(1, pts, (d, en))
            m.check("argument", pickle.dumps(pts) == keep, (w, d, en), "the points passed in were changed")
            for k in ref:
                m.close("batching", np.asarray(got[k], float), ref[k][..., idx], 1e-11, ("entity", d, en, w, k), scale=max(1.0, float(np.abs(ref[k]).max())))
    # the arrays handed out belong to the caller
    for o in (0, 1):
        for ent in (None, (sd, 0) if type(sorted(top, key=str)[0]) is int else None):
            a = e.tabulate(o, P, ent)
            keep = {k: np.array(v, float) for k, v in a.items()}
            for v in a.values():
                if isinstance(v, np.ndarray) and v.flags.writeable:
                    v[...] = 1e3
            b = e.tabulate(o, P, ent)
            for k in keep:
                m.close("caller-owns-answers", np.asarray(b[k], float), keep[k], 1e-11, (o, ent, k), scale=max(1.0, float(np.abs(keep[k]).max())))
    I = [tuple(int(z) for z in v) for v in geom.ref_vertices(c)] + [tuple(int(z) for z in rng.randint(-1, 3, size=sd)) for _ in range(2)]
    ref = {k: np.asarray(v, float) for k, v in e.tabulate(order, [tuple(float(z) for z in p) for p in I]).items()}
    for w, pts in {"integer tuples": I, "integer array": np.array(I), "mixed": [tuple(float(z) if j else int(z) for j, z in enumerate(p)) for p in I]}.items():
        got = e.tabulate(order, pts)
        for k in ref:
            m.close("representation", np.asarray(got[k], float), ref[k], 1e-11, (w, k), scale=max(1.0, float(np.abs(ref[k]).max())))


def ro(A):
    B = A.copy()
    B.setflags(write=False)
    return B


POOL = [["Lag", "T", 2], ["Lag", "T", 3], ["Lag", "I", 4], ["DG", "T", 1], ["GLL", "I", 4], ["GL", "I", 3], ["GR", "I", 2], ["CR", "T", 1], ["DT", "T", 2],
        ["DPC", "Q", 2], ["S", "Q", 2], ["S", "Q", 3], ["Bern", "T", 3], ["KMV", "T", 2], ["Her", "T"], ["Mor", "T"], ["RT", "T", 2, "point"],
        ["RT", "T", 1, "integral"], ["N1", "T", 2, "point"], ["N1", "T", 2, "integral"], ["BDM", "T", 1, "point"], ["N2", "T", 1, "point"], ["N2", "T", 2, "integral"],
        ["BDFM", "T", 2], ["Reg", "T", 0], ["HHJ", "T", 1], ["AWnc", "T", 2], ["MTW", "T", 3], ["Bub", "T", 3], ["HDT", "T", 1], ["HDT", "Q", 1],
        ["Lag", "Tet", 2], ["RT", "Tet", 1, "point"], ["N1", "Tet", 1, "point"], ["P0", "T"], ["S", "H", 1], ["DPC", "H", 1],
        ["TP", ["Lag", "I", 1], ["DG", "I", 1]], ["Hdiv", ["TP", ["Lag", "I", 1], ["DG", "I", 0]]], ["Flat", ["TP", ["Lag", "I", 2], ["Lag", "I", 2]]],
        ["Enr", ["Lag", "T", 1], ["Bub", "T", 3]], ["NEnr", ["Lag", "T", 1], ["Bub", "T", 3]], ["Mix", ["Lag", "T", 1], ["RT", "T", 1, "point"]],
        ["Lag", "DT", 2], ["Lag", "IT", 2], ["GLL", "DI", 3]]


def choose(rng, n):
    return [POOL[int(i)] for i in rng.permutation(len(POOL))[:n]]


def global_history(job, m, rng):
    """answers in a process where many other things were built and asked first
    against answers in processes where nothing else was"""
    specs = choose(rng, 14)
    qseed = rng.randint(2 ** 31)
    base = {}
    for i, s in enumerate(specs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                e = C.build(s)
                q = queries(s, e, np.random.RandomState(qseed + i), True)
                data = pickle.dumps({n: canon(ask(lambda: q[n](e))) for n in sorted(q)})
                with os.fdopen(w, "wb") as f:
                    f.write(data)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        base[i] = pickle.loads(data) if data else None
    objs = {}
    for rep in range(2):
        for i in rng.permutation(len(specs)):
            i = int(i)
            if base[i] is None:
                continue
            s = specs[i]
            if i not in objs or rng.randint(2):
                objs[i] = C.build(s)
            q = queries(s, objs[i], np.random.RandomState(qseed + i), True)
            for n in [str(x) for x in rng.permutation(sorted(q))]:
                r = same(canon(ask(lambda: q[n](objs[i]))), base[i][n], n)
                m.check("global-history", r is None, (C.name(s), n), lambda: "%s depends on what else was built and asked: %s" % (C.name(s), r))
    m.count("pristine processes", len(specs))


def threads(job, m, rng):
    """concurrent readers of shared objects"""
    specs = choose(rng, 5)
    specs = [s for s in specs if s[0] != "HDT"]
    objs = [C.build(s) for s in specs]
    qs = []
    for i, s in enumerate(specs):
        qs.append(queries(s, objs[i], rng, True))
    base = [{n: canon(ask(lambda: qs[i][n](C.build(specs[i])))) for n in sorted(qs[i])} for i in range(len(specs))]
    old = sys.getswitchinterval()
    out = []
    seeds = [rng.randint(2 ** 31) for _ in range(4)]

    def work(sd):
        r_ = np.random.RandomState(sd)
        res = []
        order = [(i, n) for i in range(len(specs)) for n in sorted(qs[i])]
        for j in r_.permutation(len(order)):
            i, n = order[int(j)]
            res.append((i, n, canon(ask(lambda: qs[i][n](objs[i])))))
        out.append(res)
    mon, hooks = None, None
    from fiatmon import hooks
    hooks.end(m)        # the monitors' counters are not thread-safe
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(s,)) for s in seeds]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
        hooks.begin(m)
    m.count("threads", len(out))
    m.check("threads", len(out) == 4, "finished", "a thread died")
    for res in out:
        for i, n, a in res:
            r = same(a, base[i][n], n)
            m.check("threads", r is None, (C.name(specs[i]), n), lambda: "%s read concurrently: %s" % (C.name(specs[i]), r))


def parents(job, m, rng):
    """building and using composites leaves their parts (and the cell they share) as they were"""
    import FIAT as X
    T, I = "T", "I"
    cases = [
        (["Lag", T, 3], lambda e: X.RestrictedElement(e, restriction_domain="facet")),
        (["Lag", T, 3], lambda e: X.RestrictedElement(e, indices=[9, 4, 0])),
        (["RT", T, 2, "point"], lambda e: X.RestrictedElement(e, restriction_domain="interior")),
        (["RT", T, 1, "point"], lambda e: X.DiscontinuousElement(e)),
        (["Lag", T, 2], lambda e: X.EnrichedElement(e, X.Bubble(e.get_reference_element(), 3))),
        (["Lag", T, 1], lambda e: X.NodalEnrichedElement(e, X.Bubble(e.get_reference_element(), 3))),
        (["N1", T, 1, "point"], lambda e: X.MixedElement([e, e])),
        (["Lag", I, 2], lambda e: X.TensorProductElement(e, e)),
        (["TP", ["Lag", I, 1], ["DG", I, 0]], lambda e: X.Hdiv(e)),
        (["TP", ["Lag", I, 1], ["DG", I, 0]], lambda e: X.Hcurl(e)),
        (["TP", ["N1", T, 1, "point"], ["DG", I, 0]], lambda e: X.Hdiv(e)),
        (["TP", ["RT", T, 1, "point"], ["Lag", I, 1]], lambda e: X.Hcurl(e)),
        (["TP", ["Lag", I, 2], ["Lag", I, 1]], lambda e: sys.modules["FIAT.tensor_product"].FlattenedDimensions(e)),
        (["DPC", "Q", 2], lambda e: X.DPC(e.get_reference_element(), 3)),
        (["S", "Q", 2], lambda e: X.Serendipity(e.get_reference_element(), 3)),
        (["Her", T], lambda e: X.RestrictedElement(e, restriction_domain="vertex")),
        (["DG", T, 2], lambda e: X.NodalEnrichedElement(e, X.Bubble(e.get_reference_element(), 3))),
        (["KMV", T, 2], lambda e: X.create_quadrature(e.get_reference_element(), 2, scheme="KMV")),
        (["Lag", T, 2], lambda e: X.Argyris(e.get_reference_element(), 5)),
        (["Lag", T, 2], lambda e: X.Lagrange(e.get_reference_element(), 4)),
        (["RT", T, 2, "integral"], lambda e: X.BrezziDouglasMarini(e.get_reference_element(), 2, "integral")),
        (["N1", T, 2, "integral"], lambda e: X.Regge(e.get_reference_element(), 1)),
        (["Lag", "Tet", 2], lambda e: X.NedelecSecondKind(e.get_reference_element(), 1, "point")),
        (["Lag", T, 2], lambda e: X.HDivTrace(e.get_reference_element(), 1)),
        (["Lag", I, 3], lambda e: X.GaussLobattoLegendre(e.get_reference_element(), 6)),
    ]
    sel = [cases[int(i)] for i in rng.permutation(len(cases))[:8]]
    for spec, comp in sel:
        from FIAT import pointwise_dual
        fresh = C.build(spec)
        q = queries(spec, fresh, rng, True)
        base = {n: canon(ask(lambda: q[n](C.build(spec)))) for n in sorted(q)}
        e = C.build(spec)
        used = bool(rng.randint(2))
        if used:
            for n in sorted(q):
                ask(lambda: q[n](e))
        x = comp(e)
        if hasattr(x, "tabulate"):
            c = C.cell_of(spec)
            P = geom.random_points(c, 3, rng)
            ask(lambda: x.tabulate(2, P))
            ask(lambda: x.entity_dofs())
            ask(lambda: x.entity_closure_dofs())
            for n in sorted(q):
                if n.startswith("support"):
                    ask(lambda: q[n](x))
        if spec[0] in ("Lag", "KMV", "RT") and spec[1] == "T":
            ask(lambda: pointwise_dual.compute_pointwise_dual(e, [tuple(p) for p in geom.random_points("T", e.space_dimension(), rng)]))
        for n in sorted(q):
            r = same(canon(ask(lambda: q[n](e))), base[n], n)
            m.check("parents-unchanged", r is None, (C.name(spec), n), lambda: "%s changed by building and using another object from it: %s" % (C.name(spec), r))


def parts_unchanged(job, m, rng):
    """every composite of the catalogue, assembled from element objects that are examined before and after"""
    for spec in job["parts"]:
        P = C.parts(spec)
        objs = [C.build(s) for s in P]
        if spec[0] in ("TP", "Mix") and len(P) > 1 and P[0] == P[1]:
            objs[1] = objs[0]
        qs = [queries(s, C.build(s), rng, True) for s in P]
        base = [{n: canon(ask(lambda: q[n](C.build(s)))) for n in sorted(q)} for s, q in zip(P, qs)]
        x = C.assemble(spec, objs)
        y = C.assemble(spec, objs)
        xs = [x, y]
        q = queries(spec, x, rng, True)
        first = {n: canon(ask(lambda: q[n](x))) for n in sorted(q)}
        for i, s in enumerate(P):
            for n in sorted(qs[i]):
                r = same(canon(ask(lambda: qs[i][n](objs[i]))), base[i][n], n)
                m.check("parents-unchanged", r is None, (C.name(spec), i, n),
                        lambda: "part %s of %s changed by building and using it: %s" % (C.name(s), C.name(spec), r))
        for n in sorted(q):
            r = same(canon(ask(lambda: q[n](y))), first[n], n)
            m.check("parents-unchanged", r is None, (C.name(spec), "second", n),
                    lambda: "a second %s of the same parts differs from the first: %s" % (C.name(spec), r))
