"""C13: support tables list exactly the basis functions living on an entity."""
import numpy as np

from fiatmon import catalog as C
from fiatmon import geom
from fiatmon.checks.c01 import OSPECS, VSPECS, sibling_jobs

RULE = ("one case = (element, entity, basis function): membership of the function in the published support table of the entity against "
        "its largest value on the entity, relative to its largest value on the cell, at an oracle-chosen unisolvent point set; "
        "non-trivial = the table of that entity is neither empty nor full")
REQUIRED = {"oracle:support": 40000, "event:nonzero": 15000, "event:zero": 8000, "oracle:nested": 1500, "oracle:stable": 1500}
ASSUMPTIONS = ["mixed elements publish no degree() and are not accepted by entity_support_dofs",
               "a function is zero on an entity when it is below 1e-8 of its largest value on the cell and non-zero above 1e-5; nothing in between is judged"]
LO, HI = 1e-8, 1e-5


def has_mixed(s):
    return s[0] == "Mix" or (s[0] in C.COMPOSITE and any(has_mixed(x) for x in s[1:] if isinstance(x, (list, tuple))
                                                          and x and isinstance(x[0], str)))


def jobs(tier, seed):
    out = []
    cost = lambda s: geom.sdim(C.cell_of(s)) ** 3 + (s[-1] if isinstance(s[-1], int) else 1)
    for s in C.all_specs(tier) + C.high_specs(tier):
        if not has_mixed(s):
            out.append({"key": C.name(s), "spec": s, "cost": cost(s)})
    extra = [["DT", "I", 6], ["DT", "I", 8], ["DT", "T", 5], ["Lag", "I", 12], ["Bern", "I", 10], ["GLL", "I", 12], ["GL", "I", 12],
             ["Arg", "T", 7], ["DPC", "Q", 7], ["S", "Q", 8], ["DG", "T", 7]]
    have = set(j["key"] for j in out)
    out += [{"key": C.name(s), "spec": s, "cost": 3} for s in extra if C.name(s) not in have]
    for s in OSPECS:
        out.append({"key": C.name(list(s)), "spec": list(s), "cost": 2})
    for s in C.trace_specs(tier):
        if not geom.is_simplex(s[1]):
            continue        # documented: no tabulation in cell coordinates
        out.append({"key": C.name(s), "spec": s, "trace": 1, "cost": 4})
    reps = 1 if tier == "quick" else 4
    for s in [s for s in VSPECS if s[0] != "KMV"] + [("Lag", "T", 2), ("DG", "Tet", 1), ("RT", "T", 1, "point"), ("Lag", "I", 3), ("DT", "T", 3)]:
        for rep in range(reps):
            for sc in (1.0, 1e-3, 50.0):
                out.append({"key": "rnd%d:%g:%s" % (rep, sc, C.name(list(s))), "random": list(s), "scale": sc, "cost": 3})
    out += sibling_jobs(scale=1.0)
    out += [j for j in C.lookalikes() if not has_mixed(j["together"][0])]
    return C_dedup(out)


def C_dedup(jobs):
    seen, out = set(), []
    for j in jobs:
        if j["key"] not in seen:
            seen.add(j["key"])
            out.append(j)
    return out


def amax(v):
    """(nbf, *vs, npts) -> (nbf,)"""
    v = np.abs(np.asarray(v, float))
    return v.reshape(v.shape[0], -1).max(axis=1)


def run(job, m):
    from FIAT.finite_element import entity_support_dofs
    spec = job.get("spec")
    rng = m.rng()
    if "random" in job:
        base = job["random"]
        v = geom.random_simplex(base[1], rng)
        v[2] = (np.array(v[2]) * job["scale"]).tolist()
        spec = [base[0], v] + base[2:]
    trace = bool(job.get("trace"))
    e = C.build(spec)
    cell = e.get_reference_element()
    sd = cell.get_spatial_dimension()
    zero = (0,) * sd
    ents = geom.entities(cell)
    dims = sorted(set(d for d, _ in ents), key=lambda d: (geom.tdim(d), str(d)))
    if trace:
        dims = [d for d in dims if geom.tdim(d) == sd - 1]
    tables = {}
    order = list(dims)
    rng.shuffle(order)
    for d in order:
        tables[d] = {k: list(v) for k, v in entity_support_dofs(e, d).items()}
    nd = e.space_dimension()
    if trace:
        scale = None
    else:
        # a set of cell points fine enough that no basis function is small on all of them
        try:
            deg = int(e.degree()) + 1
        except Exception:
            deg = 6
        cp, _ = geom.cell_rule(C.cell_of(spec), 2 * min(deg, 8) if sd < 3 else 8)
        scale = amax(e.tabulate(0, [tuple(map(float, p)) for p in cp])[zero])
    deg = 6 if trace else min(int(e.degree()) + 3, 16)
    alltab, allsz = {}, {}
    for d in dims:
        m.check("ids", sorted(tables[d]) == sorted(en for dd, en in ents if dd == d), d,
                lambda: "entities %s" % sorted(tables[d]))
        for en in sorted(tables[d]):
            pts, _ = geom.entity_rule(cell, d, en, min(2 * deg, 24 if geom.tdim(d) < 2 else (16 if geom.tdim(d) < 3 else 10)))
            pts = [tuple(map(float, p)) for p in pts]
            sup = amax(e.tabulate(0, pts)[zero])
            allsz[d, en] = sup
        sc = scale
        if trace:
            sc = np.max([allsz[d, en] for en in tables[d]], axis=0)
            sc = np.max([allsz[dd, en] for dd in dims for en in tables[dd] if (dd, en) in allsz], axis=0)
            sc = np.where(sc > 0, sc, 1.0)
        for en in sorted(tables[d]):
            rel = allsz[d, en] / sc
            got = tables[d][en]
            m.check("list", len(set(got)) == len(got) and all(0 <= i < nd for i in got), (d, en), lambda: "table %s" % got)
            g = set(got)
            triv = not (0 < len(g) < nd)
            for i in range(nd):
                if LO < rel[i] < HI:
                    m.count("ambiguous")
                    continue
                nz = bool(rel[i] >= HI)
                m.count("event:nonzero" if nz else "event:zero")
                m.check("support", (i in g) == nz, (d, en, i),
                        lambda: "basis function %d reaches %.3g of its cell maximum on entity %s but is %s the support table"
                        % (i, rel[i], (d, en), "in" if i in g else "not in"), nontrivial=not triv)
    # support on a sub-entity implies support on the entity
    top = cell.get_topology()
    for d in dims:
        for en in tables[d]:
            for (d2, e2) in ents:
                if d2 in tables and geom.tdim(d2) < geom.tdim(d) and set(top[d2][e2]) <= set(top[d][en]):
                    m.check("nested", set(tables[d2][e2]) <= set(tables[d][en]), ((d, en), (d2, e2)),
                            lambda: "support of %s: %s, of its sub-entity %s: %s" % ((d, en), tables[d][en], (d2, e2), tables[d2][e2]))
    # asking again, or on a fresh element in the natural order
    for d in dims:
        m.check("stable", {k: list(v) for k, v in entity_support_dofs(e, d).items()} == tables[d], ("again", d))
    fresh = C.build(spec) if sd < 3 else e
    for d in reversed(dims):
        m.check("stable", {k: list(v) for k, v in entity_support_dofs(fresh, d).items()} == tables[d], ("fresh", d))
