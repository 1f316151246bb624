"""C08: tabulating on an entity equals tabulating at the mapped cell points."""
import numpy as np

from fiatmon import catalog as C
from fiatmon import geom, poly
from fiatmon.checks.c01 import OSPECS, VSPECS, sibling_jobs

RULE = ("one case = element x entity x derivative order: the arrays returned for points in the entity's reference coordinates against "
        "the arrays returned for the images (computed by the oracle) in cell coordinates; non-trivial = some value is non-zero")
REQUIRED = {"oracle:entity-tabulation": 8000, "oracle:whole-cell": 1000, "event:tabulate": 8000, "entities": 4000, "oracle:default-entity": 350}
ASSUMPTIONS = ["trace elements are judged in C16"]


def jobs(tier, seed):
    out = []
    for s in C.all_specs(tier):
        out.append({"key": C.name(s), "spec": s, "cost": geom.sdim(C.cell_of(s)) ** 2 + (s[-1] if isinstance(s[-1], int) else 1)})
    for s in OSPECS:
        out.append({"key": C.name(list(s)), "spec": list(s), "cost": 2})
    for s in VSPECS + [("Bern", "T", 3), ("Bern", "Tet", 2), ("Bern", "I", 3)]:
        for rep in range(1 if tier == "quick" else 4):
            out.append({"key": "rnd%d:%s" % (rep, C.name(list(s))), "random": list(s), "rep": rep, "cost": 3})
    out += sibling_jobs()
    out += C.lookalikes()
    return out


def ref_coords(cell, d, lam):
    """points of the entity's own reference cell with barycentric coordinates lam (one array per factor)"""
    sub = cell.construct_subelement(d)
    facs = geom.cell_factors_obj(sub)
    lam = [l for l in lam]
    out = []
    for l, f in zip(lam, [f for f in facs]):
        out.append(l @ f)
    return np.hstack(out)


def run(job, m):
    spec = job.get("spec")
    rng = m.rng()
    if "random" in job:
        base = job["random"]
        spec = [base[0], geom.random_simplex(base[1], rng)] + base[2:]
    e = C.build(spec)
    cell = e.get_reference_element()
    sd = cell.get_spatial_dimension()
    th = m.tier == "thorough"
    omax = (2 if sd <= 2 else 1) + (1 if th else 0)
    heavy = "S" == spec[0] and sd == 3
    for n, (d, en) in enumerate(geom.entities(cell)):
        m.count("entities")
        td = geom.tdim(d)
        facs = geom.entity_factors(cell, d, en)
        q = 1 if td == 0 else 4
        lam = []
        for f in facs:
            l = rng.exponential(size=(q, len(f)))
            if q > 2 and len(f) > 1:
                l[0] = 0
                l[0, rng.randint(len(f))] = 1.0      # a vertex of the factor
                l[1] = 1.0                            # its centroid
            lam.append(l / l.sum(axis=1)[:, None])
        image = np.hstack([l @ f for l, f in zip(lam, facs)])
        if td == sd:
            loc = image
        else:
            subf = sub_factors(cell, d, facs)
            loc = np.hstack([l @ f for l, f in zip(lam, subf)])
        order = 0 if heavy and n % 5 else (omax if n % 3 == 0 or td == sd else min(1, omax))
        lp = [tuple(float(z) for z in p) for p in loc]
        ip = [tuple(float(z) for z in p) for p in image]
        a = e.tabulate(order, lp, (d, en))
        b = e.tabulate(order, ip)
        m.check("key-set", set(a) == set(b) == set(poly.mis_upto(sd, order)), (d, en, order), lambda: "keys %s against %s" % (sorted(a), sorted(b)))
        for k in b:
            if k in a:
                B = np.asarray(b[k], float)
                m.close("entity-tabulation" if td < sd else "whole-cell", np.asarray(a[k], float), B, 1e-9, (d, en, k),
                        scale=max(1.0, float(np.abs(B).max()) if B.size else 1.0))
    # omitting the entity means the cell
    full = max((x for x in cell.get_topology()), key=geom.tdim)
    P = geom.random_points(C.cell_of(spec), 3, rng, spread=0.3)
    a, b, c = e.tabulate(1, P), e.tabulate(1, P, (full, 0)), e.tabulate(1, P, entity=None)
    for k in a:
        m.close("default-entity", b[k], np.asarray(a[k], float), 1e-12, ("cell", k), scale=max(1.0, float(np.abs(a[k]).max())))
        m.close("default-entity", c[k], np.asarray(a[k], float), 1e-12, ("None", k), scale=max(1.0, float(np.abs(a[k]).max())))


UNIT = {1: np.zeros((1, 0)), 2: np.array([[0.], [1.]]), 3: np.array([[0., 0.], [1., 0.], [0., 1.]]),
        4: np.array([[0., 0., 0.], [1., 0., 0.], [0., 1., 0.], [0., 0., 1.]])}


def sub_factors(cell, d, facs):
    """reference vertices of the entity's factors: the library's sub-element for cells with another convention
    (judged in C05), the UFC ones otherwise"""
    if getattr(cell, "cells", None) is None and not hasattr(cell, "product"):
        nm = type(cell).__name__
        if nm.startswith("Default") or nm.startswith("Intrepid"):
            return geom.cell_factors_obj(cell.construct_subelement(d))
    return [UNIT[len(f)] for f in facs]
