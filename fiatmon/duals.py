"""Applying published degrees of freedom to tabulated functions."""
import numpy as np


def terms(ell):
    """[(point, weight, alpha or None, component)] with zero weights dropped"""
    out = []
    for pt, wcs in ell.get_point_dict().items():
        for w, c in wcs:
            if w != 0.0:
                out.append((tuple(float(x) for x in pt), float(w), None, c if isinstance(c, tuple) else (c,)))
    for pt, wacs in ell.deriv_dict.items():
        for w, a, c in wacs:
            if w != 0.0:
                out.append((tuple(float(x) for x in pt), float(w), tuple(int(z) for z in a),
                            c if isinstance(c, tuple) else (c,)))
    return out


def published(nodes):
    """indices of nodes that publish data"""
    out = []
    for i, ell in enumerate(nodes):
        if ell is None:
            continue
        if ell.get_point_dict() or ell.deriv_dict:
            out.append(i)
    return out


def action(nodes, idx, tab, sd, nfun):
    """matrix A[k, i] = node_{idx[k]} (function i); tab(order, points) -> dict of
    arrays (nfun, *vs, npts)"""
    T = [terms(nodes[k]) for k in idx]
    pts0 = sorted(set(t[0] for ts in T for t in ts if t[2] is None))
    pts1 = sorted(set(t[0] for ts in T for t in ts if t[2] is not None))
    order = max([sum(t[2]) for ts in T for t in ts if t[2] is not None] or [0])
    zero = (0,) * sd
    v0 = tab(0, pts0)[zero] if pts0 else None
    v1 = tab(order, pts1) if pts1 else None
    p0 = {p: j for j, p in enumerate(pts0)}
    p1 = {p: j for j, p in enumerate(pts1)}
    A = np.zeros((len(idx), nfun))
    for k, ts in enumerate(T):
        for pt, w, a, c in ts:
            if a is None:
                A[k] += w * v0[(slice(None),) + tuple(c) + (p0[pt],)]
            else:
                A[k] += w * v1[a][(slice(None),) + tuple(c) + (p1[pt],)]
    return A
