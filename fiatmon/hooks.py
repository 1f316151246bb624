"""Instrumentation of the running library.

Wraps (from outside, nothing in /repo changes) every `tabulate` and `__init__`
of the element classes and every quadrature rule constructor, including the
calls FIAT makes internally.  Each call becomes an event; the on-line monitors
below look at every event, whoever made the call.

 M-ARG    the points handed in are unchanged on return            (C12)
 M-KEYS   one array per multi-index, leading dimension = space    (C20)
 M-QUAD   as many weights as points                               (C04)
"""
import functools

import numpy as np

_CUR = {"m": None, "prop": None, "depth": 0}
ENABLED = {"C12": "args", "C20": "shape", "C04": "quad"}


def begin(m):
    _CUR["m"] = m
    _CUR["depth"] = 0


def end(m):
    _CUR["m"] = None


def _freeze(points):
    try:
        return [tuple(float(c) for c in p) for p in points]
    except Exception:
        return None


def _nmis(d, order):
    from math import comb
    return comb(d + order, order)


def _wrap_tab(cls, orig):
    @functools.wraps(orig)
    def tabulate(self, order, points, *a, **k):
        m = _CUR["m"]
        if m is None:
            return orig(self, order, points, *a, **k)
        _CUR["depth"] += 1
        top = _CUR["depth"] == 1
        want = _CUR["prop"]
        m.count("event:tabulate" if top else "event:tabulate(internal)")
        before = _freeze(points) if want == "C12" and not hasattr(points, "__next__") else None
        try:
            res = orig(self, order, points, *a, **k)
        finally:
            _CUR["depth"] -= 1
        if before is not None:
            m.count("monitor:M-ARG")
            if _freeze(points) != before:
                m.observe("M-ARG", cls.__name__)
                m.fail("M-ARG", cls.__name__, "tabulate changed the points passed to it")
        if want == "C20" and isinstance(res, dict) and res:
            try:
                sd = self.get_reference_element().get_spatial_dimension()
                n = self.space_dimension()
            except Exception:
                return res
            m.count("monitor:M-KEYS")
            bad = None
            if len(res) != _nmis(sd, order):
                bad = "%d arrays for order %d in %dD" % (len(res), order, sd)
            else:
                for key, arr in res.items():
                    if isinstance(arr, Exception):
                        continue
                    if not (isinstance(key, tuple) and len(key) == sd):
                        bad = "key %r" % (key,)
                    elif np.shape(arr)[:1] != (n,):
                        bad = "array of shape %s for %d basis functions" % (np.shape(arr), n)
            if bad:
                m.observe("M-KEYS", cls.__name__)
                m.fail("M-KEYS", cls.__name__, bad)
        return res
    tabulate._fiatmon = True
    return tabulate


def _wrap_init(cls, orig):
    @functools.wraps(orig)
    def __init__(self, *a, **k):
        m = _CUR["m"]
        if m is not None and type(self) is cls:
            m.count("event:construct " + cls.__name__)
        return orig(self, *a, **k)
    __init__._fiatmon = True
    return __init__


def _wrap_quad(cls, orig):
    @functools.wraps(orig)
    def __init__(self, *a, **k):
        r = orig(self, *a, **k)
        m = _CUR["m"]
        if m is not None and type(self) is cls:
            m.count("event:quadrature rule")
            if _CUR["prop"] == "C04":
                m.count("monitor:M-QUAD")
                try:
                    ok = len(self.get_points()) == len(self.get_weights())
                except Exception:
                    ok = False
                if not ok:
                    m.observe("M-QUAD", cls.__name__)
                    m.fail("M-QUAD", cls.__name__, "points and weights do not correspond")
        return r
    __init__._fiatmon = True
    return __init__


def _subclasses(c):
    out = []
    for s in c.__subclasses__():
        out += [s] + _subclasses(s)
    return out


def install(prop):
    _CUR["prop"] = prop
    import FIAT
    base = FIAT.FiniteElement
    for cls in [base] + _subclasses(base):
        d = cls.__dict__
        if "tabulate" in d and callable(d["tabulate"]) and not getattr(d["tabulate"], "_fiatmon", False):
            setattr(cls, "tabulate", _wrap_tab(cls, d["tabulate"]))
        if "__init__" in d and not getattr(d["__init__"], "_fiatmon", False):
            setattr(cls, "__init__", _wrap_init(cls, d["__init__"]))
    from FIAT import quadrature
    qbase = quadrature.QuadratureRule
    for cls in [qbase] + _subclasses(qbase):
        d = cls.__dict__
        if "__init__" in d and not getattr(d["__init__"], "_fiatmon", False):
            setattr(cls, "__init__", _wrap_quad(cls, d["__init__"]))
