"""Import the FIAT under test from the working tree, never from stale bytecode."""
import importlib
import os
import sys
import warnings

REPO = os.environ.get("FIATMON_REPO", "/repo")


class LoadFailure(Exception):
    pass


def load():
    warnings.simplefilter("ignore")
    import numpy, sympy, mpmath  # noqa: F401,E401  (keep their bytecode caches)
    try:
        import pkg_resources  # noqa: F401
    except Exception:
        pass
    if "FIAT" in sys.modules:
        return sys.modules["FIAT"]
    sys.path.insert(0, REPO)
    old = sys.pycache_prefix
    sys.pycache_prefix = "/nonexistent-fiatmon-pycache"
    sys.dont_write_bytecode = True
    try:
        FIAT = importlib.import_module("FIAT")
        import pkgutil
        for mod in pkgutil.iter_modules(FIAT.__path__):
            importlib.import_module("FIAT." + mod.name)
    finally:
        sys.pycache_prefix = old
    where = os.path.realpath(FIAT.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise LoadFailure("FIAT imported from %s, not from %s" % (where, REPO))
    warnings.simplefilter("ignore")
    # FIAT re-enables DeprecationWarnings while it runs; keep stdout/stderr quiet
    warnings.warn = lambda *a, **k: None
    return FIAT
