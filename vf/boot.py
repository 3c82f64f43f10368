"""Makes the clubs package of /repo's working tree importable.

The property library (Hypothesis) is only available for CPython 3.12, where the
standard module `imp` is gone; clubs/render/graphic.py imports it to find out
whether the web server packages are installed.  `imp` is replaced by the few
lines below if it is missing.  Nothing else of the tree is altered.  The parts
that need the web server run in the project's own interpreter (see props/c20).
"""
import importlib.util
import os
import sys
import types

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT", VERIF)


def _shim_imp() -> None:
    try:
        import imp  # noqa: F401
        return
    except ImportError:
        pass
    mod = types.ModuleType("imp")

    def find_module(name, path=None):
        spec = importlib.util.find_spec(name)
        if spec is None:
            raise ImportError(name)
        return None, spec.origin, ("", "", 0)

    mod.find_module = find_module
    sys.modules["imp"] = mod


def load():
    if "clubs" not in sys.modules:
        _shim_imp()
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
    import clubs

    where = os.path.realpath(clubs.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("clubs imported from %s, not from %s" % (where, REPO))
    return clubs
