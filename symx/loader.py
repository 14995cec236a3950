"""Loads the current /repo source of spreg so that numpy/scipy/math are the symbolic proxies."""
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import proxies as PX
from . import sym as Y

REPO = os.environ.get("VERIF_REPO", "/repo")
LOADED = {}


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        top = name.split(".")[0]
        if top in ("numpy", "scipy", "math", "multiprocessing"):
            if fromlist:
                m = PX.TABLE.get(name)
                if m is not None:
                    return m
                return builtins.__import__(name, globals, locals, fromlist, level)
            if "." in name and name not in PX.TABLE:
                builtins.__import__(name)
            return PX.TABLE[top]
    return builtins.__import__(name, globals, locals, fromlist, level)


BUILTINS = dict(vars(builtins))
BUILTINS["__import__"] = _import
BUILTINS["float"] = PX.symfloat


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        LOADED[module.__name__] = self.path
        code = compile(src, self.path, "exec", dont_inherit=True)
        module.__dict__["__builtins__"] = BUILTINS
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "spreg" and not name.startswith("spreg."):
            return None
        rel = name.split(".")
        base = os.path.join(REPO, *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            spec = importlib.util.spec_from_file_location(name, p, loader=Loader(p), submodule_search_locations=[base])
            return spec
        p = base + ".py"
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p))
        return None


def install():
    import libpysal
    import libpysal.weights.weights as ww
    import libpysal.weights.util as wu
    import libpysal.weights.set_operations as ws
    import libpysal.weights.spatial_lag as wl
    import pandas
    for m in (ww, wu, ws, wl):
        for k in list(vars(m)):
            v = vars(m)[k]
            n = getattr(v, "__name__", None)
            import types
            if isinstance(v, types.ModuleType) and n in PX.TABLE and n in ("numpy", "scipy", "scipy.sparse", "math"):
                setattr(m, k, PX.TABLE[n])
        if hasattr(m, "connected_components"):
            m.connected_components = PX._connected_components
    for k in [k for k in sys.modules if k == "spreg" or k.startswith("spreg.")]:
        del sys.modules[k]
    sys.meta_path.insert(0, Finder())


def load():
    install()
    import spreg
    for m in ("diagnostics", "diagnostics_sp", "diagnostics_panel", "diagnostics_probit", "diagnostics_sur",
              "diagnostics_tsls", "utils", "sputils", "user_output", "regimes", "robust", "sur_utils", "panel_utils",
              "w_utils", "output", "spsearch", "error_sp_het", "error_sp_hom", "error_sp", "twosls_sp", "ml_lag",
              "ml_error", "probit", "nslx", "dgp", "skater_reg", "sp_panels", "panel", "panel_fe", "panel_re"):
        try:
            __import__("spreg." + m)
        except ModuleNotFoundError:
            pass
    contracts()
    from . import cuts
    cuts.install("sym", PX.OPTSTUB)
    return spreg


def contracts():
    """the unbounded Neumann iteration is replaced by its limit; its partial sums are checked separately (P18)"""
    u = sys.modules.get("spreg.utils")
    orig = getattr(u, "power_expansion", None)
    if orig is None:
        return

    def power_expansion(w, data, scalar, post_multiply=False, threshold=1e-10, max_iterations=None):
        if max_iterations is not None or getattr(PX.OPTSTUB.ctx, "raw_power", False):
            return orig(w, data, scalar, post_multiply=post_multiply, threshold=threshold, max_iterations=max_iterations)
        from . import la
        from . import sparse as sp
        Y.S.assumptions.add("the Neumann iteration of (I - rho W)^-1 x is replaced by its limit (partial sums: P18)")
        ws = getattr(w, "sparse", w)
        W = ws.dense() if isinstance(ws, sp.SpMat) else la.to_obj(ws)
        M = la.inv(PX.eye(W.shape[0]) - W * scalar)
        return PX.dot(data.T, M) if post_multiply else PX.dot(M, data)
    power_expansion._orig = orig
    for n, m in list(sys.modules.items()):
        if (n == "spreg" or n.startswith("spreg.")) and getattr(m, "power_expansion", None) is orig:
            m.power_expansion = power_expansion
