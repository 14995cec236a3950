"""Every estimator of the package on small data, built and read in one way (used by P29, P30, P31, P32 and P36)."""
import inspect
import re
import numpy as np
import pandas as pd
from common import *
from p16_gmreg import SPLIT10, SPLIT12
from p22_panel import graph as pgraph
from p19_sur import YS, DS
from p23_panelml import KLEIN

CROSS = ["OLS", "TSLS", "GM_Lag", "ML_Lag", "ML_Error",
         "GM_Error", "GM_Endog_Error", "GM_Combo", "GM_Error_Hom", "GM_Endog_Error_Hom", "GM_Combo_Hom",
         "GM_Error_Het", "GM_Endog_Error_Het", "GM_Combo_Het"]
TRI12 = {i: [(i + 3) % 12, (i + 9) % 12] + ([(i + 6) % 12] if i < 3 else []) for i in range(12)}     # one component per residue modulo 3
REGIMES = ["OLS_Regimes", "TSLS_Regimes", "GM_Lag_Regimes", "ML_Lag_Regimes", "ML_Error_Regimes"] + \
          [n + "_Regimes" for n in CROSS[5:]]
PANELS = ["PooledOLS", "PanelFE", "PanelRE", "GM_ErrorPooled", "ML_ErrorPooled", "GM_ErrorRE", "ML_ErrorFE", "ML_ErrorRE", "ML_LagFE",
          "ML_LagRE", "Panel_FE_Lag", "Panel_FE_Error", "Panel_RE_Lag", "Panel_RE_Error", "GM_KKP"]
SURS = ["SUR", "SURerrorGM", "SURerrorML", "SURlagIV", "ThreeSLS"]
WX = ["GM_Error", "GM_Endog_Error", "GM_Combo"]


def takes(cls, a):
    return a in inspect.signature(cls.__init__).parameters


def moment(name):
    return name.startswith(("GM_Error", "GM_Endog", "GM_Combo", "GMM_", "GM_KKP", "SURerrorGM"))


def twostage(name):
    return "_Hom" in name or "_Het" in name


class Zoo:
    """one estimator call: cls, kw (keyword arguments, all of them fresh objects)"""
    limit = None
    skip = ()

    def fit(z, ctx, **kw):
        """the model, or None for executions outside the bounds"""
        c = dict(z.kw, **kw)
        if z.limit is None:
            return z.cls(**c)
        try:
            return ctx.limited(len(ctx.opt.calls) + z.limit, lambda: z.cls(**c))
        except UnboundLocalError:
            if z.name != "SURerrorML":
                raise
            return None         # settled before the first step (likelihood within epsilon of zero): no estimate


def cross(ctx, spreg, name, **o):
    """cross-section estimators, with and without regimes"""
    z = Zoo()
    z.name, z.cls = name, getattr(spreg, name)
    reg = "Regimes" in name or o.get("regimes")
    sep = bool(o.get("sep"))
    moment(name) and ctx.cut("optim_moments")
    if o.get("opaque", moment(name)):
        ctx.opaque()
    if reg and o.get("cutchow", twostage(name)):
        ctx.cut("chow")
        z.skip = ("chow", "output_chow")
    if twostage(name) and o.get("pin"):
        ctx.pin = lambda i: i % 2 == 0          # the first step's parameter is fixed, the second step's symbolic
    s = o.get("s") or ("split12" if sep and reg and "Combo" in name else "split10" if sep and reg else "d8" if reg else "d8" if o.get("n") == 8 else "d6")
    nb = dict(tri12=TRI12, split10=SPLIT10, split12=SPLIT12, d8=D8, d6=D6, g8=G8, g6=G6, k5=K5)[s]
    n = z.n = len(nb)
    wt = o.get("weights")
    z.w = ctx.W(nb, wt and {i: [ctx.num(v) for v in r] for i, r in wt.items()}, transform=o.get("transform", "r"))
    if o.get("y"):
        y = o["y"](ctx, n)
    else:
        y = cols(ctx, Y0, n=n) if o.get("ycon", moment(name) or name.startswith("ML")) else yline(ctx, n)
    if o.get("ydiv"):
        y = y / ctx.num(o["ydiv"])
    kx = o.get("kx", 1)
    x = cols(ctx, X1, X2, n=n)[:, :kx]
    z.nx = ["p", "q"][:kx]
    z.kw = dict(y=y, x=x, name_y="yy", name_x=list(z.nx), name_ds="data")
    if takes(z.cls, "w") and o.get("w", True):
        z.kw.update(w=z.w, name_w="weights")
    if reg:
        z.regs = list(o.get("regs") or (["b" if i % 2 == 0 else "a" for i in range(n)] if s.startswith("split") else ["bca"[i % 3] for i in range(n)] if s == "tri12" else REG8))[:n]
        z.kw.update(regimes=z.regs, name_regimes="zone")
        if takes(z.cls, "constant_regi"):
            z.kw.update(constant_regi=o.get("const", "many"), cols2regi=o.get("cols", "all"))
        if takes(z.cls, "regime_err_sep"):
            z.kw["regime_err_sep"] = sep
        if takes(z.cls, "regime_lag_sep"):
            z.kw["regime_lag_sep"] = sep and (name.startswith(("GM_Lag", "ML_Lag", "GM_Combo")))
    endo = o.get("endo", not takes(z.cls, "w_lags") and name not in ("GMM_Error", "GMM_Error_Regimes"))
    if takes(z.cls, "yend") and endo:
        nq = o.get("nq", 1)
        z.kw.update(yend=cols(ctx, YE, n=n), q=cols(ctx, Q1, Q2, n=n)[:, :nq], name_yend=["e"], name_q=["h", "i"][:nq])
    if o.get("slx"):
        z.kw["slx_lags"] = o["slx"]
        if o.get("vars"):
            z.kw["slx_vars"] = list(o["vars"])
    if takes(z.cls, "nonspat_diag"):
        z.kw["nonspat_diag"] = o.get("diag", False)
    if takes(z.cls, "spat_diag"):
        z.kw["spat_diag"] = o.get("sdiag", False)
    if takes(z.cls, "spat_impacts"):
        z.kw["spat_impacts"] = o.get("impacts")
    if takes(z.cls, "robust") and (o.get("robust") or "Regimes" in name):
        z.kw["robust"] = o.get("robust")
        if o.get("robust") == "hac":
            z.kw.update(gwk=kernel_case(ctx, n, sym=False)[0], name_gwk="kern")
    if takes(z.cls, "inv_method") and reg:
        z.kw["inv_method"] = "true_inv"
    z.kw.update(o.get("kw", {}))
    return z


def panel(ctx, spreg, name, **o):
    z = Zoo()
    z.name, z.cls = name, getattr(spreg, name)
    relag = name in ("ML_LagRE", "Panel_RE_Lag")
    N, T = o.get("N", 3 if relag else 4), o.get("T", 2)
    n = z.n = N * T
    if moment(name):
        ctx.cut("optim_moments")
    if o.get("opaque", moment(name) or name.startswith(("ML", "Panel_"))):
        ctx.opaque()
    if relag:
        z.limit = 2
    if name in ("ML_ErrorRE", "Panel_RE_Error"):
        if name == "Panel_RE_Error":
            z.skip = ("e_filtered",)        # depends on the signs of eigenvectors
        nb, wt = KLEIN
        z.w = ctx.W(nb, wt if ctx.mode == "sym" else {i: [float(v) for v in r] for i, r in wt.items()}, transform="o")
    else:
        z.w = ctx.W(pgraph(N), transform=o.get("transform", "r"))
    line = not (moment(name) or name.startswith(("ML", "Panel_")))
    y = o["y"](ctx, n) if o.get("y") else (yline(ctx, n) if line else ctx.col(Y0[:n]))
    x = cols(ctx, X1, X2, n=n)[:, :o.get("kx", 1)]
    z.nx = ["v0", "v1"][:x.shape[1]]
    if o.get("wide"):
        y = np.hstack([y[t * N:(t + 1) * N] for t in range(T)])
        x = np.hstack([x[t * N:(t + 1) * N, [j]] for j in range(x.shape[1]) for t in range(T)])
        z.kw = dict(y=y, x=x, w=z.w, name_y=["yy%d" % t for t in range(T)], name_x=["v%s%d" % (c, t) for c in "ab"[:len(z.nx)] for t in range(T)])
    else:
        z.kw = dict(y=y, x=x, w=z.w, name_y="yy", name_x=list(z.nx))
    z.kw.update(name_w="weights", name_ds="data")
    if o.get("slx"):
        z.kw["slx_lags"] = o["slx"]
        if o.get("vars"):
            z.kw["slx_vars"] = list(o["vars"])
    if takes(z.cls, "nonspat_diag"):
        z.kw["nonspat_diag"] = o.get("diag", False)
    if takes(z.cls, "spat_diag"):
        z.kw["spat_diag"] = o.get("sdiag", False)
    if takes(z.cls, "spat_impacts"):
        z.kw["spat_impacts"] = o.get("impacts")
    z.kw.update(o.get("kw", {}))
    return z


def system(ctx, spreg, name, **o):
    z = Zoo()
    z.name, z.cls = name, getattr(spreg, name)
    n = z.n = o.get("n", 6 if name == "SURerrorML" else 8 if not o.get("regimes") else 14)
    N = 2
    if name == "SURerrorGM":
        ctx.cut("optim_moments")
    if name == "SURerrorML":
        ctx.cut("sur_est:sur_error")
        z.limit = 3
    if o.get("opaque", True):
        ctx.opaque()
    for c in o.get("cuts", ()):
        ctx.cut(c)
    line = o.get("line", name in ("SUR", "ThreeSLS", "SURlagIV"))
    s = ctx.var("s", F(3, 7)) if line else None
    ys = {r: (ctx.col(YS[r][:n]) + ctx.col(DS[r][:n]) * s if line else ctx.col(YS[r][:n])) for r in range(N)}
    xs = {r: const(ctx, cols(ctx, *c, n=n)) for r, c in enumerate(o.get("xs", ([X1], [X1] if name == "SURerrorML" else [X2])))}
    from p14_tslsreg import G14
    z.w = ctx.W({8: D8, 6: D6, 14: G14}[n])
    z.kw = dict(bigy=ys, bigX=xs, name_bigy={r: "y%d" % r for r in range(N)},
                name_bigX={r: ["c%d" % r] + ["x%d_%d" % (i, r) for i in range(1, xs[r].shape[1])] for r in range(N)}, name_ds="data")
    if takes(z.cls, "w") and o.get("w", name != "SUR"):
        z.kw.update(w=z.w, name_w="weights")
    if o.get("endo", name == "ThreeSLS"):
        z.kw.update(bigyend={0: cols(ctx, YE, n=n), 1: cols(ctx, Q2, n=n)}, bigq={0: cols(ctx, Q1, n=n), 1: cols(ctx, RES, n=n)},
                    name_bigyend={r: ["e%d" % r] for r in range(N)}, name_bigq={r: ["h%d" % r] for r in range(N)})
    if o.get("regimes"):
        z.kw.update(regimes=list(o["regimes"])[:n], name_regimes="zone")
    if takes(z.cls, "nonspat_diag"):
        z.kw["nonspat_diag"] = o.get("diag", False)
    if takes(z.cls, "spat_diag"):
        z.kw["spat_diag"] = o.get("sdiag", False)
    if name == "SURerrorML":
        z.kw["epsilon"] = o.get("eps", 4.0)
    z.kw.update(o.get("kw", {}))
    return z


def make(ctx, spreg, name, **o):
    return (panel if name in PANELS else system if name in SURS else cross)(ctx, spreg, name, **o)


# ---- reading ------------------------------------------------------------------------------------------------------------------
LAZY = ["utu", "sig2n", "sig2n_k", "vm", "mean_y", "std_y", "z", "h"]
NUM = re.compile(r"-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+")


def is_num(v):
    return isinstance(v, (int, float, complex, np.number)) and not isinstance(v, bool) or type(v).__name__ in ("Sym", "CSym")


def values(m, seen=None, depth=0):
    """everything a model holds: {path: ('num', flat values, shape) | ('text', text)}"""
    out = {}
    seen = seen if seen is not None else set()
    if id(m) in seen or depth > 4:
        return out
    seen.add(id(m))
    d = dict(vars(m))
    if depth == 0:
        for k in LAZY:
            if k not in d:
                try:
                    d[k] = getattr(m, k)
                except AttributeError:
                    pass
    for k in sorted(d):
        if k.startswith("__") or k in ("_cache", "title_"):
            continue
        put(out, k, d[k], seen, depth)
    return out


def put(out, k, v, seen, depth):
    if v is None or isinstance(v, (bool, str)):
        out[k] = ("text", repr(v))
    elif is_num(v):
        out[k] = ("num", [v], ())
    elif isinstance(v, np.ndarray):
        if v.dtype.kind in "OfcibuU" and v.size and (v.dtype.kind in "fcibu" or is_num(v.reshape(-1)[0])):
            out[k] = ("num", list(v.reshape(-1)), v.shape)
        else:
            out[k] = ("text", repr(v.tolist()))
    elif hasattr(v, "toarray"):
        put(out, k, v.toarray(), seen, depth)
    elif isinstance(v, pd.DataFrame):
        for c in v.columns:
            put(out, "%s[%s]" % (k, c), list(v[c]), seen, depth)
    elif isinstance(v, dict):
        for kk in v:
            put(out, "%s[%r]" % (k, kk), v[kk], seen, depth + 1)
    elif isinstance(v, (list, tuple)):
        if all(is_num(e) for e in v):
            out[k] = ("num", list(v), (len(v),))
        else:
            for i, e in enumerate(v):
                put(out, "%s[%d]" % (k, i), e, seen, depth + 1)
    elif hasattr(v, "transform") and hasattr(v, "neighbors"):
        out[k] = ("text", "W %s" % v.transform)
    elif callable(v):
        pass
    elif hasattr(v, "__dict__") and type(v).__module__.startswith("spreg"):
        for kk, vv in values(v, seen, depth + 1).items():
            out[k + "." + kk] = vv


def same(ctx, what, a, b, skip=()):
    """two readings are the same"""
    ctx.prove_true(what + ": the same attributes", sorted(a) == sorted(b), sorted(set(a) ^ set(b)))
    for k in a:
        if k not in b or re.split(r"[.\[]", k)[0] in skip or skip and k == "summary":
            continue
        if a[k][0] != b[k][0]:
            ctx.prove_true("%s: %s" % (what, k), False, (a[k][:1], b[k][:1]))
        elif a[k][0] == "text" and (len(a[k][1]) > 200 or k.split(".")[-1].startswith("other_")):
            printed(ctx, "%s: %s" % (what, k), a[k][1], b[k][1])
        elif a[k][0] == "text":
            ctx.prove_true("%s: %s" % (what, k), a[k][1] == b[k][1], (a[k][1][-90:], b[k][1][-90:]))
        else:
            ctx.prove_true("%s: shape of %s" % (what, k), a[k][2] == b[k][2], (a[k][2], b[k][2]))
            if len(a[k][1]) == len(b[k][1]):
                equal(ctx, "%s: %s" % (what, k), a[k][1], b[k][1])


def equal(ctx, label, a, b):
    """elementwise equality; not-a-number and infinite entries must agree"""
    def odd(v):
        try:
            return isinstance(v, (float, np.floating)) and (v != v or v in (np.inf, -np.inf))
        except TypeError:
            return False
    oa, ob = [odd(v) for v in a], [odd(v) for v in b]
    if any(oa) or any(ob):
        ctx.prove_true(label + " (not finite)", oa == ob)
    g = [(u, v) for u, v, i, j in zip(a, b, oa, ob) if not i and not j]
    if g:
        ctx.prove_eq(label, [u for u, v in g], [v for u, v in g])


def printed(ctx, label, a, b, dec=4):
    """two texts are the same, the figures in them included"""
    apart = lambda t: re.sub(r"(\.\d{6})(?=[-\d])", r"\1 ", t)       # wide figures in columns of six decimals touch
    a, b = apart(a), apart(b)
    sk = lambda t: re.sub(r"\s+", " ", NUM.sub("#", t))
    ctx.prove_true(label + " (text)", sk(a) == sk(b), (sk(a)[:100], sk(b)[:100]))
    na, nb = NUM.findall(a), NUM.findall(b)
    if len(na) != len(nb):
        return
    bad = []
    for u, v in zip(na, nb):
        u, v = float(u), float(v)
        if ctx.mode == "sym":
            su, sv = ctx.shown(str(u)), ctx.shown(str(v))
            if su is not None and sv is not None:
                d = su - sv
                if not (d.is_const() and d.const() == 0):
                    bad.append((u, v))
                continue
        if abs(u - v) > 1.5 * 10.0 ** -dec * max(1, abs(u)):
            bad.append((u, v))
    ctx.prove_true(label, not bad, bad)
