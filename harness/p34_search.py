"""specification searches: every vector of test p-values in (0, 1) and every threshold, 1..2 regressors, every single estimator that can
refuse (parameters out of bounds); the estimators are stood in for by objects with symbolic p-values, except in the 'real' cases, where
data are fixed and the threshold is symbolic.  Ties (a p-value equal to the threshold, two equal p-values) are outside the bounds."""
import contextlib
import io
import sys
from symx.ctx import add_case
from common import *
from fractions import Fraction as F


class Tie(Exception):
    pass


class Bench:
    """records the models estimated and hands out their p-values"""

    def __init__(self, ctx, kx, fail):
        self.ctx, self.kx, self.fail = ctx, kx, set(fail)
        self.made, self.cache = [], {}

    def pv(self, name):
        if name not in self.cache:
            i = len(self.cache)
            self.cache[name] = self.ctx.var("p_" + name, F((7 * i * i + 5 * i + 3) % 19 + 1, 21), 0, 1)
        return self.cache[name]

    def pair(self, name):
        return (self.ctx.num(F(3, 2)), self.pv(name))


class Stand:
    def __init__(self, y, x, w=None, slx_lags=0, add_wy=False, w_lags=1, hard_bound=False, name_y=None, name_x=None, name_w=None,
                 name_ds=None, latex=False, spat_diag=False, **kw):
        b = Stand.bench
        self.kind = self.what(int(slx_lags), bool(add_wy))
        self.args = (y, x, w)
        self.w_lags, self.hard_bound, self.rest = w_lags, hard_bound, kw
        self.latex = latex
        self.name_y = name_y if name_y else "dep_var"
        self.name_x = ["CONSTANT"] + (list(name_x) if name_x else ["var_%d" % (i + 1) for i in range(b.kx)])
        if slx_lags:
            self.name_x = self.name_x + ["W_" + v for v in self.name_x[1:]]
        self.name_w, self.name_ds = name_w, name_ds
        b.made.append(self)
        if self.kind in b.fail:
            raise Exception("parameters outside bounds")
        self.summary = "summary of " + self.kind
        k = self.kind
        if k in ("OLS", "SLX"):
            for t in ("lm_error", "lm_lag", "rlm_error", "rlm_lag", "lm_sarma", "lm_wx", "rlm_wx", "rlm_durlag", "lm_spdurbin"):
                setattr(self, t, b.pair(k + "_" + t))
        else:
            g = ["gamma%d" % i for i in range(b.kx)] if slx_lags else []
            g += ["rho"] if k in ("LAG", "SDM", "SARSAR", "GNS") else []
            g += ["lambda"] if k in ("ERROR", "SLX-ERR", "SARSAR", "GNS") else []
            one = self.name_x[:1 + b.kx]
            self.z_stat = [(b.ctx.num(2), b.ctx.num(F(1, 50))) for v in one] + [b.pair(k + "_" + v) for v in g]
            self.cfh_test = b.pair(k + "_cfh") if k == "SDM" else None


class StandOLS(Stand):
    def what(self, slx, wy):
        return "SLX" if slx else "OLS"


class StandLag(Stand):
    def what(self, slx, wy):
        return "SDM" if slx else "LAG"


class StandError(Stand):
    def what(self, slx, wy):
        return {(0, 0): "ERROR", (0, 1): "SARSAR", (1, 0): "SLX-ERR", (1, 1): "GNS"}[slx, int(wy)]


class StandAK:
    def __init__(self, m, w, case="nosp"):
        self.p = Stand.bench.pv(m.kind + "_ak_" + case)
        self.ak = self.p


class StandLM:
    def __init__(self, m, w, tests=None):
        b = Stand.bench
        self.lme, self.lml, self.rlme, self.rlml = [getattr(m, t) for t in ("lm_error", "lm_lag", "rlm_error", "rlm_lag")]
        self.sarma = m.lm_sarma


class patched:
    """the estimators stood in for, wherever spsearch finds them"""

    def __enter__(self):
        import spreg.spsearch, spreg.ols, spreg.twosls_sp, spreg.error_sp, spreg.diagnostics_sp
        S = sys.modules
        subs = [("spreg.ols", "OLS", StandOLS), ("spreg.twosls_sp", "GM_Lag", StandLag), ("spreg.error_sp", "GMM_Error", StandError),
                ("spreg.diagnostics_sp", "AKtest", StandAK), ("spreg.diagnostics_sp", "LMtests", StandLM)]
        self.undo = []
        for mod, nm, new in subs:
            orig = getattr(S[mod], nm)
            for where in (S[mod], S["spreg.spsearch"]):
                for a, v in list(vars(where).items()):
                    if v is orig:
                        self.undo.append((where, a, orig))
                        setattr(where, a, new)

    def __exit__(self, *a):
        for where, nm, orig in self.undo:
            setattr(where, nm, orig)


def oracle(b, which, thr):
    """(result, kind of the final model or None) from the p-values; independent reading of the decision trees"""
    def sig(name):
        v = b.pv(name)
        if v == thr:
            raise Tie()
        return bool(v < thr)

    def least(m, names):
        vals = [b.pv(m + "_" + v) for v in names]
        top = 0
        for i in range(1, len(vals)):
            if vals[i] == vals[top]:
                raise Tie()
            if vals[i] > vals[top]:
                top = i
        return names[top]

    def less(a, c):
        a, c = b.pv(a), b.pv(c)
        if a == c:
            raise Tie()
        return bool(a < c)
    gam = ["gamma%d" % i for i in range(b.kx)]

    def lm_tree(o, lag, error, both, tags):
        """lag against error from the LM tests and their robust forms"""
        L, E = sig(o + "_lm_lag"), sig(o + "_lm_error")
        if not L and not E:
            return None
        if L != E:
            return (lag if L else error), ""
        RL, RE = sig(o + "_rlm_lag"), sig(o + "_rlm_error")
        if RL != RE:
            return (lag if RL else error), "r"
        if RL and RE and lag not in b.fail and sig(lag + "_ak_gen"):
            return both, ""
        return (lag if less(o + "_rlm_lag", o + "_rlm_error") else error), ("B" if RL else "N")
    if which == "stge_classic":
        r = lm_tree("OLS", "LAG", "ERROR", "SARSAR", True)
        if r is None:
            return "OLS", "OLS"
        kind, tag = r
        nm = kind + {"": "", "r": "r", "N": "_Nr", "B": "_BR" if kind == "LAG" else "_Br"}[tag]
        return nm, kind
    if which == "stge_pre":
        o, lag, err, both = ("SLX", "SDM", "SLX-ERR", "GNS") if sig("OLS_lm_wx") and sig("OLS_rlm_wx") else ("OLS", "LAG", "ERROR", "SARSAR")
        r = lm_tree(o, lag, err, both, False)
        kind = o if r is None else r[0]
        return kind, kind
    if which == "stge_kb":
        if not sig("OLS_lm_spdurbin"):
            return "OLS", "OLS"
        L, X = sig("OLS_rlm_durlag"), sig("OLS_rlm_wx")
        kind = {(True, True): "SDM", (True, False): "LAG", (False, True): "SLX", (False, False): "OLS"}[L, X]
        return kind, kind
    if which == "gets_gns":
        def step(m, names, full, drop):
            if m in b.fail:
                return "Exception: ", None
            s = [sig(m + "_" + v) for v in names]
            if all(s):
                return full()
            if not any(s):
                return "OLS", "OLS"
            return drop(least(m, names))
        two = lambda nm: (nm, nm)
        return step("GNS", gam + ["rho", "lambda"], lambda: two("GNS"), lambda d:
                    step("SDM", gam + ["rho"], lambda: two("SDM") if sig("SDM_cfh") else two("ERROR"),
                         lambda e: two("SLX") if e == "rho" else two("LAG")) if d == "lambda" else
                    step("SLX-ERR", gam + ["lambda"], lambda: two("SLX-ERR"), lambda e: two("SLX") if e == "lambda" else two("ERROR"))
                    if d == "rho" else
                    step("SARSAR", ["rho", "lambda"], lambda: two("SARSAR"), lambda e: two("LAG") if e == "lambda" else two("ERROR")))
    if which == "gets_sdm":
        two = lambda nm: (nm, nm)
        if "SDM" in b.fail:
            return "Exception: ", None
        names = gam + ["rho"]
        s = [sig("SDM_" + v) for v in names]
        if all(s):
            if not sig("SDM_cfh"):
                return two("ERROR")
            return two("GNS") if sig("SDM_ak_gen") else two("SDM")
        if not any(s):
            return two("ERROR") if sig("OLS_lm_error") else two("OLS")
        if least("SDM", names) == "rho":
            return ("SLX-Err", "SLX-ERR") if sig("SLX_lm_error") else two("SLX")
        if "LAG" in b.fail:
            return "Exception: ", None
        return two("SARSAR") if sig("LAG_ak_gen") else two("LAG")


def search(ctx, spreg):
    p = ctx.p
    which, kx = p["which"], p["k"]
    n = 6
    y, x, w = cols(ctx, YE, n=n), cols(ctx, X1, X2, n=n)[:, :kx], ctx.W(G6)
    b = Stand.bench = Bench(ctx, kx, p.get("fail", []))
    thr = ctx.var("threshold", F(1, 4), 0, 1)
    nm = {} if p.get("unnamed") else dict(name_y="yy", name_x=["x%d" % (i + 1) for i in range(kx)])
    if p.get("half") == "x":
        nm = dict(name_x=["x%d" % (i + 1) for i in range(kx)])
    fin = p.get("finmod", True)
    out = io.StringIO()
    with patched(), contextlib.redirect_stdout(out):
        r = getattr(spreg.spsearch, which)(y, x, w, w_lags=3, name_w="ww", name_ds="dd", latex=True, p_value=thr, finmod=fin,
                                           mprint=p.get("mprint", False), **nm)
    try:
        name, kind = oracle(b, which, thr)
    except Tie:
        return
    ctx.prove_true("a result and a model", isinstance(r, tuple) and len(r) == 2, r)
    res, reg = r
    refused = kind is None or (fin and kind in b.fail)
    if refused:
        ctx.prove_true("refusal reported", ("Exception" in res) and res.startswith(name), res)
    else:
        ctx.prove_true("model prescribed by the tree", res == name, "%s, expected %s" % (res, name))
    if refused or (not fin and reg is False):
        ctx.prove_true("no final model", reg is False, reg)
    else:
        ctx.prove_true("final model is the prescribed one", isinstance(reg, Stand) and reg.kind == kind, getattr(reg, "kind", reg))
    want_y = "yy" if not p.get("unnamed") and p.get("half") != "x" else "dep_var"
    if isinstance(reg, Stand):
        m = reg
        ctx.prove_true("data, weights and labels of the final model",
                       m.args[0] is y and m.args[1] is x and m.args[2] is w and m.name_w == "ww" and m.name_ds == "dd" and m.latex is True)
        ctx.prove_true("names of the final model", m.name_y == want_y and m.name_x[1:kx + 1] ==
                       ["%s%d" % ("x" if nm.get("name_x") and nm.get("name_y") else "var_", i + 1) for i in range(kx)], (m.name_y, m.name_x))
    for m in b.made:
        if m.kind in ("LAG", "SDM", "SARSAR", "GNS"):
            ctx.prove_true("lags of the instruments passed on", m.w_lags == 3, m.w_lags)
        if m.kind not in ("OLS", "SLX"):
            ctx.prove_true("parameters out of bounds are refused", m.hard_bound is True, m.hard_bound)
    said = out.getvalue()
    if p.get("mprint") and fin and not refused:
        ctx.prove_true("selection and summary printed", res in said and "summary of " + kind in said, said)
    if not p.get("mprint") and not refused:
        ctx.prove_true("quiet unless asked", said == "", said)


def real(ctx, spreg):
    """the real estimators: fixed data, any threshold"""
    p = ctx.p
    which = p["which"]
    n = p.get("n", 8)
    y, x, w = cols(ctx, p.get("yd", YE), n=n), cols(ctx, X1, X2, n=n)[:, :1], ctx.W(D8 if n == 8 else G6)
    thr = ctx.var("threshold", F(1, 4), 0, 1)
    kw = dict(name_y="yy", name_x=["x1"], name_w="ww", name_ds="dd")
    with contextlib.redirect_stdout(io.StringIO()):
        res, reg = getattr(spreg.spsearch, which)(y, x, w, p_value=thr, mprint=False, **kw)
        o = spreg.OLS(y, x, w=w, spat_diag=True, **kw)

    def sig(t):
        if t[1] == thr:
            raise Tie()
        return bool(t[1] < thr)
    try:
        if not sig(o.lm_spdurbin):
            kind = "OLS"
        else:
            kind = {(True, True): "SDM", (True, False): "LAG", (False, True): "SLX", (False, False): "OLS"}[sig(o.rlm_durlag), sig(o.rlm_wx)]
    except Tie:
        return
    ctx.prove_true("model prescribed by the tree", res.startswith(kind), res)
    ref = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            ref = {"OLS": lambda: o, "SLX": lambda: spreg.OLS(y, x, w=w, slx_lags=1, **kw),
                   "LAG": lambda: spreg.GM_Lag(y, x, w=w, w_lags=2, hard_bound=True, **kw),
                   "SDM": lambda: spreg.GM_Lag(y, x, w=w, w_lags=2, slx_lags=1, hard_bound=True, **kw)}[kind]()
    except Exception as e:
        if type(e).__name__ in ("Unsupported", "PathBudget"):
            raise
    if ref is None:
        ctx.prove_true("refusal reported", reg is False and "Exception" in res, res)
    else:
        ctx.prove_eq("coefficients", reg.betas, ref.betas, tol=1e-6)
        ctx.prove_eq("variance", reg.vm, ref.vm, tol=1e-6)
        ctx.prove_true("names", list(reg.name_x) == list(ref.name_x))


TREES = dict(stge_classic=["LAG", "ERROR", "SARSAR"], stge_kb=["LAG", "SDM"], stge_pre=["LAG", "ERROR", "SARSAR", "SDM", "SLX-ERR", "GNS"],
             gets_gns=["GNS", "SDM", "SLX-ERR", "SARSAR", "LAG", "ERROR"], gets_sdm=["SDM", "LAG", "ERROR", "SARSAR", "SLX-ERR", "GNS"])
for wh, fails in TREES.items():
    add_case("P34", "%s_k1" % wh, search, which=wh, k=1, max_paths=600)
    add_case("P34", "%s_k2" % wh, search, which=wh, k=2, max_paths=3000, mprint=True)
    add_case("P34", "%s_nofinal" % wh, search, which=wh, k=1, max_paths=600, finmod=False)
    add_case("P34", "%s_unnamed" % wh, search, which=wh, k=1, max_paths=600, unnamed=True)
    add_case("P34", "%s_halfnamed" % wh, search, which=wh, k=1, max_paths=600, half="x")
    for f in fails:
        add_case("P34", "%s_fail_%s" % (wh, f), search, which=wh, k=1, max_paths=600, fail=[f])
    add_case("P34", "%s_fail_all" % wh, search, which=wh, k=1, max_paths=600, fail=fails)
    add_case("P34", "%s_k3" % wh, search, tier="thorough", which=wh, k=3, max_paths=3000, timeout=600)
add_case("P34", "real_kb", real, which="stge_kb")
add_case("P34", "real_kb_y0", real, which="stge_kb", yd=Y0)
