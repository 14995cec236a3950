"""every front end and dispatch argument at one small size (6..14 observations): responses on a symbolic line (fixed for the moment and
likelihood estimators, whose spatial parameter is symbolic instead); everything the model holds, its table and its summary are compared
with the class called directly; worker processes are replaced by calls in the same process with pickled arguments."""
from symx.ctx import add_case
from common import *
import inspect
import pickle
import zoo

ASSUMPTIONS = ["cores=True: operating system processes are replaced by calls in the same process, in submission order"]
REFUSED = (Exception,)


def outcome(ctx, fn):
    """('model', values) or ('refused', what)"""
    from symx import sym as Y
    try:
        m = fn()
    except (Y.Unsupported, Y.PathBudget):
        raise
    except REFUSED as e:
        return ("refused", type(e).__name__, str(e)), None
    return ("model",), m


def compare(ctx, what, one, two, skip=(), refuse=False):
    """two calls: the same model (or, where the data may be refused, the same refusal)"""
    a, m1 = outcome(ctx, one)
    v1 = zoo.values(m1) if m1 is not None else None
    if ctx.opt.calls or ctx.est_calls:
        ctx.same_opt(0)
    b, m2 = outcome(ctx, two)
    ctx.prove_true(what + ": both give a model", a == b and (refuse or a == ("model",)), (a, b))
    if m1 is not None and m2 is not None:
        zoo.same(ctx, what, v1, zoo.values(m2), skip)


def filled(front, direct, kw):
    """kw with the front end's defaults for the options the class also has"""
    out = dict(kw)
    has = inspect.signature(direct.__init__).parameters
    for k, v in inspect.signature(front.__init__).parameters.items():
        if k in has and k not in out and k not in ("self", "kwargs") and v.default is not inspect.Parameter.empty:
            out[k] = v.default
    return out


def option(ctx, z, p):
    """further arguments of the case"""
    for k, v in (p.get("opt") or {}).items():
        z.kw[k] = list(v) if isinstance(v, list) else v


def regimes(ctx, spreg):
    """Class(..., regimes=...) and Class_Regimes"""
    p = dict(ctx.p)
    name = p.pop("cls")
    opt = p.pop("opt", None)
    skip, refuse = p.pop("skip", ()), p.pop("refuse", False)
    z = zoo.make(ctx, spreg, name + "_Regimes", **p)
    option(ctx, z, dict(opt=opt))
    front = getattr(spreg, name)
    kw = dict(z.kw)
    compare(ctx, "front end", lambda: front(**kw), lambda: z.cls(**filled(front, z.cls, kw)), tuple(z.skip) + skip, refuse)


OPTS = {"OLS": dict(white=dict(robust="white"), hac=dict(robust="hac"), slx=dict(slx=1, s="split12", regs="aabbabbaabab"), slx_vars=dict(slx=1, kx=2, vars=[True, False], s="split12"),
                    slx_vars_sep=dict(slx=1, kx=2, vars=[False, True], sep=True, s="split12"), sep=dict(sep=True), one=dict(const="one", kx=2, cols=[True, False]),
                    sig2n=dict(opt=dict(sig2n_k=False)), diagnostics=dict(opt=dict(nonspat_diag=True)), spat_diag=dict(sdiag=True),
                    moran=dict(sdiag=True, opt=dict(moran=True)), vm=dict(opt=dict(vm=True)), latex=dict(opt=dict(latex=True)))}
OPTS["TSLS"] = dict({k: OPTS["OLS"][k] for k in ("white", "hac", "slx", "slx_vars", "slx_vars_sep", "sep", "one", "vm", "latex")},
                    sig2n=dict(opt=dict(sig2n_k=True)), spat_diag=dict(sdiag=True))
OPTS["TSLS"]["one"] = dict(const="one", kx=2, cols=[True, False, True], s="split12", regs="aabbabbaabab")
OPTS["GM_Lag"] = dict({k: OPTS["OLS"][k] for k in ("white", "hac", "slx", "slx_vars", "slx_vars_sep", "sep", "one", "vm", "latex")},
                      sig2n=dict(opt=dict(sig2n_k=True)), spat_diag=dict(sdiag=True), w_lags=dict(opt=dict(w_lags=2)), endo=dict(endo=True, s="split12"),
                      lag_q=dict(endo=True, s="split12", opt=dict(lag_q=False)), impacts=dict(impacts="full"), no_impacts=dict(opt=dict(spat_impacts=None)),
                      hard_bound=dict(opt=dict(hard_bound=True), refuse=True))
OPTS["ML_Lag"] = dict({k: OPTS["OLS"][k] for k in ("slx", "slx_vars", "slx_vars_sep", "sep", "one", "vm", "latex")}, spat_diag=dict(sdiag=True),
                      impacts=dict(impacts="full"), lu=dict(opt=dict(method="LU")), epsilon=dict(opt=dict(epsilon=1e-5), skip=("predy_e", "e_pred", "pr2_e")))
OPTS["ML_Error"] = dict({k: OPTS["OLS"][k] for k in ("slx", "slx_vars", "slx_vars_sep", "sep", "one", "vm", "latex")},
                        ord=dict(opt=dict(method="ord"), skip=("logll", "aic", "schwarz")), epsilon=dict(opt=dict(epsilon=0.5)))
for c in ("ML_Lag", "ML_Error"):
    OPTS[c]["slx_vars_sep"] = dict(OPTS[c]["slx_vars_sep"], opaque=True, cutchow=True)
for c in OPTS:
    add_case("P36", c + "_regimes", regimes, cls=c)
    for o in OPTS[c]:
        add_case("P36", "%s_regimes_%s" % (c, o), regimes, cls=c, **OPTS[c][o])


# ---- GMM_Error and GMM_Error_Regimes ------------------------------------------------------------------------------------------
EST = dict(het="_Het", hom="_Hom", kp98="")
KIND = dict(error="GM_Error", endog="GM_Endog_Error", combo="GM_Combo")


def gmm(ctx, spreg):
    p = dict(ctx.p)
    est, kind, reg, via = p.pop("est"), p.pop("kind"), p.pop("reg"), p.pop("via", "GMM_Error")
    opt = p.pop("opt", None)
    p.setdefault("pin", kind != "error")
    z = zoo.make(ctx, spreg, KIND[kind] + EST[est] + ("_Regimes" if reg else ""), **p)
    option(ctx, z, dict(opt=opt))
    front = getattr(spreg, via)
    kw = dict(z.kw)
    if kind == "combo":
        kw["add_wy"] = True
    compare(ctx, "front end", lambda: front(estimator=est, **kw), lambda: z.cls(**z.kw), z.skip)


for est in EST:
    for kind in KIND:
        A = lambda nm, **q: add_case("P36", "gmm_%s_%s%s" % (est, kind, nm), gmm, est=est, kind=kind, reg=False, **q)
        A("")
        A("_slx", slx=1, n=8)
        A("_slx_vars", slx=1, n=8, kx=2, vars=[True, False])
        A("_vm_latex", opt=dict(vm=True, latex=True))
        A("_hard_bound", opt=dict(hard_bound=True))
        if kind == "combo":
            A("_w_lags", opt=dict(w_lags=2))
            A("_endo", endo=True, n=8)
            A("_lag_q", endo=True, n=8, opt=dict(lag_q=False))
        if est == "hom":
            A("_het_moments", opt=dict(A1="het"))
            A("_max_iter", opt=dict(max_iter=2, epsilon=1e-3))
        if est == "het":
            A("_step1c", opt=dict(step1c=True))
        for via in ("GMM_Error", "GMM_Error_Regimes"):
            B = lambda nm, **q: add_case("P36", "%s_%s_%s_regimes%s" % ("gmm" if via == "GMM_Error" else "gmmr", est, kind, nm), gmm, est=est,
                                         kind=kind, reg=True, via=via, **q)
            B("")
            B("_sep", sep=True)
            B("_one", const="one", s="split12", regs="aabbabbaabab")
            B("_slx", slx=1, s="split12", regs="aabbabbaabab")
            if kind == "error":
                B("_slx_vars", slx=1, kx=2, vars=[True, False], s="split12", regs="aabbabbaabab")
            if est != "kp98":
                B("_hard_bound", opt=dict(hard_bound=True))


# ---- worker processes -----------------------------------------------------------------------------------------------------------
class Later:
    def __init__(self, v):
        self.v = v

    def get(self, timeout=None):
        return self.v


class Pool:
    """multiprocessing.Pool without processes: arguments and results are copies, as they are between processes"""
    calls = []

    def __init__(self, n=None):
        self.closed = False

    def apply_async(self, fn, args=(), kwds={}):
        assert not self.closed
        Pool.calls.append(fn.__name__)
        if Pool.copy:
            args, kwds = pickle.loads(pickle.dumps((args, kwds)))
        r = fn(*args, **kwds)
        return Later(pickle.loads(pickle.dumps(r)) if Pool.copy else r)

    def close(self):
        self.closed = True

    def join(self):
        assert self.closed


class MP:
    Pool = Pool


def swapped(mods, attr, new, fn):
    old = [getattr(m, attr) for m in mods]
    try:
        for m in mods:
            setattr(m, attr, new)
        return fn()
    finally:
        for m, o in zip(mods, old):
            setattr(m, attr, o)


MODS = ["ols_regimes", "twosls_regimes", "twosls_sp_regimes", "ml_lag_regimes", "ml_error_regimes", "error_sp_regimes", "error_sp_hom_regimes",
        "error_sp_het_regimes"]


def cores(ctx, spreg):
    p = dict(ctx.p)
    opt = p.pop("opt", None)
    z = zoo.make(ctx, spreg, p.pop("cls"), sep=True, pin=True, **p)
    option(ctx, z, dict(opt=opt))
    Pool.calls, Pool.copy = [], ctx.mode != "sym"
    mods = [getattr(spreg, m) for m in MODS]
    compare(ctx, "in parallel", lambda: z.cls(**dict(z.kw)), lambda: swapped(mods, "mp", MP, lambda: z.cls(**dict(z.kw, cores=True))), z.skip)
    if p.get("robust") != "hac":        # HAC rules out separate errors
        ctx.prove_true("one worker per regime", len(Pool.calls) == len(set(z.regs)), Pool.calls)


for c in zoo.REGIMES:
    A = lambda nm, **q: add_case("P36", c + "_cores" + nm, cores, cls=c, **q)
    A("")
    if c.startswith(("OLS", "TSLS", "GM_Lag", "ML")) or c == "GM_Error_Regimes":
        A("_slx", slx=1, s="split12")
    if c.startswith(("OLS", "TSLS")):
        A("_white", robust="white")
        A("_hac", robust="hac")
        A("_sig2n", opt=dict(sig2n_k=False))
    if c == "OLS_Regimes":
        A("_diagnostics", diag=True, sdiag=True, opt=dict(moran=True))
    if c.startswith("GM_Lag"):
        A("_endo", endo=True, s="split12")
    if c.startswith(("GM_Lag", "ML_Lag")):
        A("_impacts", impacts="full")
    if "Hom" in c:
        A("_iterated", opt=dict(max_iter=2, epsilon=1e-3, A1="hom"))
    if "Het" in c:
        A("_step1c", opt=dict(step1c=True))


# ---- data frames ----------------------------------------------------------------------------------------------------------------
def frames(ctx, spreg):
    """series and frames: same model as with the arrays and their labels as names"""
    import pandas as pd
    p = dict(ctx.p)
    z = zoo.make(ctx, spreg, p.pop("cls"), pin=True, **p)
    kw = dict(z.kw)
    n = len(kw["y"])
    lab = ["i%d" % i for i in range(n)][::-1]
    kw["y"] = pd.DataFrame(kw["y"], columns=kw["name_y"] if p.get("wide") else ["yy"], index=lab) if p.get("frame_y") or p.get("wide") else pd.Series(kw["y"][:, 0], name="yy", index=lab)
    kw["x"] = pd.DataFrame(kw["x"], columns=kw["name_x"], index=lab)
    if kw["x"].shape[1] == 1 and p.get("series_x"):
        kw["x"] = kw["x"].iloc[:, 0]
    if kw.get("yend") is not None:
        kw["yend"] = pd.DataFrame(kw["yend"], columns=kw["name_yend"], index=lab)
        kw["q"] = pd.DataFrame(kw["q"], columns=kw["name_q"], index=lab)
    if "regimes" in kw:
        kw["regimes"] = pd.Series(kw["regimes"], name="zone", index=lab)
    for k in ("name_y", "name_x", "name_yend", "name_q", "name_regimes"):
        kw.pop(k, None)
    compare(ctx, "frames", lambda: z.cls(**dict(z.kw)), lambda: z.cls(**kw), z.skip)


for c in zoo.CROSS + zoo.REGIMES + zoo.PANELS:
    q = dict(const="one", s="split12", regs="aabbabbaabab") if "Combo" in c and c.endswith("Regimes") else {}
    if c in zoo.PANELS and not zoo.moment(c) and not c.startswith(("ML", "Panel_")) or c in zoo.CROSS[:2]:
        q = dict(kx=2)
    if c not in ("GM_KKP", "ML_LagRE") and not c.startswith("Panel_"):
        add_case("P36", c + "_frames", frames, cls=c, **q)
    if c in zoo.PANELS and not c.startswith("Panel_") and c not in ("ML_ErrorRE", "ML_LagRE", "GM_KKP"):
        add_case("P36", c + "_frames_wide", frames, cls=c, wide=True, kx=2)
        add_case("P36", c + "_series_x", frames, cls=c, series_x=True)
for c in ("OLS", "TSLS", "GM_Lag", "ML_Lag", "ML_Error", "OLS_Regimes", "TSLS_Regimes", "GM_Lag_Regimes", "ML_Error_Regimes"):
    add_case("P36", c + "_series_x", frames, cls=c, series_x=True, frame_y=True)


# ---- endogenous regimes: the regionalisation (P35) followed by the regimes class ---------------------------------------------------
class Region:
    """stand-in of Skater_reg: given labels and scores"""
    def __init__(self, *a, **k):
        pass

    def fit(self, n_clusters, W, data=None, data_reg=None, quorum=None, trace=True, **k):
        Region.args = dict(n=n_clusters, W=W, data=data, reg=data_reg, quorum=quorum, trace=trace, **k)
        self._trace = [([], (0, 0, float("inf")))] + [(np.array(l), (0, 0, s)) for l, s in Region.steps]
        self.current_labels_ = self._trace[-1][0]
        return self


def endogenous(ctx, spreg):
    p = ctx.p
    front, cls = getattr(spreg, p["cls"] + "_Endog_Regimes"), getattr(spreg, p["cls"] + "_Regimes")
    n = 12
    z = zoo.make(ctx, spreg, p["cls"] + "_Regimes", s="split12", sep=True)
    kw = {k: z.kw[k] for k in ("y", "x", "yend", "q", "w", "name_y", "name_x", "name_yend", "name_q") if k in z.kw}
    kw.update(p.get("opt") or {})
    lab = p["labels"][p["take"]]
    b = cls(regimes=list(lab), name_regimes="Skater_reg", constant_regi="many", cols2regi="all", regime_err_sep=True, **kw)
    vb = zoo.values(b)
    S = [ctx.num(F(v)) for v in p["scores"]]
    S[p["take"]] = (b.u * b.u).sum()        # the score of a partition (P35)
    Region.steps = [(l, s) for l, s in zip(p["labels"], S)]
    mod = getattr(spreg, "ols_regimes" if p["cls"] == "OLS" else "twosls_regimes")
    extra = dict(n_clusters=p["k"]) if p.get("k") else {}
    own = ("clusters", "score", "_trace", "SSR")
    a = ctx.runs("endogenous regimes", lambda: swapped([mod], "Skater_reg", Region, lambda: front(quorum=p["quorum"], **extra, **kw)))
    if a is None:
        return
    A = dict(Region.args)
    va = zoo.values(a)
    keep = lambda v: {k: x for k, x in v.items() if k.split("[")[0] not in own}
    zoo.same(ctx, "regimes class", keep(va), keep(vb))
    ctx.prove_true("clusters", list(a.clusters) == list(lab), list(a.clusters))
    ctx.prove_eq("score", a.score, S[p["take"]])
    ctx.prove_eq("sums of squares of the steps", np.array(a.SSR, dtype=object), np.array(S, dtype=object), shape=(len(S),))
    cols_ = np.hstack([kw["x"]] + ([kw["yend"]] if "yend" in kw else []))
    m = cols_.sum(axis=0) / ctx.num(n)
    sd = [ctx.sqrt(sum((v - m[j]) * (v - m[j]) for v in cols_[:, j]) / ctx.num(n)) for j in range(cols_.shape[1])]
    ctx.prove_eq("standardised attributes", A["data"], np.array([[(cols_[i, j] - m[j]) / sd[j] for j in range(cols_.shape[1])] for i in range(n)], dtype=object))
    ctx.prove_true("quorum and weights", A["quorum"] == p["quorum"] and A["W"] is kw["w"], A["quorum"])
    ctx.prove_true("number of regions", A["n"] == (p.get("k") or n * 7 // 10 // p["quorum"]), A["n"])
    ctx.prove_eq("regression data y", A["reg"]["y"], kw["y"])
    ctx.prove_eq("regression data x", A["reg"]["x"], kw["x"])
    ctx.prove_true("regression class", A["reg"]["reg"] is getattr(spreg.ols if p["cls"] == "OLS" else spreg.twosls, "Base" + p["cls"]), A["reg"]["reg"])
    if "yend" in kw:
        ctx.prove_eq("regression data yend", A["reg"]["yend"], kw["yend"])
        ctx.prove_eq("regression data q", A["reg"]["q"], kw["q"])


TWO, THREE = [0, 1] * 6, [0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1]
L2, L2b = [0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1], [0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1]
for c in ("OLS", "TSLS"):
    A = lambda nm, **q: add_case("P36", "%s_endogenous_%s" % (c, nm), endogenous, cls=c, **q)
    A("given", k=2, quorum=3, labels=[L2], scores=[7], take=0)
    A("given_other", k=2, quorum=3, labels=[L2b], scores=[7], take=0, opt=dict(vm=True, sig2n_k=True))
    A("one_split", quorum=4, labels=[L2b], scores=[7], take=0)
    A("two_splits", quorum=2, labels=[L2b, [0, 1, 2] * 4], scores=[7, 5], take=0)
