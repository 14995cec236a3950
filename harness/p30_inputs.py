"""every estimator and option group at one small size (6..14 observations): responses on a symbolic line (fixed for the moment and
likelihood estimators, whose spatial parameter is symbolic instead); fitted twice on the same objects, everything the model holds is
compared; also tests on fitted models, generators and the one dimensional forms of the inputs."""
from symx.ctx import add_case
from common import *
import zoo
import copy


def snap(v):
    if isinstance(v, np.ndarray):
        return ("array", v.shape, str(v.dtype), list(v.reshape(-1)))
    if hasattr(v, "to_numpy"):
        return ("frame", [str(c) for c in getattr(v, "columns", [getattr(v, "name", "")])], list(v.index), list(v.to_numpy().reshape(-1)))
    if hasattr(v, "neighbors") and hasattr(v, "id_order"):
        ids = list(v.id_order)
        return ("W", v.transform, ids, [(i, list(v.neighbors[i])) for i in ids], [list(v.weights[i]) for i in ids])
    if isinstance(v, dict):
        return ("dict", [(k, snap(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return ("list", type(v).__name__, [snap(x) for x in v])
    return ("one", repr(v))


def untouched(ctx, k, a, b):
    """the snapshot before and after"""
    if a[0] != b[0]:
        ctx.prove_true(k + " is left as it was", False, (a[0], b[0]))
    elif a[0] == "array":
        ctx.prove_true("shape of %s is left as it was" % k, a[1:3] == b[1:3], (a[1:3], b[1:3]))
        if len(a[3]) == len(b[3]):
            zoo.equal(ctx, k + " is left as it was", a[3], b[3])
    elif a[0] == "frame":
        ctx.prove_true("labels of %s are left as they were" % k, a[1:3] == b[1:3], (a[1:3], b[1:3]))
        if any(isinstance(v, str) for v in a[3]):
            ctx.prove_true(k + " is left as it was", a[3] == b[3], (a[3], b[3]))
        elif len(a[3]) == len(b[3]):
            zoo.equal(ctx, k + " is left as it was", a[3], b[3])
    elif a[0] == "W":
        ctx.prove_true("transformation and neighbors of %s are left as they were" % k, a[1:4] == b[1:4], (a[1], b[1]))
        fa, fb = [x for r in a[4] for x in r], [x for r in b[4] for x in r]
        if len(fa) == len(fb):
            zoo.equal(ctx, "weights of %s are left as they were" % k, fa, fb)
        else:
            ctx.prove_true("weights of %s are left as they were" % k, False)
    elif a[0] == "dict":
        ctx.prove_true("keys of %s are left as they were" % k, [x for x, _ in a[1]] == [x for x, _ in b[1]], (a[1], b[1]))
        for (i, u), (j, v) in zip(a[1], b[1]):
            if i == j:
                untouched(ctx, "%s[%r]" % (k, i), u, v)
    elif a[0] == "list":
        ctx.prove_true("%s is left as it was" % k, a[1] == b[1] and len(a[2]) == len(b[2]), (a, b))
        for i, (u, v) in enumerate(zip(a[2], b[2])):
            if u != v or u[0] != "one":
                untouched(ctx, "%s[%d]" % (k, i), u, v)
    else:
        ctx.prove_true(k + " is left as it was", a == b, (a, b))


def watch(ctx, kw, fn):
    before = {k: snap(v) for k, v in kw.items()}
    r = fn()
    for k in kw:
        untouched(ctx, k, before[k], snap(kw[k]))
    return r


SKIP = ("summary", "time")


def model(ctx, spreg):
    p = dict(ctx.p)
    z = zoo.make(ctx, spreg, p.pop("cls"), **p)
    if p.get("flat"):
        for k in ("y", "yend", "q"):
            if z.kw.get(k) is not None:
                z.kw[k] = z.kw[k].reshape(-1)
    m1 = watch(ctx, z.kw, lambda: z.fit(ctx))
    if m1 is None:
        return
    v1 = zoo.values(m1)
    c = len(ctx.opt.calls)
    if c:
        ctx.same_opt(0)
    m2 = z.fit(ctx)
    zoo.same(ctx, "second fit", v1, zoo.values(m2), z.skip)
    zoo.same(ctx, "first model after the second fit", v1, zoo.values(m1), z.skip)


def add(name, **kw):
    add_case("P30", name, model, **kw)


for c in zoo.CROSS:
    add(c, cls=c)
for c in zoo.REGIMES:
    add(c, cls=c, **(dict(const="one", cols=[True], s="d6", regs="babaab") if c == "GM_Combo_Het_Regimes" else {}))
    add(c + "_sep", cls=c, sep=True)
for c in zoo.PANELS + zoo.SURS:
    add(c, cls=c)

# ---- option groups: the code paths that handle inputs differently ----------------------------------------------------------------
ALLX = ["OLS", "TSLS", "GM_Lag", "ML_Lag", "ML_Error", "GM_Error", "GM_Endog_Error", "GM_Combo", "GM_Error_Hom", "GM_Error_Het"]
for c in ALLX:
    add(c + "_slx", cls=c, slx=1, n=8)
    add(c + "_slx_vars", cls=c, slx=1, n=8, kx=2, vars=[True, False])
for c in ("TSLS", "GM_Lag", "GM_Combo", "GM_Endog_Error", "GM_Endog_Error_Hom", "GM_Endog_Error_Het", "TSLS_Regimes", "GM_Lag_Regimes",
          "GM_Endog_Error_Regimes", "GM_Combo_Regimes"):
    add(c + "_flat", cls=c, endo=True, flat=True, **(dict(n=8) if "Regimes" not in c else dict(s="split12") if "w_lags" in c or "Lag" in c or "Combo" in c else {}))
for c in ("OLS", "TSLS", "GM_Lag", "ML_Lag", "ML_Error", "GM_Error", "OLS_Regimes", "GM_Lag_Regimes", "ML_Error_Regimes", "GM_Error_Regimes"):
    add(c + "_flat_y", cls=c, flat=True)
    add(c + "_unstandardised", cls=c, transform="o",
        weights={i: [F(1, 4), F(1, 5), F(1, 8)][:len(v)] for i, v in (D8 if "Reg" in c or c == "OLS" else D6).items()},
        **(dict(slx=1, n=8) if c == "OLS" else {}))
    if "_Lag" not in c:
        add(c + "_binary_kept", cls=c, transform="b")
for c in ("OLS", "TSLS", "GM_Lag"):
    for r in ("white", "hac"):
        add("%s_%s" % (c, r), cls=c, robust=r, n=8)
        add("%s_Regimes_%s" % (c, r), cls=c + "_Regimes", robust=r)
add("TSLS_spat_diag", cls="TSLS", sdiag=True, n=8)
add("TSLS_Regimes_spat_diag", cls="TSLS_Regimes", sdiag=True)
add("GM_Lag_spat_diag", cls="GM_Lag", sdiag=True, n=8)
add("ML_Lag_spat_diag", cls="ML_Lag", sdiag=True)
for c in ("OLS_Regimes", "GM_Lag_Regimes", "ML_Lag_Regimes", "ML_Error_Regimes", "GM_Error_Regimes", "GM_Error_Hom_Regimes"):
    add(c + "_slx", cls=c, slx=1)
    add(c + "_one", cls=c, const="one", cols=[False, True], kx=2)
for c in ("GM_Lag_Regimes", "ML_Lag_Regimes"):
    add(c + "_endo" if c[0] == "G" else c + "_impacts", cls=c, **(dict(endo=True, s="split12") if c[0] == "G" else dict(impacts="simple")))
for c in ("OLS", "ML_Lag", "ML_Error", "GM_Lag", "TSLS"):
    add(c + "_front_regimes", cls=c, regimes=True)
for c in zoo.PANELS:
    if c not in ("ML_ErrorRE", "Panel_RE_Error", "ML_LagRE", "Panel_RE_Lag"):
        add(c + "_wide", cls=c, wide=True, kx=2)
    if not c.startswith("Panel_") and c != "GM_KKP" and c not in ("ML_ErrorRE", "ML_LagRE"):
        add(c + "_slx", cls=c, slx=1)
add("PooledOLS_diagnostics", cls="PooledOLS", sdiag=True, diag=True)
add("SUR_diagnostics", cls="SUR", diag=True, w=True, sdiag=True, n=6)
add("SURlagIV_endog", cls="SURlagIV", endo=True, n=14)
for c in ("SUR", "SURerrorGM", "SURlagIV", "ThreeSLS"):
    add(c + "_regimes", cls=c, regimes="abbaabbaababab", **(dict(line=False) if c == "SURlagIV" else {}))
add("SURlagIV_regime_lag", cls="SURlagIV", regimes="abbaabbaababab", kw=dict(regime_lag_sep=True), line=False)


def frames(ctx, spreg):
    """data frames and series instead of arrays"""
    p = dict(ctx.p)
    z = zoo.make(ctx, spreg, p.pop("cls"), **p)
    kw = z.kw
    import pandas as pd
    kw["y"] = pd.Series(kw["y"][:, 0], name="resp")
    kw["x"] = pd.DataFrame(kw["x"], columns=["r%d" % i for i in range(kw["x"].shape[1])])
    if kw.get("yend") is not None:
        kw["yend"] = pd.DataFrame(kw["yend"], columns=["en"])
        kw["q"] = pd.DataFrame(kw["q"], columns=["in%d" % i for i in range(kw["q"].shape[1])])
    if "regimes" in kw:
        kw["regimes"] = pd.Series(kw["regimes"], name="rg")
    for k in ("name_y", "name_x", "name_yend", "name_q"):
        kw.pop(k, None)
    m1 = watch(ctx, kw, lambda: z.fit(ctx))
    v1 = zoo.values(m1)
    if ctx.opt.calls:
        ctx.same_opt(0)
    zoo.same(ctx, "second fit", v1, zoo.values(z.fit(ctx)), z.skip)
    zoo.same(ctx, "first model after the second fit", v1, zoo.values(m1), z.skip)


for c in ("OLS", "TSLS", "GM_Lag", "ML_Lag", "ML_Error", "GM_Error", "GM_Combo", "GM_Error_Hom", "OLS_Regimes", "TSLS_Regimes",
          "GM_Lag_Regimes", "ML_Error_Regimes", "GM_Error_Regimes"):
    add_case("P30", c + "_frames", frames, cls=c, **(dict(slx=1, n=8) if c in ("OLS", "GM_Error") else {}))


def two_models(ctx, spreg):
    """fitting a second, different model (same data and weights) leaves the first one alone"""
    p = dict(ctx.p)
    z = zoo.make(ctx, spreg, p["cls"], n=8)
    before = {k: snap(v) for k, v in z.kw.items()}
    m1 = z.fit(ctx)
    v1 = zoo.values(m1)
    for c in p["others"]:
        o = zoo.make(ctx, spreg, c, n=8)
        for k in ("y", "x", "w", "yend", "q", "regimes"):
            if k in z.kw and k in o.kw:
                o.kw[k] = z.kw[k]
        o.fit(ctx)
    zoo.same(ctx, "first model after other models", v1, zoo.values(m1), z.skip)
    for k in z.kw:
        untouched(ctx, k, before[k], snap(z.kw[k]))


add_case("P30", "others_OLS", two_models, cls="OLS", others=["ML_Lag", "GM_Error", "TSLS"])
add_case("P30", "others_ML_Lag", two_models, cls="ML_Lag", others=["OLS", "ML_Error", "GM_Lag"])
add_case("P30", "others_GM_Lag", two_models, cls="GM_Lag", others=["TSLS", "GM_Combo", "ML_Error"])
add_case("P30", "others_GM_Error_Het", two_models, cls="GM_Error_Het", others=["GM_Error_Hom", "GM_Error", "OLS"])
add_case("P30", "others_OLS_Regimes", two_models, cls="OLS_Regimes", others=["ML_Error_Regimes", "GM_Lag_Regimes", "GM_Error_Regimes"])


# ---- tests on fitted models, search strategies, generators, helpers ----------------------------------------------------------------
def tests(ctx, spreg):
    """diagnostics of a fitted model leave it and the weights alone and give the same twice"""
    p = ctx.p
    z = zoo.make(ctx, spreg, p["on"], n=8, opaque=True)
    m = z.fit(ctx)
    v, sw = zoo.values(m), snap(z.w)
    fn = dict(LM=lambda: vars(spreg.LMtests(m, z.w, tests=["lme", "lml", "rlme", "rlml", "sarma"])),
              AK=lambda: vars(spreg.AKtest(m, z.w, case=p.get("case", "nosp"))),
              moran=lambda: vars(spreg.MoranRes(m, z.w, z=True)),
              wald=lambda: vars(spreg.Wald(m, ctx.A([[1, -1]]), ctx.A([[0]]))),
              vif=lambda: dict(v=[x for q in spreg.vif(m) if q is not None for x in q]),
              bp=lambda: spreg.breusch_pagan(m), kb=lambda: spreg.koenker_bassett(m), white=lambda: spreg.white(m),
              jb=lambda: spreg.jarque_bera(m), ci=lambda: dict(c=spreg.condition_index(m)), f=lambda: dict(f=list(spreg.f_stat(m))),
              t=lambda: dict(t=[x for q in spreg.t_stat(m) for x in q]), ll=lambda: dict(l=spreg.log_likelihood(m)),
              consts=lambda: dict(c=spreg.constant_check(m.x)))[p["test"]]

    def read():
        r = fn()
        out = {}
        for k, x in (r if isinstance(r, dict) else {"r%s" % i: q for i, q in enumerate(r)} if isinstance(r, (list, tuple)) else {"r": r}).items():
            zoo.put(out, k, x, set(), 1)
        return out
    a = read()
    zoo.same(ctx, "second time", a, read())
    zoo.same(ctx, "the model after the test", v, zoo.values(m))
    untouched(ctx, "w", sw, snap(z.w))


for t in ("LM", "moran", "vif", "bp", "kb", "white", "jb", "f", "t", "ll", "consts"):
    add_case("P30", "test_%s" % t, tests, on="OLS", test=t)
add_case("P30", "test_AK", tests, on="TSLS", test="AK")
add_case("P30", "test_AK_lag", tests, on="GM_Lag", test="AK", case="gen")


def generators(ctx, spreg):
    """data generating functions"""
    n = 6
    w = ctx.W(D6)
    u, x = yline(ctx, n), cols(ctx, X1, X2, n=n)
    xb = cols(ctx, X3, n=n)
    wx = ctx.dot(ctx.dense(w), x)
    rho, lam = ctx.num(F(1, 4)), ctx.num(F(1, 5))
    calls = [("make_x", None), ("make_xb", lambda: spreg.dgp.make_xb(x, B(2))), ("make_wx", lambda: spreg.dgp.make_wx(x, w, 2)),
             ("dgp_ols", lambda: spreg.dgp.dgp_ols(u, xb)), ("dgp_slx", lambda: spreg.dgp.dgp_slx(u, xb, wxg)),
             ("dgp_sperror", lambda: spreg.dgp.dgp_sperror(u, xb, w, lam)), ("dgp_slxerror", lambda: spreg.dgp.dgp_slxerror(u, xb, wxg, w, lam)),
             ("dgp_lag", lambda: spreg.dgp.dgp_lag(u, xb, w, rho)), ("dgp_spdurbin", lambda: spreg.dgp.dgp_spdurbin(u, xb, wxg, w, rho)),
             ("dgp_lagerr", lambda: spreg.dgp.dgp_lagerr(u, xb, w, rho, lam)), ("dgp_gns", lambda: spreg.dgp.dgp_gns(u, xb, wxg, w, rho, lam)),
             ("dgp_probit", lambda: spreg.dgp.dgp_probit(u, xb)),
             ("make_wxg", lambda: spreg.dgp.make_wxg(wx, G())), ("make_error", None)]
    beta, gam = [1, 2], [F(1, 2), F(1, 3)]
    B = lambda k: beta_
    beta_ = [ctx.num(1), ctx.num(2), ctx.num(F(1, 2))]
    G = lambda: gam_
    gam_ = [ctx.num(F(1, 2)), ctx.num(F(1, 3))]
    wxg = ctx.dot(wx, ctx.colvec(gam_))
    things = dict(u=u, x=x, xb=xb, w=w, wx=wx, wxg=wxg, beta=beta_, gamma=gam_)
    for nm, f in calls:
        if f is None:
            continue
        r1 = watch(ctx, things, f)
        r2 = f()
        zoo.equal(ctx, nm + ": the same twice", list(np.asarray(r1).reshape(-1)), list(np.asarray(r2).reshape(-1)))


add_case("P30", "generators", generators)


def again(ctx, things, nm, fn):
    """call twice watching every object in `things`; the two results are the same"""
    r1 = snap(watch(ctx, things, fn))
    r2 = snap(fn())
    ctx.prove_true(nm + ": same kind twice", r1[0] == r2[0], (r1[0], r2[0]))
    if r1[0] == r2[0] and r1[0] != "one":
        untouched(ctx, nm + " (second call)", r1, r2)


def multipliers(ctx, spreg):
    """multipliers and filters of weights given as objects, dense or sparse matrices"""
    S, U = spreg.sputils, spreg.utils
    w = ctx.W(D6)
    n = 6
    Wd = ctx.dense(w) + ctx.num(0)
    K = ctx.A([[ctx.var("k%d%d" % (i, j), F(2 + i + 2 * j, 19), 0) if (j in D6[i] or i == j) else ctx.num(0) for j in range(n)] for i in range(n)])
    sp = S.SP.csr_matrix(K)
    rho, two = ctx.num(F(1, 4)), 2
    x, y = cols(ctx, X1, X2, n=n), yline(ctx, n)
    things = dict(w=w, dense=Wd, kernel=K, sparse=sp, x=x, y=y)
    before = K + ctx.num(0)
    for lab, src, model, c in (("lag W", w, "lag", rho), ("slx W", w, "slx", rho), ("lag dense", Wd, "lag", rho), ("slx dense", Wd, "slx", 0),
                               ("kernel dense", K, "kernel", 0), ("slx dense with a diagonal", K, "slx", 0), ("kernel W", w, "kernel", 0),
                               ("power", sp, "power", two), ("exponential", sp, "exponential", rho)):
        again(ctx, things, "i_multipliers " + lab, lambda: S.i_multipliers(src, coef=c, model=model))
        zoo.equal(ctx, "sparse weights after " + lab, list(np.asarray(sp.toarray()).reshape(-1)), list(before.reshape(-1)))
    for lab, fn in (("spmultiplier simple", lambda: S.spmultiplier(w, rho)), ("spmultiplier full", lambda: S.spmultiplier(w, rho, method="full")),
                    ("spmultiplier power", lambda: S.spmultiplier(w, rho, method="power", mtol=0.01)),
                    ("get_spFilter", lambda: U.get_spFilter(w, rho, y)), ("get_spFilter x", lambda: U.get_spFilter(w, rho, x)),
                    ("inverse_prod true", lambda: U.inverse_prod(w, y, rho, inv_method="true_inv")),
                    ("inverse_prod dense", lambda: U.inverse_prod(Wd, x, rho, inv_method="true_inv", post_multiply=False)),
                    ("power_expansion", lambda: U.power_expansion(w, x, rho, max_iterations=3)),
                    ("inverse_prod power", lambda: U.inverse_prod(w, x, rho, inv_method="power_exp", max_iterations=3))):
        again(ctx, things, lab, fn)


def lags(ctx, spreg):
    """spatial lags, instruments, names and designs"""
    U, O, R = spreg.utils, spreg.user_output, spreg.regimes
    n = 6
    w = ctx.W(D6)
    x, y = cols(ctx, X1, X2, n=n), yline(ctx, n)
    yend, q = ctx.colvec([ctx.num(v) for v in X3[:n]]), cols(ctx, [a * a for a in X1], [a * b + 1 for a, b in zip(X1, X2)], n=n)
    xc = np.hstack((ctx.ones((n, 1)), x))
    names, nq, nv, ny = ["one", "two"], ["q1", "q2"], [True, False], ["e1"]
    regs = ["b", "a", "b", "a", "b", "a"]
    ids = {"a": [1, 3, 5], "b": [0, 2, 4]}
    things = dict(w=w, x=x, y=y, yend=yend, q=q, xc=xc, names=names, nq=nq, nv=nv, ny=ny, regs=regs, ids=ids)
    c2r = [True, False]
    things["c2r"] = c2r
    lab_fn = [("get_lags", lambda: U.get_lags(w, x, 3)), ("get_lags_split", lambda: U.get_lags_split(w, x, 3, 1)),
              ("set_endog none", lambda: U.set_endog(y, x, w, None, None, 2, True)),
              ("set_endog", lambda: U.set_endog(y, x, w, yend, q, 2, True)), ("set_endog not q", lambda: U.set_endog(y, x, w, yend, q, 1, False)),
              ("set_endog slx", lambda: U.set_endog(y, x, w, yend, q, 1, True, 1, nv)),
              ("set_endog slx all", lambda: U.set_endog(y, x, w, None, None, 1, True, 2)),
              ("set_endog_sparse", lambda: U.set_endog_sparse(y, x, w.sparse, yend, q, 1, True)),
              ("sp_att", lambda: U.sp_att(w, y, y, U.lag_spatial(w, y), ctx.num(F(1, 4)))),
              ("flex_wx", lambda: O.flex_wx(w, x, names, constant=False)), ("flex_wx const", lambda: O.flex_wx(w, xc, ["c"] + names)),
              ("flex_wx 2", lambda: O.flex_wx(w, x, names, constant=False, slx_lags=2, slx_vars=nv)),
              ("check_constant", lambda: O.check_constant(x, names)), ("check_constant no names", lambda: O.check_constant(x)),
              ("check_constant dropped", lambda: O.check_constant(xc, ["c"] + names)),
              ("set_name_x", lambda: O.set_name_x(names, x)), ("set_name_x given", lambda: O.set_name_x(names, x, constant=True)),
              ("set_name_spatial_lags", lambda: O.set_name_spatial_lags(names, 2)), ("set_name_spatial_lags vars", lambda: O.set_name_spatial_lags(names, 2, nv)),
              ("set_name_q_sp", lambda: O.set_name_q_sp(["CONSTANT"] + names, 2, nq, True)), ("set_name_q_sp no q", lambda: O.set_name_q_sp(["CONSTANT"] + names, 1, nq, False)),
              ("set_name_q", lambda: O.set_name_q(nq, q)), ("set_name_h", lambda: O.set_name_h(names, nq)), ("set_name_yend", lambda: O.set_name_yend(ny, yend)),
              ("regimeX_setup", lambda: R.regimeX_setup(x, regs, [True, False], ["a", "b"], constant=True)),
              ("regimeX_setup many", lambda: R.regimeX_setup(x, regs, c2r, ["a", "b"])),
              ("x2xsp", lambda: R.x2xsp(x, regs, ["a", "b"])),
              ("check_cols2regi", lambda: R.check_cols2regi("many", c2r, x)),
              ("w_regime", lambda: R.w_regime(w, ids["a"], 0)), ("w_regimes", lambda: R.w_regimes(w, regs, ["a", "b"])),
              ("w_regimes raw", lambda: R.w_regimes(w, regs, ["a", "b"], transform=False, get_ids=True)),
              ("buildR", lambda: R.buildR(2, 1, 2)), ("buildR1var", lambda: R.buildR1var(1, 2, 1, 0, 2)),
              ("check_regimes", lambda: O.check_regimes(["a", "b"], n, 1)), ("check_reg_list", lambda: O.check_reg_list(regs, None, n))]
    for lab, fn in lab_fn:
        again(ctx, things, lab, fn)


def systems(ctx, spreg):
    """the helpers of the systems of equations"""
    S = spreg.sur_utils
    N, T = 3, 2
    y1, y2 = (ctx.colvec([ctx.num(v) for v in Y0[o:o + N]]) for o in (0, 4))
    x1, x2 = cols(ctx, [1] * 8, X1, n=N), cols(ctx, [1] * 8, X2, n=N)
    by, bX, bb = {0: y1, 1: y2}, {0: x1, 1: x2}, {0: ctx.colvec([ctx.var("b0", 1), ctx.num(2)]), 1: ctx.colvec([ctx.num(3), ctx.num(F(1, 2))])}
    lam = ctx.colvec([ctx.num(F(1, 4)), ctx.num(F(1, 3))])
    wX = {0: x2 + ctx.num(1), 1: x1 * ctx.num(2)}
    sig = ctx.A([[4, 1], [1, 2]])
    mat = np.hstack((x1[:, 1:], x2[:, 1:]))
    bK = np.array([[2], [2]])
    things = dict(by=by, bX=bX, bb=bb, lam=lam, wX=wX, sig=sig, mat=mat, bK=bK)
    for lab, fn in (("sur_crossprod", lambda: S.sur_crossprod(bX, by)), 
                    ("sur_resids", lambda: S.sur_resids(by, bX, bb)), ("sur_predict", lambda: S.sur_predict(by, bX, bb)),
                    ("filter_dict", lambda: S.filter_dict(lam, bX, wX)), ("sur_corr", lambda: S.sur_corr(sig)),
                    ("sur_dict2mat", lambda: S.sur_dict2mat(bb)), ("sur_mat2dict", lambda: S.sur_mat2dict(ctx.A([[1], [2], [3], [4]]), bK)),
                    ("check_k", lambda: S.check_k(bK)),
                    ("sur_est", lambda: S.sur_est(*S.sur_crossprod(bX, by), np.hstack((y1, y2)), bK))):
        again(ctx, things, lab, fn)
    import pandas as pd
    col = lambda c: ctx.vec1([ctx.num(v) for v in c[:6]])
    db = pd.DataFrame(dict(y=col(Y0), a=col(X1), b=col(X2)))
    db["area"], db["time"] = [1, 3, 2, 2, 1, 3], [1, 1, 1, 2, 2, 2]
    yv, xv, si, ti = ["y"], [["a", "b"]], ["area"], ["time"]
    again(ctx, dict(db=db, yv=yv, xv=xv, si=si, ti=ti), "sur_dictxy", lambda: S.sur_dictxy(db, yv, xv, space_id=si, time_id=ti))
    again(ctx, dict(db=db, xv=xv, si=si, ti=ti), "sur_dictZ", lambda: S.sur_dictZ(db, xv, space_id=si, time_id=ti))
    yw, xw = ["y", "a"], [["a", "b"], ["b"]]
    again(ctx, dict(db=db, yw=yw, xw=xw), "sur_dictxy wide", lambda: S.sur_dictxy(db, yw, xw))
    again(ctx, dict(db=db, xw=xw), "sur_dictZ wide", lambda: S.sur_dictZ(db, xw, const=True))


def more_generators(ctx, spreg):
    D = spreg.dgp
    n = 6
    w = ctx.W(D6)
    u, x = yline(ctx, n), cols(ctx, X1, X2, n=n)
    xb, v = ctx.colvec([ctx.num(a) for a in X3[:n]]), ctx.colvec([ctx.num(F(1 + i, 3)) for i in range(n)])
    lam = ctx.num(F(1, 5))
    gam, bet = [ctx.num(F(1, 2)), ctx.num(F(1, 3))], [ctx.num(1), ctx.num(2), ctx.num(F(1, 2))]
    things = dict(u=u, x=x, xb=xb, v=v, w=w, gam=gam, bet=bet)
    for lab, fn in (("errproc", lambda: D.dgp_errproc(u, w, lam, imethod="true_inv")), ("errproc ma", lambda: D.dgp_errproc(u, w, lam, model="ma")),
                    ("heterror", lambda: D.make_heterror(u, v)), ("xb", lambda: D.make_xb(x, bet)), ("wx1", lambda: D.make_wx(x, w)),
                    ("wx3", lambda: D.make_wx(x, w, 3)), ("wxg", lambda: D.make_wxg(x, gam)), ("bin", lambda: D.make_bin(u)),
                    ("ols", lambda: D.dgp_ols(u, xb)), ("error ma", lambda: D.dgp_sperror(u, xb, w, lam, model="ma")),
                    ("lag ybin", lambda: D.dgp_lag(u, xb, w, lam, imethod="true_inv", ybin=True)),
                    ("gns ma", lambda: D.dgp_gns(u, xb, v, w, lam, lam, model="ma", imethod="true_inv")), ("vmult", lambda: D.make_vmult(n))):
        again(ctx, things, "dgp " + lab, fn)


add_case("P30", "helpers_multipliers", multipliers)
add_case("P30", "helpers_lags", lags)
add_case("P30", "helpers_systems", systems)
add_case("P30", "generators_more", more_generators)


def probit(ctx, spreg):
    p = ctx.p
    n = 6
    y, x, w = ctx.col([0, 1, 1, 0, 1, 0]), cols(ctx, [1, 3, -2, 2, -1, 4], [2, -1, 1, 3, -2, -3], n=n), ctx.W(D6)
    k = 3 + (2 if p.get("slx") else 0)
    b = [ctx.var("b%d" % i, F(1, 5 + i)) if i == 1 else ctx.num(F(1, 5 + i)) for i in range(k)]
    names = ["p", "q"]
    ctx.cut("probit")
    ctx.opaque()
    kw = dict(y=y, x=x, w=w, bstart=b, name_x=names, maxiter=0, predflag=True)
    if p.get("slx"):
        kw.update(slx_lags=1)
    if p.get("sdiag"):
        kw.update(spat_diag=True)
    m1 = watch(ctx, kw, lambda: spreg.Probit(**kw))
    v1 = zoo.values(m1)
    m2 = spreg.Probit(**kw)
    zoo.same(ctx, "second fit", v1, zoo.values(m2), SKIP)
    zoo.same(ctx, "first model after the second fit", v1, zoo.values(m1), SKIP)


def nslx(ctx, spreg):
    import p27_nslx as N
    p = ctx.p
    n = 6
    y, x = yline(ctx, n), cols(ctx, X1, X2, n=n)
    coords = np.arange(2.0 * n).reshape(n, 2)
    names, params = ["p", "q"], [(2, np.inf, t) for t in p["tr"]]
    mask = p.get("mask")
    h = sum(mask) if mask else 2
    ctx.opaque()
    for j in range(h):
        ctx.opt_box[(0, 3 + j)] = (F(0), F(8))
        ctx.opt_box[(1, 3 + j)] = (F(0), F(8))
    tab = lambda k, b: [[(N.NB[n][i][j], ctx.num(F((i + 2) * (j + 1) * 2, 2))) for j in range(k)] for i in range(n)]
    kw = dict(y=y, x=x, coords=coords, params=params, name_x=names)
    if mask:
        kw["slx_vars"] = mask
    with N.patched(ctx, tab):
        m1 = watch(ctx, kw, lambda: spreg.NSLX(**kw))
        v1 = zoo.values(m1)
        ctx.same_opt(0)
        m2 = spreg.NSLX(**kw)
    zoo.same(ctx, "second fit", v1, zoo.values(m2), SKIP)
    zoo.same(ctx, "first model after the second fit", v1, zoo.values(m1), SKIP)


add_case("P30", "Probit", probit)
add_case("P30", "Probit_slx", probit, slx=True)
add_case("P30", "Probit_spat_diag", probit, sdiag=True)
add_case("P30", "NSLX", nslx, tr=["exponential"])
add_case("P30", "NSLX_power", nslx, tr=["power"])
add_case("P30", "NSLX_two", nslx, tr=["power", "exponential"])
add_case("P30", "NSLX_vars", nslx, tr=["power", "exponential"], mask=[False, True])
