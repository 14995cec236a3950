"""Maximum likelihood spatial lag: n = 4..6, y on a symbolic line, rho symbolic in (-1,1), symmetric and asymmetric weights; the
eigenvalue method on structures whose row-standardised spectrum is rational."""
from symx.ctx import add_case
from common import *

AS6 = {0: [1, 3], 1: [0, 2], 2: [1, 3], 3: [2, 0], 4: [0, 1], 5: [4, 2]}
CYC6 = {i: [(i + 1) % 6, (i + 2) % 6] for i in range(6)}          # complex eigenvalues
STAR4 = {0: [1, 2, 3], 1: [0], 2: [0], 3: [0]}
STARW = dict(sym={0: [1, 4, 4], 1: [1], 2: [4], 3: [4]}, asym={0: [1, 4, 4], 1: [1], 2: [1], 3: [1]},
             sym_o={0: [F(1, 6), F(1, 3), F(1, 3)], 1: [F(1, 6)], 2: [F(1, 3)], 3: [F(1, 3)]},
             asym_o={0: [F(1, 4), F(1, 2), F(1, 2)], 1: [F(1, 4)], 2: [F(1, 4)], 3: [F(1, 8)]})
ORD = "ml-ord-variance"
STRUCT = dict(CYC6=CYC6, K4=K4, C4=C4, K5=K5, OCT=OCT, PRISM=PRISM, STAR5=STAR5, AS6=AS6, G5=G5, D6=D6, G6=G6)


def setup(ctx):
    p = ctx.p
    nb = STAR4 if p["s"] in STARW else STRUCT[p["s"]]
    n = len(nb)
    if p["s"] in STARW:         # general weights, as given (_o) or row standardised
        w = ctx.W(nb, {i: [ctx.num(v) if p["s"][-2:] == "_o" else v for v in r] for i, r in STARW[p["s"]].items()},
                  transform=None if p["s"][-2:] == "_o" else "r")
    elif p.get("wsym"):
        wt = {i: [ctx.num(F(i + j + 2, 9 + 4 * i)) for j in range(len(v))] for i, v in nb.items()}
        wt[0][0] = ctx.var("wa", F(1, 4), 0, F(1, 2))
        w = ctx.W(nb, wt, transform=None)
    else:
        w = ctx.W(nb)
    y = cols(ctx, Y0, n=n) if p.get("wsym") else yline(ctx, n)
    x = cols(ctx, X1, X2, n=n)[:, :p.get("kx", 1)]
    return n, w, ctx.dense(w), y, x


def logdetB(ctx, n, Wd, r):
    return ctx.log(ctx.det(ctx.eye(n) - r * Wd))


def objective(ctx, spreg):
    p = ctx.p
    n, w, Wd, y, x = setup(ctx)
    f = {"lag": spreg.ML_Lag, "error": spreg.ML_Error}[p["model"]]
    kw = dict(spat_impacts=None, spat_diag=False) if p["model"] == "lag" else {}
    X = const(ctx, x)
    if p.get("slx"):
        kw["slx_lags"] = 1
        X = np.hstack([X, ctx.dot(Wd, x)])
    m = f(y, x, w=w, method=p["method"], **kw)
    call = ctx.opt.calls[0]
    lo, hi = call["bounds"] if not isinstance(call["bounds"][0], (tuple, list)) else call["bounds"][0]
    ctx.prove_eq("search interval", [lo, hi], [-1, 1])
    r = ctx.var("r", F(2, 7), -1, 1)
    obj = sc(call["fun"]([r]))
    B = ctx.eye(n) - r * Wd
    ys = ctx.dot(B, y)
    Xs = X if p["model"] == "lag" else ctx.dot(B, X)
    e = OLSRef(ctx, ys, Xs)
    ctx.prove_eq("negative concentrated log-likelihood", obj,
                 ctx.num(F(n, 2)) * ctx.log(e.rss / ctx.num(n)) - ctx.log(ctx.det(B)))
    # the stored log-likelihood is the one at the point returned by the optimiser
    rho = call["x"][0]
    B = ctx.eye(n) - rho * Wd
    e = OLSRef(ctx, ctx.dot(B, y), X if p["model"] == "lag" else ctx.dot(B, X))
    ll = -ctx.num(F(n, 2)) * (ctx.log(e.rss / ctx.num(n)) + ctx.log(2 * ctx.pi) + 1) + ctx.log(ctx.det(B))
    ctx.prove_eq("log-likelihood at the maximiser", m.logll, ll)
    ctx.prove_eq("the spatial parameter is the maximiser", m.betas[-1], rho)


for model in ("lag", "error"):
    P = "P08" if model == "lag" else "P09"
    for method, ss in (("full", ("G5", "D6")), ("LU", ("G5", "D6")), ("ord", ("K4", "C4", "PRISM", "STAR5", "AS6", "CYC6", "sym", "asym", "sym_o",
                                                                                     "asym_o"))):
        for s in ss:
            add_case(P, "objective_%s_%s" % (method, s), objective, model=model, method=method, s=s)
    add_case(P, "objective_slx", objective, model=model, method="full", s="D6", slx=True)
    add_case(P, "objective_weights_full", objective, model=model, method="full", s="G5", wsym=True)
    add_case(P, "objective_weights_LU", objective, model=model, method="lu", s="G5", wsym=True)


def results(ctx, spreg):
    p = ctx.p
    ctx.opaque()
    n, w, Wd, y, x = setup(ctx)
    if p.get("ycon"):
        y = cols(ctx, Y0, n=n)
    X = const(ctx, x)
    kw = {}
    if p.get("slx"):
        kw = dict(slx_lags=1)
        X = np.hstack([X, ctx.dot(Wd, x)])
    m = spreg.ML_Lag(y, x, w=w, method=p["method"], spat_impacts=None, spat_diag=bool(p.get("slx")), **kw)
    d = ctx.dot
    k = X.shape[1]
    r = ctx.opt.calls[0]["x"][0]
    Wy = d(Wd, y)
    b = d(ctx.inv(d(X.T, X)), d(X.T, y - r * Wy))
    u = y - r * Wy - d(X, b)
    ctx.prove_eq("coefficients", m.betas, np.vstack([b, ctx.colvec([r])]), shape=(k + 1, 1))
    ctx.prove_eq("rho", m.rho, r)
    ctx.prove_eq("residuals and fitted values", [m.u, m.predy], [u, y - u])
    s2 = (u * u).sum() / ctx.num(n)
    ctx.prove_eq("error variance", m.sig2, s2)
    B = ctx.eye(n) - r * Wd
    ctx.prove_eq("reduced form prediction", d(B, m.predy_e), d(X, b))
    ctx.prove_eq("prediction error", m.e_pred, y - m.predy_e)
    kk = ctx.num(k + 1)
    ctx.prove_eq("aic", m.aic, 2 * kk - 2 * m.logll)
    ctx.prove_eq("schwarz", m.schwarz, kk * ctx.log(ctx.num(n)) - 2 * m.logll)
    ctx.prove_true("dimensions", (m.n, m.k) == (n, k + 1), (m.n, m.k))
    if p.get("info", True):
        pred = m.predy_e                      # shown above to be the reduced form prediction
        WA = d(Wd, ctx.inv(B))
        t1, t2 = trace(WA), trace(d(WA, WA)) + trace(d(WA.T, WA))
        wp = d(Wd, pred)
        z1, z11 = ctx.zeros((k, 1)), ctx.zeros((1, k))
        xtw = d(X.T, wp) / s2
        info = np.vstack([np.hstack([d(X.T, X) / s2, xtw, z1]),
                          np.hstack([xtw.T, d(wp.T, wp) / s2 + t2, ctx.colvec([t1 / s2])]),
                          np.hstack([z11, ctx.colvec([t1 / s2]), ctx.colvec([n / (2 * s2 * s2)])])])
        known = []
        if p.get("alt"):
            S = alike(ctx, Wd)
            SA = d(S, ctx.inv(ctx.eye(n) - r * S))
            i2 = info.copy()
            i2[k, k] = info[k, k] - trace(d(WA.T, WA)) + trace(d(SA.T, SA))
            known = [(ORD, d(ctx.inv(i2), info))]
        ctx.prove_eq("inverse of the information matrix", d(m.vm1, info), ctx.eye(k + 2), known=known, shape=(k + 2, k + 2))
        ctx.prove_eq("variance is its block for coefficients and rho", m.vm, m.vm1[:-1, :-1], shape=(k + 1, k + 1))
        if p.get("infer", True):
            se = [ctx.sqrt(v) for v in diagvec(m.vm)]
            ctx.prove_eq("standard errors", m.std_err, se)
            z = [m.betas[i, 0] / se[i] for i in range(k + 1)]
            ctx.prove_eq("z statistics", m.z_stat, pairs([(v, ctx.p2(v)) for v in z]))
            ctx.prove_eq("table", [list(m.output["coefficients"]), list(m.output["std_err"]), list(m.output["zt_stat"]), list(m.output["prob"])],
                         [m.betas, se, z, [ctx.p2(v) for v in z]])
    if p.get("pr2"):
        ctx.prove_eq("pseudo R2", m.pr2, corr2(y, m.predy))
        ctx.prove_eq("spatial pseudo R2", m.pr2_e, corr2(y, m.predy_e))


def alike(ctx, W):
    """symmetric matrix similar to a row standardised symmetric one"""
    S = ctx.zeros(W.shape)
    for i in range(len(W)):
        for j in range(len(W)):
            S[i, j] = ctx.sqrt(W[i, j] * W[j, i])
    return S


def corr2(a, b):
    n = a.shape[0]
    da, db = a - a.sum() / n, b - b.sum() / n
    return (da * db).sum() ** 2 / ((da * da).sum() * (db * db).sum())


add_case("P08", "results_K4", results, s="K4", method="full", pr2=True)
add_case("P08", "results_C4_ord", results, s="C4", method="ord", pr2=True)
add_case("P08", "results_G5_lu", results, s="G5", method="LU", ycon=True, pr2=True)
add_case("P08", "results_D6_kx2", results, s="D6", method="full", kx=2, ycon=True)
add_case("P08", "results_AS6_ord", results, s="AS6", method="ord", kx=2, ycon=True)
add_case("P08", "results_CYC6_ord", results, s="CYC6", method="ord", ycon=True, pr2=True)
for s, alt in (("STAR5", True), ("sym", True), ("asym", False), ("sym_o", False), ("asym_o", False)):
    add_case("P08", "results_%s_ord" % s, results, s=s, method="ord", ycon=True, alt=alt, infer=not alt)
add_case("P08", "results_slx", results, s="AS6", method="full", slx=True, ycon=True)


def dispatch(ctx, spreg):
    """ML_Lag rejects unknown methods; weights are required"""
    n, w, Wd, y, x = setup(ctx)
    ctx.raises("weights required", lambda: spreg.ML_Lag(y, x, w=None))


add_case("P08", "required", dispatch, s="G5")
