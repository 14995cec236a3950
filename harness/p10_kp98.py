"""KP98 GM error family: n = 6..8, moments with y on a symbolic line, second stage with lambda symbolic in (-0.99,0.99); asymmetric
weights, with and without WX terms, endogenous regressors, spatial lag."""
from symx.ctx import add_case
from common import *
import momcases
from p06_lag import design

momcases.register("P10")


def setup(ctx):
    p = ctx.p
    n = p.get("n", 6)
    nb = {"contig": {6: G6, 7: G7, 8: G8}, "asym": {6: D6, 8: D8}}[p.get("w", "asym")][n]
    if p.get("wsym"):
        wt = {i: [ctx.num(F(i + j + 2, 9 + 4 * i)) for j in range(len(v))] for i, v in nb.items()}
        wt[0][0] = ctx.var("wa", F(1, 4), 0, F(1, 2))
        w = ctx.W(nb, wt, transform=None)
    else:
        w = ctx.W(nb)
    Wd = ctx.dense(w)
    y = cols(ctx, Y0, n=n) if p.get("ycon") else yline(ctx, n)
    x = cols(ctx, X1, X2, n=n)[:, :p.get("kx", 1)]
    ye, q = (cols(ctx, YE, n=n), cols(ctx, Q1, Q2, n=n)) if p.get("endo") else (None, None)
    return n, w, Wd, y, x, ye, q


def fit(ctx, spreg, est, fam, y, x, w, ye, q, **kw):
    nm = dict(error="GM_Error", endo="GM_Endog_Error", combo="GM_Combo")[est] + fam
    if est != "error" and ye is not None:
        kw.update(yend=ye, q=q)
    return getattr(spreg, nm)(y, x, w=w, **kw)


def first(ctx, est, y, x, Wd, ye, q, p):
    """first stage: regressors, instruments, residuals"""
    slx = p.get("slx", 0)
    X, Z, H = design(ctx, y, x, Wd, ye if est == "combo" else None, q, p.get("w_lags", 1), p.get("lag_q", True), slx, None)
    if est == "error":
        return X, X, X, OLSRef(ctx, y, X).e
    if est == "endo":
        Z, H = np.hstack([X, ye]), np.hstack([X, q])
    return X, Z, H, TSLSRef(ctx, y, Z, H).e


def moments_case(ctx, spreg):
    p = ctx.p
    ctx.cut("optim_moments")
    ctx.opaque()
    n, w, Wd, y, x, ye, q = setup(ctx)
    est = p["est"]
    kw = dict(slx_lags=p["slx"]) if p.get("slx") else {}
    for k in ("w_lags", "lag_q"):
        if k in p:
            kw[k] = p[k]
    if p.get("hb"):
        kw["hard_bound"] = True
    ctx.until_moments(1, lambda: fit(ctx, spreg, est, "", y, x, w, ye, q, **kw))
    u = first(ctx, est, y, x, Wd, ye, q, p)[3]
    G, g = kp98(ctx, u, Wd)
    moments(ctx, 0, G, g, hard_bound=bool(p.get("hb")))


def stage2(ctx, spreg):
    p = ctx.p
    ctx.cut("optim_moments")
    ctx.opaque()
    n, w, Wd, y, x, ye, q = setup(ctx)
    est = p["est"]
    kw = dict(slx_lags=p["slx"]) if p.get("slx") else {}
    for k in ("w_lags", "lag_q"):
        if k in p:
            kw[k] = p[k]
    m = fit(ctx, spreg, est, "", y, x, w, ye, q, **kw)
    lam = ctx.opt.calls[0]["x"][0]
    X, Z, H, u0 = first(ctx, est, y, x, Wd, ye, q, p)
    d = ctx.dot
    B = ctx.eye(n) - lam * Wd
    k = Z.shape[1]
    r = OLSRef(ctx, d(B, y), d(B, X)) if est == "error" else TSLSRef(ctx, d(B, y), d(B, Z), H)
    ctx.prove_eq("coefficients and lambda", m.betas, np.vstack([r.b, ctx.colvec([lam])]), shape=(k + 1, 1))
    fitv = d(Z, r.b)
    ctx.prove_eq("fitted values", m.predy, fitv)
    ctx.prove_eq("residuals", m.u, y - fitv)
    ctx.prove_eq("filtered residuals", m.e_filtered, d(B, y - fitv))
    ctx.prove_eq("error variance", m.sig2, r.s2n)
    V = r.s2n * (r.xtxi if est == "error" else r.varb)
    ctx.prove_eq("variance", m.vm, V, shape=(k, k))
    se = [ctx.sqrt(v) for v in diagvec(V)]
    ctx.prove_eq("standard errors", list(m.std_err)[:k], se)
    z = [r.b[i, 0] / se[i] for i in range(k)]
    ctx.prove_eq("z statistics", m.z_stat[:k], pairs([(v, ctx.p2(v)) for v in z]))
    ctx.prove_eq("pseudo R2", m.pr2, corr2(y, fitv))
    ctx.prove_eq("table", [list(m.output["coefficients"]), list(m.output["std_err"])[:k], list(m.output["zt_stat"])[:k]],
                 [list(r.b[:, 0]) + [lam], se, z])
    if est == "combo":
        rho = r.b[-1, 0]
        ctx.prove_eq("rho", m.rho, rho)
        if abs(rho) < 1:
            ctx.prove_eq("reduced form prediction", d(ctx.eye(n) - rho * Wd, m.predy_e), fitv - rho * d(Wd, y))
            ctx.prove_eq("reduced form residual", m.e_pred, y - m.predy_e)
            ctx.prove_eq("spatial pseudo R2", m.pr2_e, corr2(y, m.predy_e))


add_case("P10", "error_moments", moments_case, est="error", kx=2)
add_case("P10", "error_moments_hard", moments_case, est="error", hb=True)
add_case("P10", "error_moments_weights", moments_case, est="error", wsym=True, ycon=True)
add_case("P10", "error_moments_slx", moments_case, est="error", slx=1)
add_case("P10", "endog_moments", moments_case, est="endo", endo=True)
add_case("P10", "endog_moments_hard", moments_case, est="endo", endo=True, hb=True, ycon=True)
add_case("P10", "endog_moments_contig", moments_case, est="endo", endo=True, w="contig", n=7)
add_case("P10", "combo_moments", moments_case, est="combo")
add_case("P10", "combo_moments_hard", moments_case, est="combo", hb=True, ycon=True)
add_case("P10", "combo_moments_endo", moments_case, est="combo", endo=True, n=8, ycon=True)
add_case("P10", "combo_moments_slx", moments_case, est="combo", slx=1, n=8, ycon=True)
add_case("P10", "error", stage2, est="error", kx=2, ycon=True)
add_case("P10", "error_line", stage2, est="error")
add_case("P10", "error_slx", stage2, est="error", slx=1, ycon=True)
add_case("P10", "endog", stage2, est="endo", endo=True, ycon=True)
add_case("P10", "endog_kx2_contig", stage2, est="endo", endo=True, kx=2, ycon=True, w="contig", n=8)
add_case("P10", "combo", stage2, est="combo", ycon=True)
add_case("P10", "combo_wlags2", stage2, est="combo", ycon=True, w_lags=2, n=8)
add_case("P10", "combo_endo", stage2, est="combo", ycon=True, endo=True, n=8)
add_case("P10", "combo_endo_nolagq", stage2, est="combo", ycon=True, endo=True, n=8, lag_q=False)
add_case("P10", "combo_slx", stage2, est="combo", ycon=True, slx=1, n=8)
