"""Spatial two stage least squares: n = 6..9, lag orders 1..3, WX orders 0..2 and masks, with and without further endogenous
regressors, lag_q on and off; y on a symbolic line; symmetric, asymmetric and unstandardised weights with a symbolic entry."""
from symx.ctx import add_case
from common import *


def weights(ctx, kind, n):
    if kind == "contig":
        w = ctx.W({6: G6, 7: G7, 8: G8, 9: G9}[n])
    elif kind == "asym":
        w = ctx.W({6: D6, 8: D8}[n])
    else:
        nb = {6: D6, 8: D8, 9: G9}[n]
        wt = {i: [ctx.num(F(i + j + 2, 7 + 4 * i)) for j in range(len(v))] for i, v in nb.items()}
        wt[0][0] = ctx.var("wa", F(1, 4), 0)
        w = ctx.W(nb, wt, transform=None)
    return w, ctx.dense(w)


def powers(ctx, Wd, x, lo, hi):
    out, z = [], x
    for j in range(1, hi + 1):
        z = ctx.dot(Wd, z)
        if j >= lo:
            out.append(z)
    return out


def design(ctx, y, x, Wd, ye, q, w_lags, lag_q, slx, mask):
    """documented regressors and instruments"""
    X = const(ctx, x)
    if slx:
        sel = [j for j in range(x.shape[1]) if mask is None or mask[j]]
        X = np.hstack([X] + [z[:, sel] for z in powers(ctx, Wd, x, 1, slx)])
    inst = powers(ctx, Wd, x, slx + 1, slx + w_lags)
    endo = [ctx.dot(Wd, y)]
    if ye is not None:
        endo = [ye] + endo
        inst = [q] + inst + (powers(ctx, Wd, q, 1, w_lags) if lag_q else [])
    Z = np.hstack([X] + endo)
    H = np.hstack([X] + inst)
    return X, Z, H


def case(ctx, spreg):
    p = ctx.p
    n, kx, w_lags, slx = p["n"], p.get("kx", 2), p.get("w_lags", 1), p.get("slx", 0)
    lag_q = p.get("lag_q", True)
    mask = p.get("mask")
    y = yline(ctx, n)
    x = cols(ctx, X1, X2, X3, n=n)[:, :kx]
    w, Wd = weights(ctx, p.get("w", "contig"), n)
    kw = {}
    ye = q = None
    if p.get("endo"):
        ye, q = cols(ctx, YE, n=n), cols(ctx, Q1, Q2, n=n)[:, :p["endo"]]
        kw = dict(yend=ye, q=q)
    if slx:
        kw["slx_lags"] = slx
        kw["slx_vars"] = mask if mask is not None else "All"
    m = spreg.GM_Lag(y, x, w=w, w_lags=w_lags, lag_q=lag_q, spat_diag=p.get("diag", False), spat_impacts=None,
                     sig2n_k=p.get("nk", False), **kw)
    X, Z, H = design(ctx, y, x, Wd, ye, q, w_lags, lag_q, slx, mask)
    r = TSLSRef(ctx, y, Z, H)
    s2 = r.s2nk if p.get("nk") else r.s2n
    k = Z.shape[1]
    ctx.prove_eq("coefficients", m.betas, r.b, shape=(k, 1))
    ctx.prove_eq("residuals and fitted values", [m.u, m.predy], [r.e, r.fit])
    ctx.prove_eq("variance", m.vm, s2 * r.varb, shape=(k, k))
    ctx.prove_eq("error variance", m.sig2, s2)
    ctx.prove_eq("rho is the coefficient of Wy", m.rho, r.b[-1])
    ctx.prove_eq("endogenous regressors", m.yend, Z[:, X.shape[1]:])
    ctx.prove_eq("spatial regressors", m.x, X)
    if p.get("inst", True):
        hs = m.h.shape[1] == H.shape[1]
        ctx.prove_true("number of instruments", hs, "%s, documented %s" % (m.h.shape, H.shape))
    rho = r.b[-1, 0]
    if p.get("pred", True):
        xb = r.fit - rho * Z[:, [-1]]
        B = ctx.eye(n) - rho * Wd
        if abs(rho) < 1:
            ctx.prove_eq("reduced form prediction", ctx.dot(B, m.predy_e), xb)
            ctx.prove_eq("reduced form residual", m.e_pred, y - m.predy_e)
            ctx.prove_true("no boundary warning", "outside the boundary" not in getattr(m, "warning", ""))
            ctx.prove_eq("spatial pseudo R2", m.pr2_e, corr2(y, m.predy_e))
            ctx.runs("accepted under the hard bound", lambda: spreg.GM_Lag(
                y, x, w=w, w_lags=w_lags, lag_q=lag_q, spat_diag=False, spat_impacts=None, hard_bound=True, **kw))
        else:
            ctx.prove_true("boundary warning", "outside the boundary" in getattr(m, "warning", ""))
            ctx.prove_eq("no prediction outside the bound", m.predy_e, ctx.zeros((n, 1)))
            ctx.raises("refused under the hard bound", lambda: spreg.GM_Lag(
                y, x, w=w, w_lags=w_lags, lag_q=lag_q, spat_diag=False, spat_impacts=None, hard_bound=True, **kw))
        ctx.prove_eq("pseudo R2", m.pr2, corr2(y, r.fit))
        se = ctx.sqrt(diagvec(s2 * r.varb))
        z = [r.b[i, 0] / se[i] for i in range(k)]
        ctx.prove_eq("z statistics", m.z_stat, pairs([(v, ctx.p2(v)) for v in z]))
    if p.get("diag"):
        T = trace(ctx.dot(Wd.T, Wd) + ctx.dot(Wd, Wd))
        c = sc(ctx.dot(r.e.T, Wd, r.e)) / r.s2n
        a = ctx.dot(r.e.T, Wd, Z)
        ak = c * c / (T + 4 / r.s2n * sc(ctx.dot(a, r.varb, a.T)))
        ctx.prove_eq("AK test", m.ak_test, [ak, ctx.chi2sf(ak, 1)])
        if slx == 1 and ye is None and mask is None:
            b, g = r.b[1:kx + 1], r.b[kx + 1:2 * kx + 1]
            idx = list(range(1, 2 * kx + 1)) + [k - 1]
            V = (s2 * r.varb)[idx][:, idx]
            f = rho * b + g
            G = np.vstack([rho * ctx.eye(kx), ctx.eye(kx), b.T])
            cf = sc(ctx.dot(f.T, ctx.inv(ctx.dot(G.T, V, G)), f))
            ctx.prove_eq("common factor test", m.cfh_test, [cf, ctx.chi2sf(cf, kx)])
        else:
            ctx.prove_true("no common factor test", not hasattr(m, "cfh_test"))


def corr2(a, b):
    n = a.shape[0]
    a = a - a.sum() / n
    b = b - b.sum() / n
    return (a * b).sum() * (a * b).sum() / ((a * a).sum() * (b * b).sum())


C = lambda name, **k: add_case("P06", name, case, **k)
C("plain_n6", n=6, kx=1, w="contig", diag=True)
C("asym_n6", n=6, kx=1, w="asym", diag=True, w_lags=2)
C("symw_n6", n=6, kx=1, w="symw", pred=False, diag=True)
C("k2_n8", n=8, kx=2, w="asym", nk=True, diag=True)
C("lags3_n9", n=9, kx=1, w="contig", w_lags=3, pred=False)
C("endo_lagq", n=8, kx=1, w="asym", endo=1, diag=True)
C("endo_nolagq", n=8, kx=1, w="contig", endo=2, lag_q=False)
C("endo_lags2", n=9, kx=1, w="contig", endo=1, w_lags=2, pred=False)
C("slx1", n=8, kx=2, w="asym", slx=1, diag=True)
C("slx2", n=9, kx=1, w="contig", slx=2, pred=False)
C("slx1_lags2", n=9, kx=1, w="contig", slx=1, w_lags=2, pred=False, diag=True)
C("slx_mask", n=8, kx=2, w="asym", slx=1, mask=[False, True], pred=False, diag=True)
C("slx_endo", n=9, kx=1, w="contig", slx=1, endo=1, pred=False)
C("slx2_endo_nolagq", n=9, kx=1, w="contig", slx=2, endo=2, lag_q=False, pred=False)
C("endo_lags3", n=9, kx=1, w="contig", endo=1, w_lags=3, lag_q=False, pred=False)
C("symw_pred", tier="thorough", n=6, kx=1, w="symw", diag=True)


def predict(ctx, spreg):
    """reduced form at an arbitrary parameter"""
    n = 6
    from spreg.utils import sp_att
    w, Wd = weights(ctx, "symw", n)
    y, xb = cols(ctx, Y0, n=n), yline(ctx, n)
    rho = ctx.var("rho", F(1, 3))
    wy = ctx.dot(Wd, y)
    pe, e, warn = sp_att(w, y, xb + rho * wy, wy, rho)
    if abs(rho) < 1:
        ctx.prove_eq("reduced form", ctx.dot(ctx.eye(n) - rho * Wd, pe), xb)
        ctx.prove_eq("residual", e, y - pe)
        ctx.prove_true("no warning", not warn)
    else:
        ctx.prove_eq("zero prediction", [pe, e], [ctx.zeros((n, 1))] * 2)
        ctx.prove_true("warned", bool(warn))
        ctx.raises("hard bound", lambda: sp_att(w, y, xb, wy, rho, hard_bound=True))


add_case("P06", "sp_att", predict)
