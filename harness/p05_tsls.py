"""Two stage least squares: n = 6..9, k = 2..5 coefficients, one or two endogenous regressors, over- and exactly identified;
y fully symbolic or on a line, endogenous regressor on a line; both variance divisors."""
from symx.ctx import add_case
from common import *


def tsls(ctx, spreg):
    p = ctx.p
    n, kx, ne, nq = p["n"], p["kx"], p["ne"], p["nq"]
    y = yfull(ctx, n) if p["y"] == "full" else yline(ctx, n)
    x = cols(ctx, X1, X2, n=n)[:, :kx]
    ye = xline(ctx, n, YE, D2) if p.get("esym") else cols(ctx, YE, n=n)
    if ne == 2:
        ye = np.hstack([ye, cols(ctx, X3, n=n)])
    q = cols(ctx, Q1, Q2, RES, n=n)[:, :nq]
    m = spreg.TSLS(y, x, ye, q, sig2n_k=p["nk"], nonspat_diag=False)
    X = const(ctx, x)
    Z, H = np.hstack([X, ye]), np.hstack([X, q])
    r = TSLSRef(ctx, y, Z, H)
    s2 = r.s2nk if p["nk"] else r.s2n
    d = ctx.dot
    ctx.prove_eq("coefficients", m.betas, r.b, shape=(r.k, 1))
    ctx.prove_eq("projected normal equations", d(r.Zh.T, m.u), ctx.zeros((r.k, 1)))
    ctx.prove_eq("fitted values and residuals of the actual regressors", [m.predy, m.u], [r.fit, r.e])
    ctx.prove_eq("error variance", [m.sig2, m.sig2n, m.sig2n_k], [s2, r.s2n, r.s2nk])
    ctx.prove_eq("variance matrix", m.vm, s2 * r.varb, shape=(r.k, r.k))
    ctx.prove_eq("instruments and regressors", [m.h, m.z], [H, Z])
    ctx.prove_eq("projection parts", [m.varb, m.hthi, m.htz, m.zthhthi],
                 [r.varb, ctx.inv(d(H.T, H)), d(H.T, Z), d(Z.T, H, ctx.inv(d(H.T, H)))])
    ctx.prove_eq("pfora1a2", m.pfora1a2, ctx.num(n) * d(ctx.inv(d(H.T, H)), d(H.T, Z), r.varb))
    ctx.prove_eq("mean and sd of y", [m.mean_y, m.std_y * m.std_y], [y.sum() / ctx.num(n), ((y - y.sum() / ctx.num(n)) ** 2).sum() / ctx.num(n - 1)])
    if p.get("inf", True):
        se = ctx.sqrt(diagvec(s2 * r.varb))
        z = [r.b[i, 0] / se[i] for i in range(r.k)]
        ctx.prove_eq("standard errors", m.std_err, se)
        ctx.prove_eq("z statistics", m.z_stat, pairs([(v, ctx.p2(v)) for v in z]))
        ctx.prove_eq("pseudo R2", m.pr2, corr2(y, r.fit))
        o = m.output
        ctx.prove_eq("table", [list(o["coefficients"]), list(o["std_err"]), list(o["zt_stat"]), list(o["prob"])],
                     [list(r.b[:, 0]), list(se), z, [ctx.p2(v) for v in z]])
    ctx.prove_true("table rows", list(m.output["var_names"]) == m.name_x + m.name_yend and len(m.name_x) == kx + 1 and len(m.name_yend) == ne)


def corr2(a, b):
    n = a.shape[0]
    a = a - a.sum() / n
    b = b - b.sum() / n
    return (a * b).sum() * (a * b).sum() / ((a * a).sum() * (b * b).sum())


for nk in (False, True):
    add_case("P05", "full_n6_nk%d" % nk, tsls, n=6, kx=1, ne=1, nq=2, y="full", nk=nk)
    add_case("P05", "esym_n7_nk%d" % nk, tsls, n=7, kx=2, ne=1, nq=2, y="line", esym=True, nk=nk, inf=False)
add_case("P05", "two_endog_n9", tsls, n=9, kx=2, ne=2, nq=3, y="line", nk=True)
add_case("P05", "exact_n7", tsls, n=7, kx=1, ne=1, nq=1, y="full", nk=False)
add_case("P05", "exact2_n8", tsls, n=8, kx=1, ne=2, nq=2, y="line", esym=True, nk=False, inf=False)
add_case("P05", "esym_n8_inf", tsls, tier="thorough", n=8, kx=1, ne=1, nq=3, y="line", esym=True, nk=True)


def reductions(ctx, spreg):
    n = 7
    y = yfull(ctx, n)
    x = cols(ctx, X1, n=n)
    ye = xline(ctx, n, YE, D2)
    a = spreg.TSLS(y, x, ye, ye, nonspat_diag=False, sig2n_k=True)
    r = OLSRef(ctx, y, np.hstack([const(ctx, x), ye]))
    ctx.prove_eq("own instruments give OLS", [a.betas, a.u, a.vm], [r.b, r.e, r.s2nk * r.xtxi])
    q = cols(ctx, Q1, n=n)
    b = spreg.TSLS(y, x, ye, q, nonspat_diag=False)
    H, Z = np.hstack([const(ctx, x), q]), np.hstack([const(ctx, x), ye])
    ctx.prove_eq("exact identification gives indirect least squares", b.betas, ctx.dot(ctx.inv(ctx.dot(H.T, Z)), H.T, y))


add_case("P05", "reductions", reductions)


def ogmm(ctx, spreg):
    """base class with a supplied instrument matrix h agrees with q"""
    n = 7
    y = yline(ctx, n)
    x = const(ctx, cols(ctx, X1, n=n))
    ye, q = cols(ctx, YE, n=n), cols(ctx, Q1, Q2, n=n)
    from spreg.twosls import BaseTSLS
    a = BaseTSLS(y, x, ye, q=q)
    b = BaseTSLS(y, x, ye, h=np.hstack([x, q]))
    r = TSLSRef(ctx, y, np.hstack([x, ye]), np.hstack([x, q]))
    for m in (a, b):
        ctx.prove_eq("coefficients", m.betas, r.b)
        ctx.prove_eq("variance", m.vm, r.s2n * r.varb)
    ctx.raises("q and h together are refused", lambda: BaseTSLS(y, x, ye, q=q, h=q))
    ctx.raises("no instruments are refused", lambda: BaseTSLS(y, x, ye))


add_case("P05", "base", ogmm)


def slx(ctx, spreg):
    n = 8
    y = yline(ctx, n)
    x = cols(ctx, X1, X2, n=n)
    ye, q = xline(ctx, n, YE, D1), cols(ctx, Q1, Q2, n=n)
    w = ctx.W(D8)
    Wd = ctx.dense(w)
    m = spreg.TSLS(y, x, ye, q, w=w, slx_lags=1, slx_vars=[False, True], nonspat_diag=False)
    X = np.hstack([const(ctx, x), ctx.dot(Wd, x[:, 1:])])
    r = TSLSRef(ctx, y, np.hstack([X, ye]), np.hstack([X, q]))
    ctx.prove_eq("coefficients", m.betas, r.b)
    ctx.prove_eq("variance", m.vm, r.s2n * r.varb)


add_case("P05", "slx", slx)
