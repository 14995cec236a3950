"""Robust variance estimates: n = 6..8, k = 2..4 coefficients; y fully symbolic or on a symbolic line; kernel weights
with two symbolic entries in (0,1) (not necessarily symmetric); least squares and two stage least squares."""
from symx.ctx import add_case
from common import *


def bread(ctx, X):
    return ctx.inv(ctx.dot(X.T, X))


def inference(ctx, m, vm, b, k, df=None):
    se = ctx.sqrt(diagvec(vm))
    ctx.prove_eq("standard errors", m.std_err, se)
    st = [b[i, 0] / se[i] for i in range(k)]
    if df is None:
        ctx.prove_eq("z statistics", m.z_stat, pairs([(z, ctx.p2(z)) for z in st]))
    else:
        ctx.prove_eq("t statistics", m.t_stat, pairs([(t, 2 * ctx.tsf(ctx.abs(t), df)) for t in st]))
    ctx.prove_eq("table", list(m.output["std_err"]) + list(m.output["zt_stat"]), list(se) + st)


def ols(ctx, spreg):
    p = ctx.p
    n, kx = p["n"], p["k"]
    y = yfull(ctx, n) if p["y"] == "full" else yline(ctx, n)
    x = cols(ctx, X1, X2, X3, n=n)[:, :kx]
    X = const(ctx, x)
    r = OLSRef(ctx, y, X)
    if p["r"] == "white":
        m = spreg.OLS(y, x, robust="white", sig2n_k=p["nk"], nonspat_diag=p.get("diag", False))
        f = ctx.num(F(n, n - r.k)) if p["nk"] else ctx.num(1)
        meat = white_meat(ctx, X, r.e, f)
    else:
        wk, K = kernel_case(ctx, n)
        m = spreg.OLS(y, x, robust="hac", gwk=wk, sig2n_k=p["nk"], nonspat_diag=False)
        xe = X * r.e
        meat = ctx.dot(xe.T, ctx.dot(K, xe))
    vm = ctx.dot(r.xtxi, meat, r.xtxi)
    ctx.prove_eq("coefficients unaffected", m.betas, r.b)
    ctx.prove_eq("sandwich variance", m.vm, vm, shape=(r.k, r.k))
    ctx.prove_eq("error variance unaffected", m.sig2, r.s2nk if p["nk"] else r.s2n)
    if p["r"] == "white":
        ctx.prove_ge("variances nonnegative", diagvec(m.vm), 0)
    ctx.prove_true("label", m.robust == p["r"])
    inference(ctx, m, vm, r.b, r.k, n - r.k) if p["r"] == "white" else ctx.prove_eq(
        "standard errors squared", m.std_err * m.std_err, diagvec(vm))


for n, k in ((5, 1), (7, 2)):
    for nk in (True, False):
        add_case("P02", "ols_white_n%d_nk%d" % (n, nk), ols, n=n, k=k, nk=nk, y="full", r="white")
        add_case("P02", "ols_hac_n%d_nk%d" % (n, nk), ols, n=n, k=k, nk=nk, y="full" if n == 5 else "line", r="hac")


def tsls(ctx, spreg):
    p = ctx.p
    n = 7
    y = yfull(ctx, n) if p["y"] == "full" else yline(ctx, n)
    x = cols(ctx, X1, n=n)
    ye = cols(ctx, YE, n=n) if p["y"] == "full" else xline(ctx, n, YE, D2)
    q = cols(ctx, Q1, Q2, n=n)
    X = const(ctx, x)
    r = TSLSRef(ctx, y, np.hstack([X, ye]), np.hstack([X, q]))
    if p["r"] == "white":
        m = spreg.TSLS(y, x, ye, q, robust="white", sig2n_k=p["nk"], nonspat_diag=False)
        f = ctx.num(F(n, n - r.k)) if p["nk"] else ctx.num(1)
        meat = white_meat(ctx, r.Zh, r.e, f)
    else:
        wk, K = kernel_case(ctx, n)
        m = spreg.TSLS(y, x, ye, q, robust="hac", gwk=wk, sig2n_k=p["nk"], nonspat_diag=False)
        ze = r.Zh * r.e
        meat = ctx.dot(ze.T, ctx.dot(K, ze))
    vm = ctx.dot(r.varb, meat, r.varb)
    ctx.prove_eq("coefficients unaffected", m.betas, r.b)
    ctx.prove_eq("sandwich variance", m.vm, vm)
    ctx.prove_eq("error variance unaffected", m.sig2, r.s2nk if p["nk"] else r.s2n)
    ctx.prove_eq("standard errors squared", m.std_err * m.std_err, diagvec(vm))


for rob in ("white", "hac"):
    for nk in (True, False):
        add_case("P02", "tsls_%s_nk%d" % (rob, nk), tsls, y="full", r=rob, nk=nk)
add_case("P02", "tsls_white_line", tsls, y="line", r="white", nk=True)


def gmlag(ctx, spreg):
    p = ctx.p
    n = 7
    y = yline(ctx, n)
    x = cols(ctx, X1, X2, n=n)
    w = ctx.W(G7)
    Wd = ctx.dense(w)
    X = const(ctx, x)
    r = TSLSRef(ctx, y, np.hstack([X, ctx.dot(Wd, y)]), np.hstack([X, ctx.dot(Wd, x)]))
    kw = {}
    if p["r"] == "hac":
        kw["gwk"], K = kernel_case(ctx, n, sym=False)
    m = spreg.GM_Lag(y, x, w=w, robust=p["r"], spat_diag=False, spat_impacts=None, **kw)
    ze = r.Zh * r.e
    meat = ctx.dot(ze.T, ctx.dot(K, ze)) if p["r"] == "hac" else ctx.dot(ze.T, ze)
    ctx.prove_eq("coefficients unaffected", m.betas, r.b)
    ctx.prove_eq("sandwich variance", m.vm, ctx.dot(r.varb, meat, r.varb))


add_case("P02", "gmlag_white", gmlag, r="white")
add_case("P02", "gmlag_hac", gmlag, r="hac")
