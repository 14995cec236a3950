"""OLS: n = 5..7 observations, k = 2..4 regressors.  y fully symbolic (every real response vector); x a generic
rational design, and a design moving along a symbolic line; both variance divisors."""
from fractions import Fraction as F
from symx.ctx import add_case
from common import *


def ols(ctx, spreg):
    p = ctx.p
    n, kx = p["n"], p["k"]
    y = yfull(ctx, n) if p["y"] == "full" else yline(ctx, n)
    if p.get("xsym"):
        x = np.hstack([xline(ctx, n, X1, D2), cols(ctx, X2, X3, n=n)[:, :kx - 1]])
    else:
        x = cols(ctx, X1, X2, X3, n=n)[:, :kx]
    m = spreg.OLS(y, x, sig2n_k=p["nk"], nonspat_diag=p.get("diag", True))
    X = const(ctx, x)
    r = OLSRef(ctx, y, X)
    k = r.k
    N = ctx.num
    ctx.prove_eq("coefficients solve the normal equations", m.betas, r.b, shape=(k, 1))
    ctx.prove_eq("residuals orthogonal to the regressors", ctx.dot(X.T, m.u), ctx.zeros((k, 1)))
    ctx.prove_eq("fitted values", m.predy, r.fit, shape=(n, 1))
    ctx.prove_eq("fitted plus residual is the response", m.predy + m.u, y)
    s2 = r.s2nk if p["nk"] else r.s2n
    ctx.prove_eq("sum of squared residuals", m.utu, r.rss)
    ctx.prove_eq("error variance", m.sig2, s2)
    ctx.prove_eq("error variance ML and unbiased", [m.sig2n, m.sig2n_k], [r.s2n, r.s2nk])
    ctx.prove_eq("variance matrix", m.vm, s2 * r.xtxi, shape=(k, k))
    ctx.prove_eq("variance matrix symmetric", m.vm, m.vm.T)
    ctx.prove_eq("mean and sd of y", [m.mean_y, m.std_y * m.std_y], [r.ybar, r.tss / N(n - 1)])
    ctx.prove_ge("variances nonnegative", diagvec(m.vm), 0)
    ctx.prove_true("n and k", m.n == n and m.k == k)
    if p.get("diag", True):
        ctx.prove_eq("R2", m.r2, 1 - r.rss / r.tss)
        ctx.prove_ge("R2 at most one", 1, m.r2)
        ctx.prove_ge("R2 nonnegative", m.r2, 0)
        ctx.prove_eq("adjusted R2", m.ar2, 1 - (r.rss / N(n - k)) / (r.tss / N(n - 1)))
        f = ((r.tss - r.rss) / N(k - 1)) / (r.rss / N(n - k))
        ctx.prove_eq("F statistic", m.f_stat, [f, ctx.fsf(f, k - 1, n - k)])
        ctx.prove_eq("log likelihood", m.logll, r.ll())
        ctx.prove_eq("AIC", m.aic, -2 * r.ll() + N(2 * k))
        ctx.prove_eq("Schwarz", m.schwarz, -2 * r.ll() + k * ctx.log(N(n)))
        ctx.prove_eq("ML variance", m.sig2ML, r.s2n)
    se = ctx.sqrt(diagvec(s2 * r.xtxi))
    ctx.prove_eq("standard errors", m.std_err, se)
    t = [r.b[i, 0] / se[i] for i in range(k)]
    ctx.prove_eq("t statistics", [a[0] for a in m.t_stat], t)
    ctx.prove_eq("t p-values", [a[1] for a in m.t_stat], [2 * ctx.tsf(ctx.abs(v), n - k) for v in t])
    o = m.output
    ctx.prove_eq("table coefficients", list(o["coefficients"]), r.b)
    ctx.prove_eq("table standard errors", list(o["std_err"]), se)
    ctx.prove_eq("table statistics and p-values", list(o["zt_stat"]) + list(o["prob"]), t + [2 * ctx.tsf(ctx.abs(v), n - k) for v in t])


for n, k in ((5, 1), (6, 2), (7, 3)):
    for nk in (True, False):
        add_case("P01", "full_n%d_k%d_nk%d" % (n, k, nk), ols, n=n, k=k, nk=nk, y="full")
add_case("P01", "xline_n5_k2", ols, n=5, k=2, nk=True, y="line", xsym=True, diag=False)
add_case("P01", "xline_n6_k2", ols, n=6, k=2, nk=False, y="line", xsym=True, diag=False)
add_case("P01", "full_n9_k3", ols, tier="thorough", n=9, k=3, nk=True, y="full")


def perfect(ctx, spreg):
    """a response in the span of x is recovered exactly, for every coefficient vector"""
    n = 6
    x = cols(ctx, X1, X2, n=n)
    b = ctx.freevec("b", [F(2), F(-3, 2), F(5, 4)])
    y = ctx.dot(const(ctx, x), b)
    m = spreg.OLS(y, x, nonspat_diag=False)
    ctx.prove_eq("exact recovery", m.betas, b)
    ctx.prove_eq("zero residuals", m.u, ctx.zeros((n, 1)))


add_case("P01", "perfect_fit", perfect)
