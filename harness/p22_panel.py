"""non-spatial panel estimators: 4 units (3..5), 2 or 3 periods, responses on a symbolic line, fixed regressors (one or two, with lags,
also constant over time); wide and long input, arrays and data frames."""
from symx.ctx import add_case
from common import *
import pandas as pd

G3 = {0: [1, 2], 1: [0], 2: [0, 1]}
D4 = {0: [1, 2], 1: [2], 2: [0, 3], 3: [0, 1]}
D5 = {0: [1], 1: [2, 3], 2: [0, 4], 3: [1], 4: [0, 2, 3]}
UNIT = [2, 5, 1, 4, 7]        # constant over time


def graph(N):
    return {3: G3, 4: D4, 5: D5}[N]


def panel(ctx, p, line=True, sym=None):
    """unit and period data: y and x stacked period by period (all units of the first period first)"""
    N, T = p.get("N", 4), p.get("T", 2)
    n = N * T
    w = ctx.W(p.get("graph") or graph(N), p.get("weights"), p.get("transform", "r"))
    y = yline(ctx, n) if line else ctx.col(Y0[:n])
    raw = []
    for c in p.get("xs", ["X1"]):
        raw.append({"X1": X1[:n], "X2": X2[:n], "X3": X3[:n], "unit": (UNIT[:N] * T),
                    "late": [0] * N + X3[N:n], "count": [3, 1, 4, 1, 6, 8, 3, 6][:n]}[c])
    x = cols(ctx, *raw, n=n)
    return N, T, y, x, w, ctx.dense(w)


def given(ctx, p, N, T, y, x):
    """the same data in the layout the case asks for, with the names it gives"""
    lay = p.get("layout", "long")
    k = x.shape[1]
    if p.get("integer"):
        x = np.array([[int(float(v.const() if hasattr(v, "const") else v)) for v in r] for r in x])
    if lay == "long":
        return y, x, dict(name_y="yy", name_x=["v%d" % j for j in range(k)]), "yy"
    yw = np.hstack([y[t * N:(t + 1) * N] for t in range(T)])
    xw = np.hstack([x[t * N:(t + 1) * N, [j]] for j in range(k) for t in range(T)])
    if lay == "wide":
        return yw, xw, dict(name_y=["yy%d" % t for t in range(T)], name_x=["v%s%d" % ("abc"[j], t) for j in range(k) for t in range(T)]), "yy"
    return (pd.DataFrame(yw, columns=["yy%d" % t for t in range(T)]),
            pd.DataFrame(xw, columns=["v%s%d" % ("abc"[j], t) for j in range(k) for t in range(T)]), {}, "yy")


def base_names(p, k):
    return ["v%d" % j for j in range(k)] if p.get("layout", "long") == "long" else ["v" + "abc"[j] for j in range(k)]


def lagged(ctx, p, x, Wd, T, names):
    """regressors of the slx model: lag of the selected columns within each period"""
    L = p.get("slx", 0)
    if not L:
        return x, names
    N = Wd.shape[0]
    flags = p.get("vars", [True] * x.shape[1])
    out, cur, nm = [x], x, list(names)
    for l in range(1, L + 1):
        cur = np.vstack([ctx.dot(Wd, cur[t * N:(t + 1) * N]) for t in range(T)])
        for j, f in enumerate(flags):
            if f:
                out.append(cur[:, [j]])
                nm.append("W%s_%s" % ("" if l == 1 else str(l), names[j]))
    return np.hstack(out), nm


def per_unit(ctx, m, N, T):
    """means over time of each unit, one row per unit"""
    s = m[:N]
    for t in range(1, T):
        s = s + m[t * N:(t + 1) * N]
    return s / ctx.num(T)


def centred(ctx, m, N, T, theta=1):
    return m - np.vstack([per_unit(ctx, m, N, T)] * T) * theta


def slxkw(p):
    kw = {}
    if p.get("slx"):
        kw["slx_lags"] = p["slx"]
        if p.get("vars"):
            kw["slx_vars"] = list(p["vars"])
    return kw


def prep(ctx, p):
    N, T, y, x, w, Wd = panel(ctx, p)
    gy, gx, kw, ny = given(ctx, p, N, T, y, x)
    nx = base_names(p, x.shape[1])
    X, names = lagged(ctx, p, x, Wd, T, nx)
    kw.update(slxkw(p))
    return N, T, y, X, w, Wd, gy, gx, kw, ny, names


def table(ctx, m, names, b, V):
    ctx.prove_true("names", list(m.name_x) == list(names), m.name_x)
    ctx.prove_true("names of the table", list(m.output["var_names"]) == list(names), list(m.output["var_names"]))
    ctx.prove_eq("table of coefficients", list(m.output["coefficients"]), flat(b))
    ctx.prove_eq("table of standard errors", list(m.output["std_err"]), [ctx.sqrt(V[i, i]) for i in range(V.shape[0])])
    z = [b[i, 0] / ctx.sqrt(V[i, i]) for i in range(V.shape[0])]
    ctx.prove_eq("table of statistics", list(m.output["zt_stat"]), z)
    return z


def pooled(ctx, spreg):
    p = ctx.p
    N, T, y, X, w, Wd, gy, gx, kw, ny, names = prep(ctx, p)
    m = spreg.PooledOLS(gy, gx, w, spat_diag=False, robust=p.get("robust"), **kw)
    Z = const(ctx, X)
    o = OLSRef(ctx, y, Z)
    V = o.xtxi * o.s2nk
    if p.get("robust"):
        V = ctx.dot(o.xtxi, white_meat(ctx, Z, o.e), o.xtxi) * (ctx.num(F(N * T, N * T - Z.shape[1])) if p.get("adj") else 1)
    ctx.prove_eq("coefficients", m.betas, o.b, shape=o.b.shape)
    ctx.prove_eq("residuals", m.u, o.e, shape=o.e.shape)
    ctx.prove_eq("fitted values", m.predy, o.fit, shape=o.e.shape)
    ctx.prove_eq("sigma2", m.sig2, o.s2nk)
    ctx.prove_eq("variance", m.vm, V, shape=V.shape)
    ctx.prove_eq("likelihood", m.logll, o.ll())
    ctx.prove_true("sizes", (m.n, m.k, m.t) == (N * T, Z.shape[1], T), (m.n, m.k, m.t))
    ctx.prove_true("name of y", m.name_y == ny, m.name_y)
    table(ctx, m, ["CONSTANT"] + names, o.b, V)


def fe(ctx, spreg):
    p = ctx.p
    N, T, y, X, w, Wd, gy, gx, kw, ny, names = prep(ctx, p)
    m = spreg.PanelFE(gy, gx, w, **kw)
    o = OLSRef(ctx, centred(ctx, y, N, T), centred(ctx, X, N, T))
    ctx.prove_eq("coefficients", m.betas, o.b, shape=o.b.shape)
    s2 = o.rss / ctx.num(N * T - N)
    V = o.xtxi * s2
    ctx.prove_eq("sigma2", m.sig2, s2)
    ctx.prove_eq("variance", m.vm, V, shape=V.shape)
    fit = ctx.dot(X, o.b)
    ctx.prove_eq("systematic part", m.predy, fit, shape=fit.shape)
    ctx.prove_eq("response less systematic part", m.u, y - fit, shape=fit.shape)
    mu = per_unit(ctx, y - fit, N, T)
    ctx.prove_eq("fixed effects", m.fixed_effects, mu, shape=(N, 1))
    ctx.prove_eq("individual effects", m.mu_i, mu, shape=(N, 1))
    ctx.prove_eq("mean of the effects", m.mean_mu_i, mu.sum() / ctx.num(N))
    # together with the effects the residuals are those of least squares with unit dummies
    ctx.prove_eq("residuals net of the effects", m.u - np.vstack([m.fixed_effects] * T), o.e)
    ctx.prove_true("sizes", (m.n, m.k, m.t) == (N * T, X.shape[1], T), (m.n, m.k, m.t))
    n, k = N * T, X.shape[1]
    ctx.prove_eq("sum of squared residuals and their mean", [m.utu, m.sig2ML], [o.rss, o.s2n])
    ctx.prove_eq("likelihood", m.logll, o.ll())
    ctx.prove_eq("information criteria", [m.aic, m.schwarz], [2 * ctx.num(k) - 2 * o.ll(), k * ctx.log(ctx.num(n)) - 2 * o.ll()])
    if k > 1:
        yd = centred(ctx, y, N, T)
        f = ((yd * yd).sum() - o.rss) / k / (o.rss / (n - N - k))
        dev = fit - y.sum() / ctx.num(n)
        f0 = (dev * dev).sum() / (k - 1) / (o.rss / (n - k))
        ctx.prove_eq("F statistic", list(m.f_stat), [f, ctx.fsf(f, k, n - N - k)], known=[("fe-f-statistic", [f0, ctx.fsf(f0, k - 1, n - k)])])
    table(ctx, m, names, o.b, V)


def re(ctx, spreg):
    p = ctx.p
    N, T, y, X, w, Wd, gy, gx, kw, ny, names = prep(ctx, p)
    m = spreg.PanelRE(gy, gx, w, spat_diag=False, **kw)
    Z = const(ctx, X)
    k = Z.shape[1]
    within = [j for j in range(1, k) if p.get("xs", ["X1"] * 9)[(j - 1) % len(p.get("xs", ["X1"]))] != "unit"]
    n = N * T
    d = ctx.dot
    ow = OLSRef(ctx, centred(ctx, y, N, T), centred(ctx, Z[:, within], N, T))
    se = ow.rss / ctx.num(n - N - len(within))
    ctx.prove_eq("idiosyncratic variance", m.sigma2_epsilon, se)
    ob = OLSRef(ctx, per_unit(ctx, y, N, T), per_unit(ctx, Z, N, T))
    sm = ob.rss / ctx.num(N - k) - se / ctx.num(T)
    if sm < 0:
        sm = ctx.num(0)
    ctx.prove_eq("variance of the effects", m.sigma2_mu, sm)
    th = 1 - ctx.sqrt(se / (se + ctx.num(T) * sm))
    ctx.prove_eq("weight", m.theta, th)
    o = OLSRef(ctx, centred(ctx, y, N, T, th), centred(ctx, Z, N, T, th))
    V = o.xtxi * o.s2n
    fit = d(Z, o.b)
    ctx.prove_eq("coefficients", m.betas, o.b, shape=o.b.shape)
    ctx.prove_eq("fitted values", m.predy, fit, shape=fit.shape)
    ctx.prove_eq("residuals", m.u, y - fit, shape=fit.shape)
    ctx.prove_eq("sigma2", m.sig2, o.s2n)
    ctx.prove_eq("variance", m.vm, V, shape=V.shape)
    ctx.prove_true("sizes", (m.n, m.k, m.t) == (n, k, T), (m.n, m.k, m.t))
    if p.get("hausman", True):
        df = len(within)
        diff = ow.b - o.b[within]
        A = ow.xtxi * se - V[np.ix_(within, within)]
        h = sc(d(diff.T, d(ctx.inv(A), diff)))
        ctx.prove_true("degrees of freedom of the Hausman test", int(m.hausman_df) == df, m.hausman_df)
        ctx.prove_eq("Hausman test", [m.hausman_stat, m.hausman_p], [h, ctx.chi2sf(h, df)])
    table(ctx, m, ["CONSTANT"] + names, o.b, V)


def demean(ctx, spreg):
    """weighting of the time means, any weight"""
    p = ctx.p
    from spreg.panel_utils import demean_panel
    N, T = p["N"], p["T"]
    a = ctx.A([[ctx.var("a%d_%d" % (i, j), F(Y0[i] + 3 * j, 3)) for j in range(p.get("k", 1))] for i in range(N * T)])
    phi = ctx.var("phi", F(2, 5))
    ctx.prove_eq("within transformation", demean_panel(a, N, T), centred(ctx, a, N, T), shape=a.shape)
    ctx.prove_eq("quasi-demeaning", demean_panel(a, N, T, phi=phi), centred(ctx, a, N, T, 1 - phi), shape=a.shape)


def layout(ctx, spreg):
    """wide data become stacked data"""
    p = ctx.p
    from spreg.panel_utils import check_panel
    N, T, k = p["N"], p["T"], p["k"]
    yw = ctx.A([[ctx.var("y%d_%d" % (i, t), F(Y0[i] + 3 * t, 3)) for t in range(T)] for i in range(N)])
    xw = ctx.A([[ctx.var("x%d_%d" % (i, t), F(X1[i] + 5 * t, 4)) for t in range(T * k)] for i in range(N)])
    y = np.vstack([yw[:, [t]] for t in range(T)])
    x = np.hstack([np.vstack([xw[:, [j * T + t]] for t in range(T)]) for j in range(k)])
    w = ctx.W(graph(N))
    ny, nx = ["abc%d" % (70 + t) for t in range(T)], ["var%s%d" % ("abcd"[j], 70 + t) for j in range(k) for t in range(T)]
    short = ["var" + "abcd"[j] for j in range(k)]
    for fn in (check_panel, None):
        if fn is None:
            from spreg.sp_panels import _get_panel_data as fn
        r = fn(yw, xw, w, list(ny), list(nx))
        ctx.prove_eq("stacked response", r[0], y, shape=y.shape)
        ctx.prove_eq("stacked regressors", r[1], x, shape=x.shape)
        ctx.prove_true("names", r[2] == "abc" and list(r[3]) == short, (r[2], r[3]))
        r = fn(y, x, w, "abc", list(short))
        ctx.prove_eq("stacked response, long data", r[0], y, shape=y.shape)
        ctx.prove_eq("stacked regressors, long data", r[1], x, shape=x.shape)
        ctx.prove_true("names, long data", r[2] == "abc" and list(r[3]) == short, (r[2], r[3]))
        ctx.raises("wrong number of rows", lambda: fn(y[:-1], x[:-1], w, "abc", list(short)))
        ctx.raises("wrong number of names", lambda: fn(yw, xw, w, list(ny), list(nx) + ["a"]))


for nm, q in (("long", dict()), ("wide", dict(layout="wide", xs=["X1", "X2"])), ("frame", dict(layout="frame", xs=["X1", "X2"])),
              ("T3", dict(T=3, xs=["X1", "X2"])), ("slx", dict(slx=1, T=3)), ("slx2", dict(slx=2, T=3)),
              ("slx_mask", dict(slx=1, N=5, T=2, xs=["X1", "X2"], vars=[False, True], layout="wide")), ("N3", dict(N=3, T=4)),
              ("N5", dict(N=5, T=2, xs=["X1", "X2"]))):
    add_case("P22", "pooled_" + nm, pooled, **q)
    add_case("P22", "fe_" + nm, fe, **q)
    if nm not in ("slx2",):
        add_case("P22", "re_" + nm, re, **dict(q, N=5, T=2) if nm in ("T3", "slx_mask", "slx", "wide", "frame") else q)
add_case("P22", "pooled_white", pooled, robust="white", adj=True, xs=["X1", "X2"])
add_case("P22", "re_unit", re, N=5, T=2, xs=["X1", "unit"])
add_case("P22", "re_hausman", re, N=4, T=3)
add_case("P22", "demean_3_4", demean, N=3, T=4)
add_case("P22", "demean_4_2", demean, N=4, T=2, k=2)
add_case("P22", "layout_3_2_2", layout, N=3, T=2, k=2)
add_case("P22", "layout_4_3_1", layout, N=4, T=3, k=1)
add_case("P22", "layout_5_2_3", layout, N=5, T=2, k=3)
for nm, fn in (("pooled", pooled), ("fe", fe), ("re", re)):
    add_case("P22", nm + "_dummy", fn, N=5, T=2, layout="wide", xs=["X1", "late"])
    add_case("P22", nm + "_integer", fn, N=4, T=2, xs=["count"], integer=True)
