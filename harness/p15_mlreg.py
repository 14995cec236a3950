"""Maximum likelihood lag and error models with regimes: n = 6..10, two or three interleaved regimes, rho / lambda symbolic in (-1,1) at
the optimiser's return value, the objective at a second free symbolic point; y on a symbolic line for the objectives and concrete for
variances; varying and common columns, separate and common spatial parameters; methods full, LU and eigenvalues."""
from symx.ctx import add_case
from common import *
from p08_mllag import STRUCT, corr2
from p14_tslsreg import G10, D10, wregime, powers

# a structure without links between the regimes of "aabb.." type layouts is not needed: the layouts below are interleaved
R6 = ["b", "a", "b", "a", "a", "b"]
TWO5 = {i: [j for j in range(10) if j != i and (j % 2) == (i % 2)] for i in range(10)}       # two complete graphs, no link across


def setup(ctx):
    p = ctx.p
    s = p["s"]
    nb = dict(G10=G10, D10=D10, TWO5=TWO5, G8=G8).get(s) or STRUCT[s]
    n = len(nb)
    regs = list(p.get("regs") or (R6 if n == 6 else REG8))[:n]
    w = ctx.W(nb)
    y = yline(ctx, n) if p.get("y") == "line" else cols(ctx, Y0, n=n)
    x = cols(ctx, X1, X2, n=n)[:, :p.get("kx", 1)]
    return n, nb, regs, w, ctx.dense(w), y, x, ["p", "q"][:x.shape[1]]


def flags(p, kx):
    c = p.get("cols", "all")
    return [p.get("const", "many") == "many"] + ([True] * kx if c == "all" else list(c))


def lagfit(ctx, y, X, W, r):
    d = ctx.dot
    n, k = X.shape
    b = d(ctx.inv(d(X.T, X)), d(X.T, y - r * d(W, y)))
    u = y - r * d(W, y) - d(X, b)
    return b, u


def laginfo(ctx, X, W, r, b, s2):
    d = ctx.dot
    n, k = X.shape
    Bi = ctx.inv(ctx.eye(n) - r * W)
    WA = d(W, Bi)
    wp = d(WA, d(X, b))
    t1, t2 = trace(WA), trace(d(WA, WA)) + trace(d(WA.T, WA))
    xtw = d(X.T, wp) / s2
    z1 = ctx.zeros((k, 1))
    return np.vstack([np.hstack([d(X.T, X) / s2, xtw, z1]),
                      np.hstack([xtw.T, d(wp.T, wp) / s2 + t2, ctx.colvec([t1 / s2])]),
                      np.hstack([z1.T, ctx.colvec([t1 / s2]), ctx.colvec([n / (2 * s2 * s2)])])])


def ll_at(ctx, n, rss, W, r):
    return -ctx.num(F(n, 2)) * (ctx.log(rss / ctx.num(n)) + ctx.log(2 * ctx.pi) + 1) + ctx.log(ctx.det(ctx.eye(n) - r * W))


def check_table(ctx, m, names, b, vm):
    t = table_by_name(m)
    for i, nm in enumerate(names):
        se = ctx.sqrt(vm[i, i])
        z = b[i, 0] / se
        ctx.prove_true("table row names", nm in t, (nm, list(t)))
        if nm in t:
            ctx.prove_eq("table row", list(t[nm]), [b[i, 0], se, z, ctx.p2(z)])


def check_chow(ctx, m, names, b, V, varying, labs):
    (j, jp), each = chow_ref(ctx, names, b, V, varying, labs)
    ctx.prove_eq("joint chow test", m.chow.joint, [j, jp])
    ctx.prove_eq("chow tests", [list(a) for a in m.chow.regi][:len(each)], [list(a) for a in each])


# ---- lag ---------------------------------------------------------------------
def lag_call(ctx, spreg, w, regs, y, x, nx, **kw):
    p = ctx.p
    return spreg.ML_Lag_Regimes(y, x, list(regs), w=w, method=p.get("method", "full"), constant_regi=p.get("const", "many"),
                                cols2regi="all" if p.get("cols", "all") == "all" else list(p["cols"]), slx_lags=p.get("slx", 0),
                                spat_impacts=None, name_y="y", name_x=list(nx), **kw)


def lag_design(ctx, Wd, x, nx):
    p = ctx.p
    X = np.hstack([const(ctx, x)] + powers(ctx, Wd, x, 1, p.get("slx", 0)))
    return X, ["CONSTANT"] + nx + ["W%s_%s" % ("" if j == 1 else j, v) for j in range(1, p.get("slx", 0) + 1) for v in nx]


def lag_objective(ctx, spreg):
    p = ctx.p
    n, nb, regs, w, Wd, y, x, nx = setup(ctx)
    lag_call(ctx, spreg, w, regs, y, x, nx, spat_diag=False, regime_lag_sep=p.get("sep", False))
    X, vx = lag_design(ctx, Wd, x, nx)
    if p.get("sep"):
        Wr, _ = wregime(ctx, nb, regs)
        parts = [(y[ids_of(regs, r)], X[ids_of(regs, r)], Wr[r]) for r in regset(regs)]
    else:
        parts = [(y, block(ctx, X, regs, flags(p, X.shape[1] - 1))[0], Wd)]
    for c, (yy, XX, WW) in zip(ctx.opt.calls, parts):
        r = ctx.var("r", F(2, 7), -1, 1)
        nn = len(yy)
        _, u = lagfit(ctx, yy, XX, WW, r)
        # concentrated likelihood through the two auxiliary residuals
        ctx.prove_eq("negative concentrated log-likelihood", sc(c["fun"]([r])),
                     ctx.num(F(nn, 2)) * ctx.log((u * u).sum() / ctx.num(nn)) - ctx.log(ctx.det(ctx.eye(nn) - r * WW)))
        lo, hi = c["bounds"] if not isinstance(c["bounds"][0], (tuple, list)) else c["bounds"][0]
        ctx.prove_eq("search interval", [lo, hi], [-1, 1])
    ctx.prove_true("one maximisation per spatial parameter", len(ctx.opt.calls) == len(parts), len(ctx.opt.calls))


def lag_common(ctx, spreg):
    p = ctx.p
    ctx.opaque()
    n, nb, regs, w, Wd, y, x, nx = setup(ctx)
    m = lag_call(ctx, spreg, w, regs, y, x, nx, spat_diag=bool(p.get("diag")))
    X0, vx = lag_design(ctx, Wd, x, nx)
    fl_ = flags(p, X0.shape[1] - 1)
    X, names = block(ctx, X0, regs, fl_, vx)
    r = ctx.opt.calls[0]["x"][0]
    b, u = lagfit(ctx, y, X, Wd, r)
    k = X.shape[1]
    names = names + ["_Global_W_y"]
    ctx.prove_true("names", list(m.name_x) == names, m.name_x)
    B = ctx.colvec(list(b.reshape(-1)) + [r])
    ctx.prove_eq("coefficients", m.betas, B, shape=(k + 1, 1))
    ctx.prove_eq("rho", m.rho, r)
    ctx.prove_eq("residuals and fitted values", [m.u, m.predy], [u, y - u])
    ctx.prove_eq("reduced form prediction", ctx.dot(ctx.eye(n) - r * Wd, m.predy_e), ctx.dot(X, b))
    ctx.prove_eq("prediction error", m.e_pred, y - m.predy_e)
    s2 = (u * u).sum() / ctx.num(n)
    ctx.prove_eq("error variance", m.sig2, s2)
    ctx.prove_eq("log-likelihood", m.logll, ll_at(ctx, n, (u * u).sum(), Wd, r))
    kk = ctx.num(k + 1)
    ctx.prove_eq("aic", m.aic, 2 * kk - 2 * m.logll)
    ctx.prove_eq("schwarz", m.schwarz, kk * ctx.log(ctx.num(n)) - 2 * m.logll)
    ctx.prove_eq("pseudo R2", m.pr2, corr2(y, m.predy))
    ctx.prove_eq("inverse of the information matrix", ctx.dot(m.vm1, laginfo(ctx, X, Wd, r, b, s2)), ctx.eye(k + 2), shape=(k + 2, k + 2), tol=1e-4)
    ctx.prove_eq("variance", m.vm, m.vm1[:-1, :-1], shape=(k + 1, k + 1))
    if p.get("table", True):
        check_table(ctx, m, names, B, m.vm)
    if p.get("chow", True):
        check_chow(ctx, m, names, B, m.vm, [v for v, t in zip(vx, fl_) if t], regset(regs))
    ctx.prove_true("regime frame", (m.nr, m.kr, m.kf, m.k) == (len(regset(regs)), sum(fl_), len(fl_) - sum(fl_) + 1, k + 1), (m.nr, m.kr, m.kf, m.k))


def lag_separate(ctx, spreg):
    p = ctx.p
    ctx.opaque()
    n, nb, regs, w, Wd, y, x, nx = setup(ctx)
    m = lag_call(ctx, spreg, w, regs, y, x, nx, spat_diag=bool(p.get("diag")), regime_lag_sep=True)
    X0, vx = lag_design(ctx, Wd, x, nx)
    Wr, _ = wregime(ctx, nb, regs)
    labs = regset(regs)
    K = X0.shape[1] + 1
    names, Bs = [], []
    N = K * len(labs)
    off = ctx.zeros((N, N))
    for a, g in enumerate(labs):
        i = ids_of(regs, g)
        s = m.multi[g]
        r = ctx.opt.calls[a]["x"][0]
        XX = X0[i]
        b, u = lagfit(ctx, y[i], XX, Wr[g], r)
        ng = ["%s_%s" % (g, v) for v in vx + ["W_y"]]
        names += ng
        B = ctx.colvec(list(b.reshape(-1)) + [r])
        Bs.append(B)
        ctx.prove_true("names of the regime", list(s.name_x) == ng, s.name_x)
        ctx.prove_eq("coefficients of the regime", s.betas, B, shape=(K, 1))
        ctx.prove_eq("regime rho", s.rho, r)
        ctx.prove_eq("residuals of the regime go back to their observations", [s.u, m.u[i], s.predy, m.predy[i]], [u, u, y[i] - u, y[i] - u])
        ctx.prove_eq("reduced form prediction", ctx.dot(ctx.eye(len(i)) - r * Wr[g], m.predy_e[i]), ctx.dot(XX, b))
        ctx.prove_eq("prediction error", m.e_pred[i], y[i] - m.predy_e[i])
        ss = (u * u).sum() / ctx.num(len(i))
        ctx.prove_eq("regime error variance", s.sig2, ss)
        ctx.prove_eq("regime log-likelihood", s.logll, ll_at(ctx, len(i), (u * u).sum(), Wr[g], r))
        kk = ctx.num(K)
        ctx.prove_eq("regime aic and schwarz", [s.aic, s.schwarz], [2 * kk - 2 * s.logll, kk * ctx.log(ctx.num(len(i))) - 2 * s.logll])
        ctx.prove_eq("regime information", ctx.dot(s.vm1, laginfo(ctx, XX, Wr[g], r, b, ss)), ctx.eye(K + 1), shape=(K + 1, K + 1), tol=1e-4)
        ctx.prove_eq("regime variance", s.vm, s.vm1[:-1, :-1], shape=(K, K))
        off[a * K:(a + 1) * K, a * K:(a + 1) * K] = s.vm
    B = np.vstack(Bs)
    ctx.prove_true("names", list(m.name_x) == names, m.name_x)
    ctx.prove_eq("stacked coefficients", m.betas, B, shape=(N, 1))
    ctx.prove_eq("stacked variance", m.vm, off, shape=(N, N))
    if p.get("chow", True):
        check_chow(ctx, m, names, B, off, vx + ["W_y"], labs)
    if p.get("table", True):
        check_table(ctx, m, names, B, off)


L = [("lag_common_full", dict(s="AS6")), ("lag_common_lu", dict(s="G6", method="LU", const="one")),
     ("lag_common_ord", dict(s="PRISM", method="ord", chow=False)), ("lag_common_mixed", dict(s="G8", kx=2, cols=[True, False], chow=False)),
     ("lag_common_asym", dict(s="D6", cols=[False], chow=False)),
     ("lag_common_three", dict(s="G10", regs=REG3[:10], chow=False, table=False)),
     ("lag_common_slx", dict(s="G8", slx=1, chow=False))]
for nm, q in L:
    add_case("P15", nm, lag_common, **q)
    if q["s"] in ("AS6", "G6", "PRISM", "D6"):
        add_case("P15", nm.replace("common", "objective"), lag_objective, y="line", **q)
add_case("P15", "lag_objective_slx", lag_objective, s="D6", slx=1, cols=[False, False], y="line")
add_case("P15", "lag_objective_separate", lag_objective, s="G10", sep=True, y="line")
add_case("P15", "lag_separate", lag_separate, s="G10")
add_case("P15", "lag_separate_lu", lag_separate, s="D10", method="LU", chow=False)
add_case("P15", "lag_separate_slx", lag_separate, s="G10", slx=1, chow=False, table=False)
add_case("P15", "lag_separate_ord", lag_separate, s="TWO5", method="ord", chow=False, regs="ababababab")


# ---- error -------------------------------------------------------------------
def err_call(ctx, spreg, w, regs, y, x, nx, **kw):
    p = ctx.p
    return spreg.ML_Error_Regimes(y, x, list(regs), w=w, method=p.get("method", "full"), constant_regi=p.get("const", "many"),
                                  cols2regi="all" if p.get("cols", "all") == "all" else list(p["cols"]), slx_lags=p.get("slx", 0),
                                  name_y="y", name_x=list(nx), **kw)


def err_filters(ctx, X0, regs, fl_, Wd, r):
    """filtered regressors of the stated model, and those of the library's variant that splits after lagging"""
    X = block(ctx, X0, regs, fl_)[0]
    return X - r * ctx.dot(Wd, X), X - r * block(ctx, ctx.dot(Wd, X0), regs, fl_)[0]


KF = "err-regime-filter"


def err_objective(ctx, spreg):
    p = ctx.p
    n, nb, regs, w, Wd, y, x, nx = setup(ctx)
    err_call(ctx, spreg, w, regs, y, x, nx, regime_err_sep=p.get("sep", False))
    X0, vx = lag_design(ctx, Wd, x, nx)
    r = ctx.var("r", F(2, 7), -1, 1)
    if p.get("sep"):
        Wr, _ = wregime(ctx, nb, regs)
        parts = []
        for g in regset(regs):
            i = ids_of(regs, g)
            xs = X0[i] - r * ctx.dot(Wr[g], X0[i])
            parts.append((y[i], Wr[g], xs, xs))
    else:
        fs = err_filters(ctx, X0, regs, flags(p, X0.shape[1] - 1), Wd, r)
        parts = [(y, Wd) + fs]
    for c, (yy, WW, xs, xa) in zip(ctx.opt.calls, parts):
        nn = len(yy)
        ys = yy - r * ctx.dot(WW, yy)

        def obj(xs):
            return ctx.num(F(nn, 2)) * ctx.log(OLSRef(ctx, ys, xs).rss / ctx.num(nn)) - ctx.log(ctx.det(ctx.eye(nn) - r * WW))
        got = sc(c["fun"]([r]))
        ctx.prove_eq("negative concentrated log-likelihood", got, obj(xs), known=[] if p.get("sep") or p.get("exact") else [(KF, obj(xa))])
    ctx.prove_true("one maximisation per spatial parameter", len(ctx.opt.calls) == len(parts), len(ctx.opt.calls))


def errinfo(ctx, W, r, s2):
    d = ctx.dot
    n = W.shape[0]
    WA = d(W, ctx.inv(ctx.eye(n) - r * W))
    t1, t2 = trace(WA), trace(d(WA, WA)) + trace(d(WA.T, WA))
    return ctx.A([[t2, t1 / s2], [t1 / s2, n / (2 * s2 * s2)]])


def err_common(ctx, spreg):
    p = ctx.p
    ctx.opaque()
    n, nb, regs, w, Wd, y, x, nx = setup(ctx)
    m = err_call(ctx, spreg, w, regs, y, x, nx)
    X0, vx = lag_design(ctx, Wd, x, nx)
    fl_ = flags(p, X0.shape[1] - 1)
    X, names = block(ctx, X0, regs, fl_, vx)
    names = names + ["lambda"]
    k = X.shape[1]
    r = ctx.opt.calls[0]["x"][0]
    d = ctx.dot
    out = []
    for xs in err_filters(ctx, X0, regs, fl_, Wd, r):
        g = OLSRef(ctx, y - r * d(Wd, y), xs)
        u = y - d(X, g.b)
        e = u - r * d(Wd, u)
        s2 = (e * e).sum() / ctx.num(n)
        out.append(dict(b=ctx.colvec(list(g.b.reshape(-1)) + [r]), u=u, f=y - u, e=e, s2=s2, v=s2 * g.xtxi, rss=g.rss))
    A, K = out
    kn = lambda f: [] if p.get("exact") else [(KF, f(K))]

    def eq(label, got, f, **q):
        ctx.prove_eq(label, got, f(A), known=kn(f), **q)
    ctx.prove_true("names", list(m.name_x) == names, m.name_x)
    eq("coefficients", m.betas, lambda o: o["b"], shape=(k + 1, 1))
    eq("residuals and fitted values", [m.u, m.predy], lambda o: [o["u"], o["f"]])
    eq("filtered residuals", m.e_filtered, lambda o: o["e"])
    eq("error variance", m.sig2, lambda o: o["s2"])
    eq("log-likelihood", m.logll, lambda o: ll_at(ctx, n, o["rss"], Wd, r))
    ctx.prove_eq("aic and schwarz", [m.aic, m.schwarz], [2 * ctx.num(k) - 2 * m.logll, ctx.num(k) * ctx.log(ctx.num(n)) - 2 * m.logll])
    s2 = sc(m.sig2)
    ctx.prove_eq("inverse of the information matrix", d(m.vm1, errinfo(ctx, Wd, r, s2)), ctx.eye(2), shape=(2, 2))
    eq("variance of the coefficients", m.vm[:k, :k], lambda o: o["v"], shape=(k, k))
    ctx.prove_eq("variance of lambda", [m.vm[k, k]] + list(m.vm[:k, k]) + list(m.vm[k, :k]), [m.vm1[0, 0]] + [0] * (2 * k))
    if p.get("table", True):
        check_table(ctx, m, names, m.betas, m.vm)
    if p.get("chow", True):
        check_chow(ctx, m, names, m.betas, m.vm, [v for v, t in zip(vx, fl_) if t], regset(regs))


def err_separate(ctx, spreg):
    p = ctx.p
    ctx.opaque()
    n, nb, regs, w, Wd, y, x, nx = setup(ctx)
    m = err_call(ctx, spreg, w, regs, y, x, nx, regime_err_sep=True)
    X0, vx = lag_design(ctx, Wd, x, nx)
    Wr, _ = wregime(ctx, nb, regs)
    labs = regset(regs)
    d = ctx.dot
    K = X0.shape[1] + 1
    names, Bs = [], []
    N = K * len(labs)
    off = ctx.zeros((N, N))
    for a, g in enumerate(labs):
        i = ids_of(regs, g)
        s = m.multi[g]
        r = ctx.opt.calls[a]["x"][0]
        W, XX, yy = Wr[g], X0[i], y[i]
        o = OLSRef(ctx, yy - r * d(W, yy), XX - r * d(W, XX))
        u = yy - d(XX, o.b)
        ng = ["%s_%s" % (g, v) for v in vx + ["lambda"]]
        names += ng
        B = ctx.colvec(list(o.b.reshape(-1)) + [r])
        Bs.append(B)
        ctx.prove_true("names of the regime", list(s.name_x) == ng, s.name_x)
        ctx.prove_eq("coefficients of the regime", s.betas, B, shape=(K, 1))
        ctx.prove_eq("residuals of the regime go back to their observations", [s.u, m.u[i], s.predy, m.predy[i]], [u, u, yy - u, yy - u])
        ctx.prove_eq("filtered residuals", [s.e_filtered, m.e_filtered[i]], [o.e, o.e])
        ctx.prove_eq("regime error variance", s.sig2, o.s2n)
        ctx.prove_eq("regime log-likelihood", s.logll, ll_at(ctx, len(i), o.rss, W, r))
        kk = ctx.num(K - 1)
        ctx.prove_eq("regime aic and schwarz", [s.aic, s.schwarz], [2 * kk - 2 * s.logll, kk * ctx.log(ctx.num(len(i))) - 2 * s.logll])
        ctx.prove_eq("regime information", d(s.vm1, errinfo(ctx, W, r, o.s2n)), ctx.eye(2), shape=(2, 2))
        v = np.vstack([np.hstack([o.s2n * o.xtxi, ctx.zeros((K - 1, 1))]), np.hstack([ctx.zeros((1, K - 1)), s.vm1[:1, :1]])])
        ctx.prove_eq("regime variance", s.vm, v, shape=(K, K))
        off[a * K:(a + 1) * K, a * K:(a + 1) * K] = v
    B = np.vstack(Bs)
    ctx.prove_true("names", list(m.name_x) == names, m.name_x)
    ctx.prove_eq("stacked coefficients", m.betas, B, shape=(N, 1))
    ctx.prove_eq("stacked variance", m.vm, off, shape=(N, N))
    if p.get("chow", True):
        check_chow(ctx, m, names, B, off, vx + ["lambda"], labs)
    if p.get("table", True):
        check_table(ctx, m, names, B, off)


L = [("err_common_full", dict(s="AS6")), ("err_common_lu", dict(s="G6", method="LU", const="one")),
     ("err_common_ord", dict(s="PRISM", method="ord", chow=False)), ("err_common_mixed", dict(s="G8", kx=2, cols=[True, False], chow=False)),
     ("err_common_asym", dict(s="D6", cols=[False], chow=False)),
     ("err_common_no_cross_links", dict(s="TWO5", regs="ababababab", exact=True, chow=False)),
     ("err_common_three", dict(s="G10", regs=REG3[:10], chow=False, table=False)),
     ("err_common_slx", dict(s="G8", slx=1, chow=False))]
for nm, q in L:
    add_case("P15", nm, err_common, **q)
    if q["s"] in ("AS6", "G6", "PRISM", "D6", "TWO5"):
        add_case("P15", nm.replace("common", "objective"), err_objective, y="line", **q)
add_case("P15", "err_objective_separate", err_objective, s="G10", sep=True, y="line")
add_case("P15", "err_separate", err_separate, s="G10")
add_case("P15", "err_separate_lu", err_separate, s="D10", method="LU", chow=False)
add_case("P15", "err_separate_slx", err_separate, s="G10", slx=1, chow=False, table=False)
add_case("P15", "err_separate_ord", err_separate, s="TWO5", method="ord", chow=False, regs="ababababab")


def refused(ctx, spreg):
    n, nb, regs, w, Wd, y, x, nx = setup(ctx)
    ctx.raises("weights required", lambda: spreg.ML_Lag_Regimes(y, x, list(regs), w=None))
    ctx.raises("weights required", lambda: spreg.ML_Error_Regimes(y, x, list(regs), w=None))
    ctx.raises("common coefficients with separate lags", lambda: spreg.ML_Lag_Regimes(y, x, list(regs), w=w, cols2regi=[False], regime_lag_sep=True))
    ctx.raises("common coefficients with separate errors", lambda: spreg.ML_Error_Regimes(y, x, list(regs), w=w, cols2regi=[False], regime_err_sep=True))


add_case("P15", "refused", refused, s="G10")
