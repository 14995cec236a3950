"""SUR: 2 and 3 equations, n = 6..8, one to three regressors per equation; all responses on one symbolic line (coefficients of the two
equation system also for fully symbolic residual covariances); one-step and iterated (up to two iterations); regimes."""
from symx.ctx import add_case
from common import *
from surref import *

YS = [Y0, [4, 9, 2, 7, 5, 12, 3, 10, 6, 14, 8, 1, 11, 13], [1, 6, 3, 11, 8, 2, 9, 5, 13, 4, 7, 10, 2, 15]]
DS = [D1, [2, 1, -1, 3, 0, 4, -2, 1, 5, 2, -3, 1, 6, 2], [1, 3, 2, -2, 4, 1, 0, -1, 3, 2, 5, 1, -4, 2]]


def system(ctx, p):
    n, N = p.get("n", 7), p.get("N", 2)
    s = ctx.var("s", F(3, 7))
    ys = [ctx.col(YS[r][:n]) + ctx.col(DS[r][:n]) * s for r in range(N)]
    sets = p.get("xs", ([X1], [X2], [X1, X3]))
    xs = [cols(ctx, *v, n=n) for v in sets[:N]]
    return n, N, ys, [const(ctx, x) for x in xs]


def base(ctx, spreg):
    p = ctx.p
    n, N, ys, Xs = system(ctx, p)
    from spreg.sur import BaseSUR
    it = p.get("iter", 0)
    kw = dict(iter=True, maxiter=it - 1, epsilon=1e-5) if it else {}
    m = BaseSUR(dict(enumerate(ys)), dict(enumerate(Xs)), **kw)
    ols = [OLSRef(ctx, y, X) for y, X in zip(ys, Xs)]
    E = np.hstack([o.e for o in ols])
    for r in range(N):
        ctx.prove_eq("OLS start of equation %d" % r, m.bOLS[r], ols[r].b, shape=ols[r].b.shape)
    ctx.prove_eq("OLS residuals", m.olsE, E, shape=(n, N))
    done = m.niter if it else 1
    g0 = g = GLS(ctx, ys, Xs, E)
    for _ in range(done if it else 0):
        g = GLS(ctx, ys, Xs, resid(ctx, ys, Xs, g.bs))
    for r in range(N):
        ctx.prove_eq("coefficients of equation %d" % r, m.bSUR[r], g.bs[r], shape=g.bs[r].shape)
    ctx.prove_eq("variance", m.varb, g.V, shape=g.V.shape)
    ctx.prove_eq("error covariance", m.sig, g.sig, shape=(N, N))
    ctx.prove_eq("error covariance of the OLS residuals", m.sig_ols, g0.sig, shape=(N, N))
    ctx.prove_eq("error correlation", m.corr, corr(ctx, g.sig), shape=(N, N))
    e = resid(ctx, ys, Xs, g.bs)
    ctx.prove_eq("residuals", m.bigE, e, shape=(n, N))
    ctx.prove_eq("fitted values", m.bigYP, np.hstack(ys) - e, shape=(n, N))
    ctx.prove_eq("likelihood", m.llik, -ctx.num(F(n, 2)) * (ctx.num(N) * (1 + ctx.log(2 * ctx.pi)) + logdet(ctx, g.sig)))
    ctx.prove_eq("log determinants", [m.ldetS0, m.ldetS1], [sum((ctx.log(g0.sig[i, i]) for i in range(1, N)), ctx.log(g0.sig[0, 0])), logdet(ctx, g.sig)])
    if p.get("same"):
        for r in range(N):
            ctx.prove_eq("same regressors: OLS in equation %d" % r, m.bSUR[r], ols[r].b)


def lm_spatial(ctx, g, E, Xs, ys, Wd):
    d, N, n = ctx.dot, len(ys), E.shape[0]
    T1, T2 = trace(d(Wd, Wd)), trace(d(Wd.T, Wd))
    S, Si = g.sig, g.sigi
    I = ctx.eye(N)
    J = T1 * I + T2 * (S * Si)
    WE = d(Wd, E)
    se = ctx.A([sum((Si[h, j] * (E[:, h] * WE[:, j]).sum() for h in range(N)), ctx.num(0)) for j in range(N)]).reshape(N, 1)
    lme = sc(d(se.T, ctx.inv(J), se))
    WY = d(Wd, np.hstack(ys))
    sl = ctx.A([sum((Si[h, j] * (E[:, h] * WY[:, j]).sum() for h in range(N)), ctx.num(0)) for j in range(N)]).reshape(N, 1)
    F_ = d(Wd, np.hstack([d(X, b) for X, b in zip(Xs, g.bs)]))
    B = np.vstack([d(Xs[r].T, F_) * np.vstack([[Si[r, j] for j in range(N)]] * 1) for r in range(N)])
    Q = J + Si * d(F_.T, F_) - d(B.T, g.V, B)
    lml = sc(d(sl.T, ctx.inv(Q), sl))
    return lme, lml


def full(ctx, spreg):
    p = ctx.p
    n, N, ys, Xs = system(ctx, p)
    w = ctx.W({6: G6, 7: G7, 8: G8}[n])
    ny = {r: "y%d" % r for r in range(N)}
    nx = {r: ["c%d" % r] + ["x%d_%d" % (i, r) for i in range(1, Xs[r].shape[1])] for r in range(N)}
    m = spreg.SUR(dict(enumerate(ys)), dict(enumerate(Xs)), w=w, spat_diag=p.get("spat", False), nonspat_diag=True,
                  name_bigy=ny, name_bigX={r: list(v) for r, v in nx.items()})
    E = np.hstack([OLSRef(ctx, y, X).e for y, X in zip(ys, Xs)])
    g = GLS(ctx, ys, Xs, E)
    for r in range(N):
        ctx.prove_eq("coefficients of equation %d" % r, m.bSUR[r], g.bs[r], shape=g.bs[r].shape)
    setp(ctx, "inference", m.sur_inf, g.bs, g.V)
    R = corr(ctx, g.sig)
    df = N * (N - 1) // 2
    lm = sum((R[i, j] * R[i, j] for i in range(N) for j in range(i)), ctx.num(0)) * ctx.num(n)
    ctx.prove_eq("Breusch-Pagan test", list(m.lmtest), [lm, ctx.num(df), ctx.chi2sf(lm, df)])
    lr = ctx.num(n) * (sum((ctx.log(g.sig[i, i]) for i in range(1, N)), ctx.log(g.sig[0, 0])) - logdet(ctx, g.sig))
    ctx.prove_eq("likelihood ratio test", list(m.lrtest), [lr, ctx.num(df), ctx.chi2sf(lr, df)])
    if p.get("spat"):
        e = resid(ctx, ys, Xs, g.bs)
        le, ll = lm_spatial(ctx, g, e, Xs, ys, ctx.dense(w))
        ctx.prove_eq("LM test of spatial errors", list(m.lmEtest), [le, ctx.num(N), ctx.chi2sf(le, N)])
        ctx.prove_eq("LM test of spatial lags", list(m.lmlagtest), [ll, ctx.num(N), ctx.chi2sf(ll, N)])
    if len(set(X.shape[1] for X in Xs)) == 1:
        ctx.prove_eq("equality of coefficients over equations", triples(m.surchow), equal_coefs(ctx, g.bs, g.V))
    else:
        ctx.prove_true("no test of equality", m.surchow is None)
    ctx.prove_true("names", m.name_bigy == ny and m.name_bigX == nx, (m.name_bigy, m.name_bigX))


def regime(ctx, spreg):
    p = ctx.p
    n, N, ys, Xs = system(ctx, p)
    regs = list(p.get("regs", "abbaabbaab"))[:n]
    nx = {r: ["c%d" % r] + ["x%d_%d" % (i, r) for i in range(1, Xs[r].shape[1])] for r in range(N)}
    m = spreg.SUR(dict(enumerate(ys)), dict(enumerate(Xs)), regimes=list(regs), nonspat_diag=False,
                  name_bigy={r: "y%d" % r for r in range(N)}, name_bigX={r: list(v) for r, v in nx.items()})
    Zs, names = [], []
    for r in range(N):
        Z, a = block(ctx, Xs[r], regs, [True] * Xs[r].shape[1], nx[r])
        Zs.append(Z)
        names.append(a)
    E = np.hstack([OLSRef(ctx, y, X).e for y, X in zip(ys, Zs)])
    g = GLS(ctx, ys, Zs, E)
    for r in range(N):
        ctx.prove_eq("coefficients of equation %d" % r, m.bSUR[r], g.bs[r], shape=g.bs[r].shape)
        ctx.prove_true("names of equation %d" % r, list(m.name_bigX[r]) == names[r], m.name_bigX[r])
    setp(ctx, "inference", m.sur_inf, g.bs, g.V)
    regime_chows(ctx, m, g.bs, g.V, names, [nx[r] for r in range(N)], regset(regs))


def covariance(ctx, spreg):
    """sur_est for a symbolic covariance of two equations"""
    p = ctx.p
    n, N = 6, 2
    ys = [ctx.col(YS[r][:n]) for r in range(N)]
    Xs = [const(ctx, cols(ctx, v, n=n)) for v in (X1, X2)]
    E = np.hstack([ctx.freevec("e", [1, -2, 3, 0, 2, -1]), ctx.freevec("f", [2, 1, 0, -1, 3, -2])])
    from spreg.sur_utils import sur_est, sur_crossprod
    XX, Xy = sur_crossprod(dict(enumerate(Xs)), dict(enumerate(ys)))
    for i in range(N):
        for j in range(N):
            ctx.prove_eq("cross products %d%d" % (i, j), [XX[i, j], Xy[i, j]], [ctx.dot(Xs[i].T, Xs[j]), ctx.dot(Xs[i].T, ys[j])])
    b, V, sig = sur_est(XX, Xy, E, np.array([[X.shape[1]] for X in Xs]))
    g = GLS(ctx, ys, Xs, E)
    ctx.prove_eq("covariance", sig, g.sig, shape=(N, N))
    ctx.prove_eq("variance", V, g.V, shape=g.V.shape)
    ctx.prove_eq("coefficients", [b[0], b[1]], g.bs)


def frame(ctx, spreg):
    """systems out of a data frame: wide lists, and long data with unit and time identifiers"""
    import pandas as pd
    from spreg.sur_utils import sur_dictxy, sur_dictZ
    p = ctx.p
    v = lambda nm, xs: [ctx.var("%s%d" % (nm, i), x) for i, x in enumerate(xs)]
    if not p["long"]:
        n = 5
        d = {nm: v(nm, xs[:n]) for nm, xs in (("a", Y0), ("b", YS[1]), ("p", X1), ("q", X2), ("r", X3))}
        df = pd.DataFrame({k: ctx.vec1(c) for k, c in d.items()})
        col = lambda nm: np.array(d[nm], dtype=ctx.one().dtype).reshape(n, 1) if hasattr(ctx, "one") else ctx.colvec(d[nm])
        sets = [["p", "q"], ["r"]]
        y, X, ny, nx = sur_dictxy(df, ["a", "b"], sets)
        Z, nz = sur_dictZ(df, sets)
        Zc, nzc = sur_dictZ(df, sets, const=True)
        for r in range(2):
            xs = np.hstack([col(c) for c in sets[r]])
            ctx.prove_eq("response %d" % r, y[r], col("ab"[r]), shape=(n, 1))
            ctx.prove_eq("regressors %d" % r, X[r], const(ctx, xs), shape=(n, 1 + xs.shape[1]))
            ctx.prove_eq("endogenous or instruments %d" % r, Z[r], xs, shape=xs.shape)
            ctx.prove_eq("endogenous or instruments with constant %d" % r, Zc[r], const(ctx, xs), shape=(n, 1 + xs.shape[1]))
            c = "Constant_%d" % (r + 1)
            ctx.prove_true("names %d" % r, (ny[r], nx[r], nz[r], nzc[r]) == ("ab"[r], [c] + sets[r], sets[r], [c] + sets[r]), (ny, nx, nz, nzc))
        return
    order = [(2, 1), (1, 1), (1, 2), (3, 2), (2, 2), (3, 1)] if p["long"] == "mixed" else [(u, t) for t in (1, 2) for u in (1, 2, 3)]
    n = len(order)
    d = {nm: v(nm, xs[:n]) for nm, xs in (("a", Y0), ("p", X1), ("q", X2))}
    df = pd.DataFrame({k: ctx.vec1(c) for k, c in d.items()})
    df["u"], df["t"] = [u for u, _ in order], [t for _, t in order]
    units = []
    for u, _ in order:
        if u not in units:
            units.append(u)
    y, X, ny, nx = sur_dictxy(df, ["a"], [["p", "q"]], space_id=["u"], time_id=["t"])
    Z, nz = sur_dictZ(df, [["p", "q"]], form="plm", space_id=["u"], time_id=["t"])
    for r, t in enumerate((1, 2)):
        rows = [order.index((u, t)) for u in units]
        pick = lambda nm: ctx.colvec([d[nm][i] for i in rows])
        xs = np.hstack([pick("p"), pick("q")])
        ctx.prove_eq("response %d" % r, y[r], pick("a"), shape=(3, 1))
        ctx.prove_eq("regressors %d" % r, X[r], const(ctx, xs), shape=(3, 3))
        ctx.prove_eq("endogenous or instruments %d" % r, Z[r], xs, shape=(3, 2))
        ctx.prove_true("names %d" % r, (ny[r], nx[r], nz[r]) == ("a_%d" % t, ["Constant_%d" % t, "p_%d" % t, "q_%d" % t], ["p_%d" % t, "q_%d" % t]), (ny, nx, nz))


add_case("P19", "covariance", covariance)
add_case("P19", "two", base)
add_case("P19", "two_unequal", base, xs=([X1, X2], [X3]))
add_case("P19", "two_same", base, xs=([X1, X2], [X1, X2]), same=True)
add_case("P19", "three", base, N=3)
add_case("P19", "two_iter1", base, iter=1, n=6)
add_case("P19", "two_iter2", base, iter=2, n=6, tier="thorough")
add_case("P19", "full_two", full)
add_case("P19", "full_two_unequal", full, xs=([X1, X2], [X3]))
add_case("P19", "full_two_spatial", full, spat=True, n=6)
add_case("P19", "full_three", full, N=3, xs=([X1], [X2], [X3]))
add_case("P19", "full_three_spatial", full, N=3, xs=([X1], [X2], [X3]), spat=True, tier="thorough")
add_case("P19", "regimes", regime, n=8)
add_case("P19", "regimes_unequal", regime, n=8, xs=([X1, X2], [X3]))
add_case("P19", "regimes_three_labels", regime, n=10, regs=[3, 1, 2, 1, 3, 2, 1, 2, 3, 3])
for lg in (None, "sorted", "mixed"):
    add_case("P19", "frame_%s" % lg, frame, long=lg)
