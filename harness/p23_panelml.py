"""maximum likelihood panel models: 4 units, 2 or 3 periods, one regressor (two in some cases); fixed effects with responses on a line or
fixed, any spatial parameter in its box, asymmetric row-standardised weights; random effects lag with one or two rounds of the
alternating scheme at arbitrary optimiser points; random effects error at arbitrary points, symmetric weights with distinct rational
eigenvalues (row-standardised ones are the recorded finding)."""
from symx.ctx import add_case
from common import *
from p22_panel import *

KLEIN = ({0: [1, 2, 3], 1: [0, 3, 2], 2: [3, 0, 1], 3: [2, 1, 0]}, {i: [F(1, 2), F(1, 3), F(1, 6)] for i in range(4)})
PATH4 = {0: [1], 1: [0, 2], 2: [1, 3], 3: [2]}


def stackW(ctx, Wd, m, T):
    N = Wd.shape[0]
    return np.vstack([ctx.dot(Wd, m[t * N:(t + 1) * N]) for t in range(T)])


def data(ctx, p):
    p = dict(p)
    if p.get("graph") == "KLEIN":
        p["graph"], p["weights"] = KLEIN
        if ctx.mode != "sym":
            p["weights"] = {i: [float(v) for v in r] for i, r in p["weights"].items()}
        p["transform"] = "o"
    elif p.get("graph"):
        p["graph"] = globals()[p["graph"]]
    N, T, y, x, w, Wd = panel(ctx, p, line=p.get("line", False))
    gy, gx, kw, ny = given(ctx, p, N, T, y, x)
    nx = base_names(p, x.shape[1])
    X, names = lagged(ctx, p, x, Wd, T, nx)
    kw.update(slxkw(p))
    return N, T, y, X, w, Wd, gy, gx, kw, ny, names


def logjac(ctx, Wd, r):
    return ctx.log(ctx.abs(ctx.det(ctx.eye(Wd.shape[0]) - r * Wd)))


def differences(ctx, label, c, ref, r, r0, known=()):
    """objective up to a constant"""
    f = lambda v: sc(c["fun"](v)) if isinstance(v, list) else sc(c["fun"]([v]))
    ctx.prove_eq(label, f(r) - f(r0), -(ref(r) - ref(r0)), known=known)


def box(ctx, c, hi=1.0, lo=None):
    b = [float(v) for v in np.asarray(c["bounds"], dtype=object).reshape(-1)[:2]]
    ctx.prove_true("search box", (-1 if lo is None else lo) <= b[0] <= (-0.9 if lo is None else 1e-6) and 0.9 <= b[1] <= hi, b)


def fe_lag(ctx, spreg):
    p = ctx.p
    ctx.opaque()
    N, T, y, X, w, Wd, gy, gx, kw, ny, names = data(ctx, p)
    n, d = N * T, ctx.dot
    old = p.get("old")
    m = spreg.Panel_FE_Lag(gy, gx, w, **kw) if old else spreg.ML_LagFE(gy, gx, w, spat_impacts=None, **kw)
    c = ctx.opt.calls[0]
    r = sc(c["x"])
    yd, Xd = centred(ctx, y, N, T), centred(ctx, X, N, T)
    k = X.shape[1]
    ols = lambda r: OLSRef(ctx, yd - r * stackW(ctx, Wd, yd, T), Xd)
    ref = lambda r: -ctx.num(F(n, 2)) * ctx.log(ols(r).s2n) + ctx.num(T) * logjac(ctx, Wd, r)
    box(ctx, c)
    differences(ctx, "objective", c, ref, r, ctx.num(F(1, 4)))
    ll = ref(r) - ctx.num(F(n, 2)) * (ctx.log(2 * ctx.pi) + 1)
    off = ctx.num(F(n, 2)) * ctx.log(ctx.num(n))
    ctx.prove_eq("likelihood", m.logll, ll, known=[("panel-old-likelihood", [ll - off])])
    o = ols(r)
    ctx.prove_eq("coefficients", m.betas, np.vstack([o.b, ctx.colvec([r])]), shape=(k + 1, 1))
    ctx.prove_eq("residuals", m.u, o.e, shape=(n, 1))
    ctx.prove_eq("fitted values", m.predy, yd - o.e, shape=(n, 1))
    ctx.prove_eq("sigma2", m.sig2, o.s2n)
    B = ctx.eye(N) - r * Wd
    xb = d(Xd, o.b)
    Bi = ctx.inv(B)
    red = stackW(ctx, Bi, xb, T)
    ctx.prove_eq("reduced form predictions", m.predy_e, red, shape=(n, 1))
    ctx.prove_eq("reduced form errors", m.e_pred, yd - red, shape=(n, 1))
    G = d(Wd, Bi)
    gx_ = stackW(ctx, G, xb, T)
    s2 = o.s2n
    t1, t2 = trace(G), trace(d(G, G)) + trace(d(G.T, G))
    top = np.hstack([d(Xd.T, Xd) / s2, d(Xd.T, gx_) / s2])
    mid = np.hstack([d(gx_.T, Xd) / s2, ctx.A([[ctx.num(T) * t2 + (gx_ * gx_).sum() / s2]])])
    I2 = np.vstack([top, mid])
    cross = np.vstack([ctx.zeros((k, 1)), ctx.A([[ctx.num(T) * t1 / s2]])])
    I = np.vstack([np.hstack([I2, cross]), np.hstack([cross.T, ctx.A([[n / (2 * s2 * s2)]])])])
    ctx.prove_eq("inverse of the information matrix", d(m.vm1, I), ctx.eye(k + 2), shape=(k + 2, k + 2))
    ctx.prove_eq("variance", m.vm, m.vm1[:-1, :-1], shape=(k + 1, k + 1))
    ctx.prove_eq("variance given sigma2", d(m.varb, I2), ctx.eye(k + 1), shape=(k + 1, k + 1))
    ctx.prove_true("sizes", (m.n, m.k, m.t) == (n, k + 1, T), (m.n, m.k, m.t))
    ctx.prove_eq("information criteria", [m.aic, m.schwarz], [2 * ctx.num(k + 1) - 2 * m.logll, (k + 1) * ctx.log(ctx.num(n)) - 2 * m.logll])
    tail(ctx, p, m, names + ["W_" + ny], old)
    if not old:
        mu = per_unit(ctx, y - d(X, o.b), N, T)
        ctx.prove_eq("individual effects", m.mu_i, mu, shape=(N, 1))


def tail(ctx, p, m, names, old):
    if old:
        ctx.prove_true("names", list(m.name_x) == names, m.name_x)
    else:
        table(ctx, m, names, m.betas, m.vm)


def fe_error(ctx, spreg):
    p = ctx.p
    ctx.opaque()
    N, T, y, X, w, Wd, gy, gx, kw, ny, names = data(ctx, p)
    n, d = N * T, ctx.dot
    old = p.get("old")
    m = spreg.Panel_FE_Error(gy, gx, w, **kw) if old else spreg.ML_ErrorFE(gy, gx, w, **kw)
    c = ctx.opt.calls[0]
    r = sc(c["x"])
    yd, Xd = centred(ctx, y, N, T), centred(ctx, X, N, T)
    k = X.shape[1]
    fil = lambda r, a: a - r * stackW(ctx, Wd, a, T)
    ols = lambda r: OLSRef(ctx, fil(r, yd), fil(r, Xd))
    ref = lambda r: -ctx.num(F(n, 2)) * ctx.log(ols(r).s2n) + ctx.num(T) * logjac(ctx, Wd, r)
    box(ctx, c)
    differences(ctx, "objective", c, ref, r, ctx.num(F(1, 4)))
    ll = ref(r) - ctx.num(F(n, 2)) * (ctx.log(2 * ctx.pi) + 1)
    off = ctx.num(F(n, 2)) * ctx.log(ctx.num(n))
    ctx.prove_eq("likelihood", m.logll, ll, known=[("panel-old-likelihood", [ll - off])])
    o = ols(r)
    ctx.prove_eq("coefficients", m.betas, np.vstack([o.b, ctx.colvec([r])]), shape=(k + 1, 1))
    u = yd - d(Xd, o.b)
    ctx.prove_eq("residuals", m.u, u, shape=(n, 1))
    ctx.prove_eq("fitted values", m.predy, yd - u, shape=(n, 1))
    ctx.prove_eq("filtered residuals", m.e_filtered, fil(r, u), shape=(n, 1))
    s2 = o.s2n
    ctx.prove_eq("sigma2", m.sig2, s2)
    G = d(Wd, ctx.inv(ctx.eye(N) - r * Wd))
    t1, t2 = trace(G), trace(d(G, G)) + trace(d(G.T, G))
    I = ctx.A([[ctx.num(T) * t2, ctx.num(T) * t1 / s2], [ctx.num(T) * t1 / s2, n / (2 * s2 * s2)]])
    ctx.prove_eq("inverse of the information matrix", d(m.vm1, I), ctx.eye(2), shape=(2, 2))
    V = np.vstack([np.hstack([s2 * o.xtxi, ctx.zeros((k, 1))]), np.hstack([ctx.zeros((1, k)), m.vm1[:1, :1]])])
    ctx.prove_eq("variance", m.vm, V, shape=(k + 1, k + 1))
    ctx.prove_eq("variance of the slopes", m.varb, s2 * o.xtxi, shape=(k, k))
    ctx.prove_true("sizes", (m.n, m.k, m.t) == (n, k, T), (m.n, m.k, m.t))
    ctx.prove_eq("information criteria", [m.aic, m.schwarz], [2 * ctx.num(k) - 2 * m.logll, k * ctx.log(ctx.num(n)) - 2 * m.logll])
    tail(ctx, p, m, names + ["lambda"], old)
    if not old:
        mu = per_unit(ctx, y - d(X, o.b), N, T)
        ctx.prove_eq("individual effects", m.mu_i, mu, shape=(N, 1))


def re_lag(ctx, spreg):
    p = ctx.p
    ctx.opaque()
    N, T, y, X, w, Wd, gy, gx, kw, ny, names = data(ctx, p)
    n, d = N * T, ctx.dot
    Z = const(ctx, X)
    k = Z.shape[1]
    old = p.get("old")
    rounds = p.get("rounds", 1)
    m = ctx.limited(2 * rounds, lambda: spreg.Panel_RE_Lag(gy, gx, w, **kw) if old else spreg.ML_LagRE(gy, gx, w, spat_impacts=None, **kw))
    if m is None:
        return
    calls = ctx.opt.calls
    rho, b, last = ctx.num(F(1, 10)), OLSRef(ctx, y, Z).b, ctx.num(F(1, 10))
    half = ctx.num(F(n, 2))
    for i in range(len(calls) // 2):
        cp, cr = calls[2 * i:2 * i + 2]
        b_, rho_ = b, rho

        def part(f):
            q = centred(ctx, y, N, T, 1 - f)
            e = q - rho_ * stackW(ctx, Wd, q, T) - d(centred(ctx, Z, N, T, 1 - f), b_)
            return -half * ctx.log((e * e).sum()) + ctx.num(F(N, 2)) * ctx.log(f * f)
        box(ctx, cp, lo=0)
        phi = sc(cp["x"])
        differences(ctx, "objective of the weight, round %d" % i, cp, part, phi, ctx.num(F(1, 4)))
        yq, Zq = centred(ctx, y, N, T, 1 - phi), centred(ctx, Z, N, T, 1 - phi)
        ols = lambda r: OLSRef(ctx, yq - r * stackW(ctx, Wd, yq, T), Zq)
        ref = lambda r: -half * ctx.log(ols(r).s2n) + ctx.num(T) * logjac(ctx, Wd, r)
        box(ctx, cr)
        rho = sc(cr["x"])
        differences(ctx, "objective of rho, round %d" % i, cr, ref, rho, ctx.num(F(1, 4)))
        o = ols(rho)
        b = o.b
        ctx.prove_true("round %d goes on until the weight settles" % i, True if i == len(calls) // 2 - 1 else abs(ctx.approx(phi - last)) >= 0)
        last = phi
    K = half * (ctx.log(2 * ctx.pi) + 1)
    part = ctx.num(F(N, 2)) * ctx.log(phi * phi)
    ll = ref(rho) - K + part
    ctx.prove_eq("likelihood", m.logll, ll, known=[("panel-old-likelihood", [ll - part])])
    ctx.prove_eq("coefficients", m.betas, np.vstack([b, ctx.colvec([rho, phi])]), shape=(k + 2, 1))
    ctx.prove_eq("residuals", m.u, o.e, shape=(n, 1))
    ctx.prove_eq("fitted values", m.predy, yq - o.e, shape=(n, 1))
    s2 = o.s2n
    ctx.prove_eq("sigma2", m.sig2, s2)
    Bi = ctx.inv(ctx.eye(N) - rho * Wd)
    xb = d(Zq, b)
    red = stackW(ctx, Bi, xb, T)
    ctx.prove_eq("reduced form predictions", m.predy_e, red, shape=(n, 1))
    ctx.prove_eq("reduced form errors", m.e_pred, yq - red, shape=(n, 1))
    ctx.prove_true("sizes", (m.n, m.k, m.t) == (n, k + 1, T), (m.n, m.k, m.t))
    ctx.prove_eq("information criteria", [m.aic, m.schwarz], [2 * ctx.num(k + 1) - 2 * m.logll, (k + 1) * ctx.log(ctx.num(n)) - 2 * m.logll])
    G = d(Wd, Bi)
    g = stackW(ctx, G, xb, T)
    t1, t2 = trace(G), trace(d(G, G)) + trace(d(G.T, G))
    I2 = np.vstack([np.hstack([d(Zq.T, Zq) / s2, d(Zq.T, g) / s2]), np.hstack([d(g.T, Zq) / s2, ctx.A([[T * t2 + (g * g).sum() / s2]])])])
    ctx.prove_eq("variance given phi and sigma2", d(m.varb, I2), ctx.eye(k + 1), shape=(k + 1, k + 1))
    z = ctx.num(0)

    def info(rp, pp, ps, sp):
        tail_ = ctx.A([[z] * k + [rp], [z] * k + [T * t1 / s2]])
        return np.vstack([np.hstack([I2, tail_.T]), np.hstack([tail_, ctx.A([[pp, ps], [sp, n / (2 * s2 * s2)]])])])
    true = info(-2 * t1 / phi, 2 * N / (phi * phi), -N / (s2 * phi), -N / (s2 * phi))
    now = info(-t1 / s2, N * (1 + 1 / (phi * phi)), -N / s2, -N / (s2 * s2))
    # the code stacks its columns, so that entry (phi, sigma2) is the one of the fourth column
    ctx.prove_eq("inverse of the information matrix", d(true, m.vm1), ctx.eye(k + 3), shape=(k + 3, k + 3),
                 known=[("re-lag-information", flat(d(true, m.vm1) - d(now.T, m.vm1) + ctx.eye(k + 3)))])
    ctx.prove_eq("variance", m.vm, m.vm1[:-1, :-1], shape=(k + 2, k + 2))
    tail(ctx, p, m, ["CONSTANT"] + names + ["W_" + ny, "phi"], old)


def re_error(ctx, spreg):
    p = ctx.p
    ctx.opaque()
    N, T, y, X, w, Wd, gy, gx, kw, ny, names = data(ctx, p)
    n, d = N * T, ctx.dot
    Z = const(ctx, X)
    k = Z.shape[1]
    old = p.get("old")
    try:
        m = spreg.Panel_RE_Error(gy, gx, w, **kw) if old else spreg.ML_ErrorRE(gy, gx, w, **kw)
    except Exception:
        if not (p.get("objective") and ctx.opt.calls):
            raise
    c = ctx.opt.calls[0]
    lam, f = list(c["x"])
    half = ctx.num(F(n, 2))
    th = lambda f: f * f          # sigma2_u / sigma2

    def gls(lam, f):
        """sums of squares of the transformed data: within part with B, between part with the inverse of T theta I + (B'B)^-1"""
        B = ctx.eye(N) - lam * Wd
        BB = d(B.T, B)
        M = ctx.inv(T * th(f) * ctx.eye(N) + ctx.inv(BB))

        def q(a, b):
            am, bm = per_unit(ctx, a, N, T), per_unit(ctx, b, N, T)
            ac, bc = a - np.vstack([am] * T), b - np.vstack([bm] * T)
            v = T * d(am.T, M, bm)
            for t in range(T):
                v = v + d(ac[t * N:(t + 1) * N].T, BB, bc[t * N:(t + 1) * N])
            return v
        A = ctx.inv(q(Z, Z))
        b = d(A, q(Z, y))
        s2 = sc(q(y, y) - d(q(y, Z), b)) / ctx.num(n)
        return b, s2, A, B, BB, M

    def ref(v):
        lam, f = v
        b, s2, A, B, BB, M = gls(lam, f)
        return -half * ctx.log(s2) - ctx.log(ctx.det(ctx.eye(N) + T * th(f) * BB)) / 2 + T * ctx.log(ctx.abs(ctx.det(B)))
    bs = [[float(v) for v in b] for b in c["bounds"]]
    ctx.prove_true("search box", -1 <= bs[0][0] < -0.9 and 0.9 < bs[0][1] <= 1 and 0 <= bs[1][0] < 1e-3 and bs[1][1] > 100, bs)
    if p.get("objective"):
        # at two fixed points (row-standardised weights): recorded finding
        a, b = [ctx.num(F(1, 3)), ctx.num(F(1, 2))], [ctx.num(F(-1, 4)), ctx.num(F(3, 2))]
        got = sc(c["fun"](a)) - sc(c["fun"](b))
        ctx.prove_eq("objective", got, -(ref(a) - ref(b)), known=[("re-error-asymmetric", [nowobj(ctx, Wd, N, T, y, Z, a) - nowobj(ctx, Wd, N, T, y, Z, b)])])
        return
    differences(ctx, "objective", c, ref, [lam, f], [ctx.num(F(1, 4)), ctx.num(F(2, 5))])
    b, s2, A, B, BB, M = gls(lam, f)
    ll = ref([lam, f]) - half * (ctx.log(2 * ctx.pi) + 1)
    ctx.prove_eq("likelihood", m.logll, ll, known=[("panel-old-likelihood", [ll - half * ctx.log(ctx.num(n))])])
    ctx.prove_eq("coefficients", m.betas, np.vstack([b, ctx.colvec([lam, th(f) * s2])]), shape=(k + 2, 1))
    ctx.prove_eq("sigma2", m.sig2, s2)
    ctx.prove_eq("variance of the effects", m.sig2_u, th(f) * s2)
    u = y - d(Z, b)
    ctx.prove_eq("residuals", m.u, u, shape=(n, 1))
    ctx.prove_eq("fitted values", m.predy, y - u, shape=(n, 1))
    ctx.prove_eq("sum of squares of the filtered residuals", (m.e_filtered * m.e_filtered).sum(), n * s2)
    ctx.prove_true("sizes", (m.n, m.k, m.t) == (n, k, T), (m.n, m.k, m.t))
    ctx.prove_eq("variance of the slopes", m.vm[:k, :k], s2 * A, shape=(k, k))
    ctx.prove_eq("no correlation of slopes and parameters", flat(m.vm[:k, k:], m.vm[k:, :k]), [ctx.num(0)] * (4 * k))
    if p.get("info", True):
        # information of (lambda, sigma2_u, sigma2)
        su = th(f) * s2
        Bi = ctx.inv(BB)
        D = d(Bi, d(Wd.T, B) + d(B.T, Wd), Bi)
        Ei = BB / s2
        Oi = M / s2
        dE = [s2 * D, ctx.zeros((N, N)), Bi]
        dO = [s2 * D, T * ctx.eye(N), Bi]
        I = ctx.A([[(T - 1) * trace(d(Ei, dE[i], Ei, dE[j])) / 2 + trace(d(Oi, dO[i], Oi, dO[j])) / 2 for j in range(3)] for i in range(3)])
        ref_v = ctx.inv(I)[:2, :2]
        # what the code has
        gam = d(d(Wd.T, B) + d(B.T, Wd), Bi)
        vi = ctx.inv(T * f * ctx.eye(N) + Bi)
        sg = d(vi, Bi)
        t1, t2, t3 = trace(gam), trace(vi), trace(sg)
        t4, t5, t6, t7 = trace(d(sg, gam)), trace(d(sg, vi)), trace(d(sg, gam, vi)), trace(d(sg, gam, sg))
        a = ctx.num(T - 1) / 2 * t1 * t1 + t4 * t4 / 2
        e = T / (2 * s2) * t6
        g = ctx.num(T - 1) / (2 * s2) * t1 + t7 / (2 * s2)
        h = T / (2 * s2 * s2) * t5
        now = ctx.inv(ctx.A([[a, e, g], [e, T * T / (2 * s2 * s2) * t2 * t2, h], [g, h, ((T - 1) * N + t3 * t3) / (2 * s2 * s2)]]))[:2, :2]
        ctx.prove_eq("variance of lambda and sigma2_u", m.vm[k:, k:], ref_v, shape=(2, 2), known=[("re-error-information", flat(now))])
    tail(ctx, p, m, ["CONSTANT"] + names + (["lambda", "sig2_u"] if old else ["lambda", "sigma2_u"]), old)


def nowobj(ctx, Wd, N, T, y, Z, v):
    """the objective as the code computes it: eigenvalues and eigenvectors of W as if it were symmetric"""
    lam, f = v
    d = ctx.dot
    ev, V = eigen_path(ctx)
    cv = [T * f * f + 1 / ((1 - lam * e) ** 2) for e in ev]
    P = d(ctx.diag([1 / ctx.sqrt(c) for c in cv]), V.T)
    pr = P - (ctx.eye(N) - lam * Wd)
    tr = lambda a: a + np.vstack([d(pr, per_unit(ctx, a, N, T))] * T) - lam * stackW(ctx, Wd, a, T)
    o = OLSRef(ctx, tr(y), tr(Z))
    r = ctx.num(F(N * T, 2)) * ctx.log(o.rss)
    for e in ev:
        r = r + ctx.log(1 + T * f * f * (1 - lam * e) ** 2) / 2 - T * ctx.log(1 - lam * e)
    return r


def eigen_path(ctx):
    """row-standardised path of four: eigenvalues and unit eigenvectors"""
    ev = [ctx.num(v) for v in (F(-1), F(-1, 2), F(1, 2), F(1))]
    vs = [[1, -1, 1, -1], [2, -1, -1, 2], [2, 1, -1, -2], [1, 1, 1, 1]]
    V = ctx.A([[vs[j][i] for j in range(4)] for i in range(4)])
    nr = [2, 10, 10, 2]
    return ev, V * ctx.vec1([1 / (ctx.sqrt(ctx.num(v)) if v == 10 else ctx.num(v)) for v in nr])


for old in (False, True):
    o = dict(old=True) if old else {}
    s = "_old" if old else ""
    add_case("P23", "fe_lag" + s, fe_lag, **o)
    add_case("P23", "fe_lag_wide" + s, fe_lag, layout="wide", xs=["X1", "X2"], **o)
    add_case("P23", "fe_error" + s, fe_error, **o)
    add_case("P23", "fe_error_T3" + s, fe_error, T=3, N=3, xs=["X1", "X2"], **o)
    add_case("P23", "re_lag" + s, re_lag, **o)
    add_case("P23", "re_lag_rounds" + s, re_lag, rounds=2, N=3, T=2, **o)
add_case("P23", "fe_lag_line", fe_lag, line=True, N=3)
add_case("P23", "fe_error_line", fe_error, line=True, N=3)
add_case("P23", "fe_lag_slx", fe_lag, slx=1, T=3)
add_case("P23", "fe_error_slx", fe_error, slx=1, T=3)
add_case("P23", "re_lag_slx", re_lag, slx=1, T=3)
add_case("P23", "re_error", re_error, graph="KLEIN")
add_case("P23", "re_error_T3", re_error, graph="KLEIN", T=3, info=False)
add_case("P23", "re_error_wide", re_error, graph="KLEIN", layout="wide", xs=["X1", "X2"], info=False)
add_case("P23", "re_error_slx", re_error, graph="KLEIN", slx=1, info=False)
add_case("P23", "re_error_old", re_error, graph="C4", old=True)
add_case("P23", "re_error_rowstd", re_error, graph="PATH4", objective=True)
