"""Data generators: n = 3..6, errors, regressors, coefficients and both spatial parameters symbolic; random draws are symbols
(a stand-in generator records the distribution asked for); matrix exponential on acyclic weights (where it is a finite sum)."""
from symx.ctx import add_case
from common import *

ACYC4 = {0: [], 1: [0], 2: [0, 1], 3: [2, 1]}


def vec(ctx, n, nm, k=1, lo=None):
    return ctx.A([[ctx.var("%s%d_%d" % (nm, i, j), F(2 * i * i - 5 * i + 3 * j + 4, 3 + j), lo) for j in range(k)] for i in range(n)])


def spatial(ctx, spreg):
    p = ctx.p
    nb = p["nb"]
    w = ctx.W(nb)
    Wd = ctx.dense(w)
    n = w.n
    d = ctx.dot
    u, xb, wxg = vec(ctx, n, "u"), vec(ctx, n, "x"), vec(ctx, n, "g")
    rho, lam = ctx.var("rho", F(1, 2), F(-99, 100), F(99, 100)), ctx.var("lam", F(-2, 5), F(-99, 100), F(99, 100))
    B, C = ctx.eye(n) - rho * Wd, ctx.eye(n) - lam * Wd
    im = dict(imethod=p["imethod"])
    D = spreg.dgp
    keep = [u + ctx.num(0), xb + ctx.num(0), wxg + ctx.num(0)]
    ctx.prove_eq("linear model", D.dgp_ols(u, xb), xb + u, shape=(n, 1))
    ctx.prove_eq("SLX model", D.dgp_slx(u, xb, wxg), xb + wxg + u, shape=(n, 1))
    ma = u + lam * d(Wd, u)
    e = D.dgp_errproc(u, w, lam=lam, model="sar", **im)
    ctx.prove_eq("error process: (I - lam W) e = u", d(C, e), u, shape=(n, 1))
    ctx.prove_eq("moving average error", D.dgp_errproc(u, w, lam=lam, model="ma"), ma, shape=(n, 1))
    y = D.dgp_sperror(u, xb, w, lam=lam, model="sar", **im)
    ctx.prove_eq("error model: (I - lam W)(y - xb) = u", d(C, y - xb), u, shape=(n, 1))
    ctx.prove_eq("error model, moving average", D.dgp_sperror(u, xb, w, lam=lam, model="ma"), xb + ma)
    y = D.dgp_slxerror(u, xb, wxg, w, lam=lam, model="sar", **im)
    ctx.prove_eq("SLX error model", d(C, y - xb - wxg), u, shape=(n, 1))
    ctx.prove_eq("SLX error model, moving average", D.dgp_slxerror(u, xb, wxg, w, lam=lam, model="ma"), xb + wxg + ma)
    y = D.dgp_lag(u, xb, w, rho=rho, **im)
    ctx.prove_eq("lag model: (I - rho W) y = xb + u", d(B, y), xb + u, shape=(n, 1))
    y = D.dgp_spdurbin(u, xb, wxg, w, rho=rho, **im)
    ctx.prove_eq("spatial Durbin model", d(B, y), xb + wxg + u, shape=(n, 1))
    y = D.dgp_lagerr(u, xb, w, rho=rho, lam=lam, model="sar", **im)
    ctx.prove_eq("SARSAR model", d(C, d(B, y) - xb), u, shape=(n, 1))
    y = D.dgp_lagerr(u, xb, w, rho=rho, lam=lam, model="ma", **im)
    ctx.prove_eq("SARMA model", d(B, y) - xb, ma, shape=(n, 1))
    y = D.dgp_gns(u, xb, wxg, w, rho=rho, lam=lam, model="sar", **im)
    ctx.prove_eq("GNS model", d(C, d(B, y) - xb - wxg), u, shape=(n, 1))
    y = D.dgp_gns(u, xb, wxg, w, rho=rho, lam=lam, model="ma", **im)
    ctx.prove_eq("GNS model, moving average", d(B, y) - xb - wxg, ma, shape=(n, 1))
    ctx.prove_eq("inputs are left alone", [u, xb, wxg], keep)


def defaults(ctx, spreg):
    """documented default parameters"""
    w = ctx.W(G4)
    Wd = ctx.dense(w)
    n, d, D = 4, ctx.dot, spreg.dgp
    u, xb, g = vec(ctx, n, "u"), vec(ctx, n, "x"), vec(ctx, n, "g")
    B = ctx.eye(n) - ctx.num(F(1, 2)) * Wd
    C = ctx.eye(n) - ctx.num(F(1, 5)) * Wd
    for lab, got, exp in (("errproc", d(B, D.dgp_errproc(u, w)), u), ("sperror", d(B, D.dgp_sperror(u, xb, w) - xb), u),
                          ("slxerror", d(B, D.dgp_slxerror(u, xb, g, w) - xb - g), u), ("lag", d(B, D.dgp_lag(u, xb, w)), xb + u),
                          ("spdurbin", d(B, D.dgp_spdurbin(u, xb, g, w)), xb + g + u)):
        ctx.prove_eq("default parameters of " + lab, got, exp, tol=1e-6)
    for lab, y, m in (("lagerr", D.dgp_lagerr(u, xb, w), xb), ("gns", D.dgp_gns(u, xb, g, w), xb + g)):
        r = d(B, y) - m
        ctx.prove_eq("default parameters of " + lab, d(C, r), u, tol=1e-6)


def build(ctx, spreg):
    """regression part and WX part"""
    p = ctx.p
    n, k = 5, p["k"]
    w = ctx.W(D6 if p.get("n") == 6 else G5)
    n = w.n
    Wd, d, D = ctx.dense(w), ctx.dot, spreg.dgp
    x = vec(ctx, n, "x", k)
    b = [ctx.var("b%d" % i, F(i + 1, 2)) for i in range(k + 1)]
    exp = sum([x[:, [j]] * b[j + 1] for j in range(k)], ctx.ones((n, 1)) * b[0])
    ctx.prove_eq("xb with a constant first", D.make_xb(x, b), exp, shape=(n, 1))
    ctx.prove_true("xb refuses a wrong number of coefficients", D.make_xb(x, b[1:]) is None and D.make_xb(x, b + b) is None)
    L, cur = [], x
    for o in (1, 2, 3):
        cur = d(Wd, cur)
        L.append(cur)
        ctx.prove_eq("WX of order %d" % o, D.make_wx(x, w, o), np.hstack(L), shape=(n, k * o))
    ctx.prove_eq("WX by default", D.make_wx(x, w), L[0], shape=(n, k))
    ctx.prove_true("WX refuses other sizes", D.make_wx(x[:-1], w) is None)
    for o in (1, 2):
        wx = np.hstack(L[:o])
        g = [ctx.var("c%d" % i, F(2 * i - 1, 3)) for i in range(wx.shape[1])]
        exp = sum([wx[:, [j]] * g[j] for j in range(wx.shape[1])], ctx.zeros((n, 1)))
        if wx.shape[1] > 1:
            ctx.prove_eq("WX part", D.make_wxg(wx, g), exp, shape=(n, 1))
            ctx.prove_true("WX part refuses a wrong number of coefficients", D.make_wxg(wx, g[1:]) is None)
        else:
            ctx.prove_eq("WX part with a number", D.make_wxg(wx, g[0]), exp, shape=(n, 1))


def binary(ctx, spreg):
    """binary responses: one where the latent variable is above its mean"""
    p = ctx.p
    n, D = p["n"], spreg.dgp
    nb = {3: {0: [1], 1: [0, 2], 2: [1]}, 4: G4}[n]
    w = ctx.W(nb)
    u = ctx.A([[ctx.var("t%d" % i, F((5 * i * i) % 7 - 3, 2))] for i in range(2)] + [[ctx.num(F(i, 3))] for i in range(n - 2)])
    z = ctx.zeros((n, 1))
    one = ctx.num(F(1, 2))
    lat = dict(probit=u, slx=u, bin=u)
    got = dict(probit=D.dgp_probit(u, z), slx=D.dgp_slx(u, z, z, ybin=True), bin=D.make_bin(u))
    for nm in ("sperror", "slxerror", "lag", "spdurbin", "lagerr", "gns"):
        a = [u, z] + ([z] if nm in ("slxerror", "spdurbin", "gns") else []) + [w]
        f = getattr(D, "dgp_" + nm)
        lat[nm] = f(*a)
        got[nm] = f(*a, ybin=True)
    for nm, l in lat.items():
        m = l.sum() / n
        y = [int(v) for v in got[nm].reshape(-1)]
        ctx.prove_true(nm + ": zeros and ones", got[nm].shape == (n, 1) and set(y) <= {0, 1}, y)
        ctx.prove_ge(nm + ": above the mean exactly where one", [(l[i, 0] - m) if y[i] else (m - l[i, 0]) for i in range(n)])


def mess(ctx, spreg):
    """matrix exponential model: exp(alpha W) y = xb + u, alpha = log(1 - rho)"""
    w = ctx.W(ACYC4)
    Wd, n, d = ctx.dense(w), 4, ctx.dot
    u, xb = vec(ctx, n, "u"), vec(ctx, n, "x")
    rho = ctx.var("rho", F(1, 2), F(-9, 10), F(9, 10))
    y = spreg.dgp.dgp_mess(u, xb, w, rho=rho)
    a = ctx.log(1 - rho)
    S = t = ctx.eye(n)
    for k in range(1, n):
        t = d(t, Wd) * a / ctx.num(k)
        S = S + t
    ctx.prove_eq("exp(alpha W) y = xb + u", d(S, y), xb + u, shape=(n, 1))


class Rng:
    """a generator that hands out symbols and notes what was asked of it"""

    def __init__(s, ctx, n):
        s.ctx, s.n, s.calls = ctx, n, []

    def draw(s, kind, shape, **kw):
        i = len(s.calls)
        v = s.ctx.A([[s.ctx.var("r%d_%d_%d" % (i, a, b), F(a * a - 3 * b + i, 2 + b)) for b in range(shape[1])] for a in range(shape[0])])
        s.calls.append((kind, kw, v))
        return v if shape[1] > 1 else v.reshape(-1)

    def normal(s, loc=0, scale=1, size=None):
        return s.draw("normal", (size, 1), loc=loc, scale=scale)

    def laplace(s, loc=0, scale=1, size=None):
        return s.draw("laplace", (size, 1), loc=loc, scale=scale)

    def standard_cauchy(s, size=None):
        return s.draw("cauchy", (size, 1))

    def lognormal(s, mean=0, sigma=1, size=None):
        return s.draw("lognormal", (size, 1), loc=mean, scale=sigma)

    def uniform(s, low=0, high=1, size=None):
        return s.draw("uniform", (size, 1), low=low, high=high)

    def multivariate_normal(s, mean, cov, size=None):
        return s.draw("mvn", (size, 2), mean=mean, cov=cov)


def draws(ctx, spreg):
    D, n = spreg.dgp, 4
    mu, v = ctx.var("mu", F(1, 3)), ctx.var("v", F(5, 2), 0)
    for m in ("normal", "laplace", "cauchy", "lognormal"):
        r = Rng(ctx, n)
        u = D.make_error(r, n, mu=mu, varu=v, method=m)
        k, a, val = r.calls[0]
        ctx.prove_true(m + " draws", k == m and len(r.calls) == 1, k)
        ctx.prove_eq(m + " errors are the draws", u, val, shape=(n, 1))
        if m != "cauchy":
            ctx.prove_eq(m + " location", a["loc"], mu)
            ctx.prove_eq(m + " variance", a["scale"] * a["scale"] * (2 if m == "laplace" else 1), v)
    r = Rng(ctx, n)
    D.make_error(r, n)
    ctx.prove_true("standard normal by default", r.calls[0][0] == "normal")
    ctx.prove_eq("standard normal by default", [ctx.num(0) + r.calls[0][1]["loc"], ctx.num(0) + r.calls[0][1]["scale"]], [ctx.num(0), ctx.num(1)])
    ctx.prove_true("unknown distribution", D.make_error(Rng(ctx, n), n, method="other") is None)
    mus, vs = [mu, ctx.var("mu2", F(-1, 2))], [v, ctx.var("v2", F(7, 3), 0)]
    for m in ("uniform", "normal"):
        r = Rng(ctx, n)
        x = D.make_x(r, n, mu=mus, varu=vs, method=m)
        ctx.prove_true(m + " regressors: one draw per column", len(r.calls) == 2 and all(c[0] == m for c in r.calls))
        ctx.prove_eq(m + " regressors are the draws", x, np.hstack([c[2] for c in r.calls]), shape=(n, 2))
        for j, (_, a, _v) in enumerate(r.calls):
            if m == "normal":
                ctx.prove_eq("normal regressors: mean and variance", [a["loc"], a["scale"] * a["scale"]], [mus[j], vs[j]])
            else:
                w_ = a["high"] - a["low"]
                ctx.prove_eq("uniform regressors: variance", w_ * w_ / 12, vs[j])
    c = ctx.var("cor", F(1, 4), -1, 1)
    r = Rng(ctx, n)
    x = D.make_x(r, n, mu=mus, varu=vs, cor=c, method="bivnormal")
    a = r.calls[0][1]
    s12 = ctx.sqrt(vs[0] * vs[1])
    ctx.prove_eq("bivariate normal", [list(a["mean"]), [list(q) for q in a["cov"]]], [mus, [[vs[0], c * s12], [c * s12, vs[1]]]])
    ctx.prove_true("wrong dimensions", D.make_x(Rng(ctx, n), n, mu=[0], varu=[1, 2]) is None)
    u, h = vec(ctx, n, "u"), vec(ctx, n, "h", lo=0)
    e = D.make_heterror(u, ctx.A([[ctx.var("q%d" % i, F(i + 1, 2), 0)] for i in range(n)]))
    ctx.prove_eq("heteroskedastic errors", [e[i, 0] for i in range(n)], [u[i, 0] * ctx.sqrt(ctx.var("q%d" % i, F(i + 1, 2), 0)) for i in range(n)])
    ctx.prove_true("heteroskedastic errors refuse other sizes", D.make_heterror(u, h[:-1]) is None)
    lo, up = ctx.var("lo", F(1)), ctx.var("up", F(4))
    got = D.make_vmult(n, method="linear", vlow=[lo], vup=[up])
    ctx.prove_eq("linear multipliers", got, ctx.A([[lo + (up - lo) * i / (n - 1)] for i in range(n)]), shape=(n, 1))
    got = D.make_vmult(n, method="group", vlow=[1, 3], vup=[lo, up])
    ctx.prove_eq("group multipliers", got, ctx.A([[lo], [up], [up], [up]]), shape=(n, 1))
    r = Rng(ctx, n)
    got = D.make_vmult(n, method="uniform", vlow=[lo], vup=[up], rng=r)
    ctx.prove_eq("uniform multipliers", [got, r.calls[0][1]["low"], r.calls[0][1]["high"]], [r.calls[0][2], lo, up])
    ctx.prove_true("bad multipliers", all(q is None for q in (D.make_vmult(n, method="uniform"), D.make_vmult(n, method="group", vlow=[1], vup=[2]),
                                                             D.make_vmult(n, method="other"))))


def refuse(ctx, spreg):
    """every generator refuses (None or an exception) inputs of different sizes and unknown models"""
    D, n = spreg.dgp, 4
    w, u = ctx.W(G4), vec(ctx, n, "u")
    s = u[:-1]

    def no(lab, f):
        try:
            r = f()
        except Exception:
            r = None
        ctx.prove_true(lab, r is None, "accepted")
    for nm, k in (("ols", 2), ("slx", 3), ("probit", 2)):
        f = getattr(D, "dgp_" + nm)
        for i in range(k):
            no("%s refuses another length of argument %d" % (nm, i), lambda: f(*[s if j == i else u for j in range(k)]))
    for nm, k in (("errproc", 1), ("sperror", 2), ("slxerror", 3), ("lag", 2), ("spdurbin", 3), ("lagerr", 2), ("gns", 3), ("mess", 2)):
        f = getattr(D, "dgp_" + nm)
        for i in range(k if k > 1 else 0):
            no("%s refuses another length of argument %d" % (nm, i), lambda: f(*[s if j == i else u for j in range(k)], w))
        no("%s refuses other weights" % nm, lambda: f(*[s] * k, w))
        if nm not in ("errproc", "mess"):
            r = ctx.runs("%s with other weights" % nm, lambda: f(*[s] * k, w))
            ctx.prove_true("%s gives nothing with other weights" % nm, r is None)
        if nm not in ("lag", "spdurbin", "mess"):
            no("%s refuses unknown models" % nm, lambda: f(*[u] * k, w, model="other"))
        if nm != "mess":
            no("%s refuses unknown inverse methods" % nm, lambda: f(*[u] * k, w, imethod="other"))


for nm, nb in (("G4", G4), ("G5", G5), ("D6", D6)):
    for im in ("power_exp", "true_inv"):
        add_case("P28", "%s_%s" % (im, nm), spatial, nb=nb, imethod=im)
add_case("P28", "defaults", defaults)
for k in (1, 2, 3):
    add_case("P28", "build_%d" % k, build, k=k)
add_case("P28", "build_directed", build, k=2, n=6)
for n in (3, 4):
    add_case("P28", "binary_%d" % n, binary, n=n)
add_case("P28", "mess", mess)
add_case("P28", "draws", draws)
add_case("P28", "refuse", refuse)
