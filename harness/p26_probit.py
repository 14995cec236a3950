"""probit: 4..6 observations, 2..3 coefficients, every real coefficient vector (the estimator is started at it and told to stop, or
the optimiser returns it), every binary response of the listed patterns; the likelihood, score and information also for a regressor
on a symbolic line; Newton steps from any start.  The real optimisers' convergence is outside."""
import contextlib
import io
from symx.ctx import add_case
from common import *
from fractions import Fraction as F

BX = [1, 3, -2, 2, -1, 4, -3, 0]
BX2 = [2, -1, 1, 3, -2, -3, 1, 4]


class Ref:
    """textbook probit quantities at b"""

    def __init__(s, ctx, y, X, b):
        s.ctx, s.y, s.X, s.b = ctx, y, X, b
        s.n, s.k = X.shape
        s.z = ctx.dot(X, b)
        s.Phi, s.phi = ctx.normcdf(s.z), ctx.normpdf(s.z)
        s.var = s.Phi * (1 - s.Phi)

    def ll(s):
        t = ctx_zero(s.ctx)
        for i in range(s.n):
            t = t + s.ctx.log(s.Phi[i, 0] if s.y[i] else 1 - s.Phi[i, 0])
        return t

    def gen(s):
        return s.phi * (s.ctx.col(s.y) - s.Phi) / s.var

    def score(s):
        return s.ctx.dot(s.X.T, s.gen())

    def hessian(s):
        # d gen_i / d z_i = -gen_i (gen_i + z_i)
        g = s.gen()
        return s.ctx.dot(s.X.T, s.X * (-g * (g + s.z)))


def ctx_zero(ctx):
    return ctx.num(0)


def setup(ctx):
    p = ctx.p
    n, kx = p["n"], p.get("k", 2) - 1
    y = p["y"]
    if p.get("xsym"):
        x = np.hstack([xline(ctx, n, BX, D2), cols(ctx, BX2, n=n)[:, :kx - 1]])
    else:
        x = cols(ctx, BX, BX2, n=n)[:, :kx]
    start = [F(1, 5), F(1, 3), F(-1, 4)][:kx + 1]
    b = [ctx.var("b%d" % i, start[i]) for i in range(kx + 1)]
    return n, y, x, const(ctx, x), b, ctx.colvec(b)


def objective(ctx, spreg):
    """objective, score and information at any coefficient vector"""
    from spreg.probit import BaseProbit
    n, y, x, X, b, bv = setup(ctx)
    r = Ref(ctx, y, X, bv)
    m = BaseProbit(ctx.col(y), X, bstart=b, maxiter=0)
    ctx.prove_eq("log-likelihood", m.ll(bv), r.ll())
    ctx.prove_eq("score", m.gradient(bv), r.score())
    ctx.prove_eq("information", m.hessian(bv), r.hessian(), shape=(len(b), len(b)))
    ctx.prove_eq("reported log-likelihood", m.logl, r.ll())
    ctx.prove_eq("variance is the inverse information", ctx.dot(m.vm, -r.hessian()), ctx.eye(len(b)))


def report(ctx, spreg):
    p = ctx.p
    ctx.cut("probit")
    ctx.opaque()
    n, y, x, X, b, bv = setup(ctx)
    k = len(b)
    w = ctx.W(p.get("g", D6 if n == 6 else G4 if n == 4 else G5), transform=p.get("tr", "r"))
    sl = p.get("slx", 0)
    names = ["CONSTANT"] + ["x%d" % i for i in range(1, k)]
    Wd = ctx.dense(w)
    kw = {}
    optim = p.get("optim", "newton")
    if sl:
        cur, lag, nm = x, [], []
        mask = p.get("mask", [True] * (k - 1))
        use = [i for i in range(k - 1) if mask[i]]
        cur = x[:, use]
        for o in range(sl):
            cur = ctx.dot(Wd, cur)
            lag.append(cur)
            nm += ["W%s_x%d" % ("" if o == 0 else str(o + 1), i + 1) for i in use]
        X = np.hstack([X] + lag)
        names += nm
        extra = [ctx.var("c%d" % i, F(1, 6 + i)) for i in range(len(nm))] if p.get("symlag") else [ctx.num(F(1, 6 + i)) for i in range(len(nm))]
        b = b + extra
        bv = ctx.colvec(b)
        k = len(b)
        kw = dict(slx_lags=sl, slx_vars=mask if "mask" in p else "All")
    if p.get("diag"):
        kw["spat_diag"] = True
    if optim == "newton":
        kw.update(bstart=b, maxiter=0)
    m = spreg.Probit(ctx.col(y), x, w=w, optim=optim, scalem=p.get("scalem", "phimean"), name_y="yy",
                     name_x=["x%d" % i for i in range(1, x.shape[1] + 1)], name_ds="ds", name_w="ww", **kw)
    calls = {c["what"]: c for c in ctx.est_calls}
    ctx.cuts.discard("probit")
    if optim != "newton":
        c = ctx.opt.calls[0]
        ctx.prove_true("optimiser used", c["kind"] == "fmin_" + optim, c["kind"])
        bv = ctx.colvec(c["x"])
        ctx.prove_eq("starting values are least squares", c["start"], OLSRef(ctx, ctx.col(y), X).b)
        at = [ctx.num(F(1, 3 + i)) for i in range(k)]
        ra = Ref(ctx, y, X, ctx.colvec(at))
        ctx.prove_eq("minimised function", c["fun"](at), -ra.ll())
        ctx.prove_eq("its gradient", c["jac"](np.array(at)), -ra.score())
        if optim == "ncg":
            ctx.prove_eq("its Hessian", c["hess"](np.array(at)), -ra.hessian())
    r = Ref(ctx, y, X, bv)
    ctx.prove_eq("likelihood and information taken at the coefficients", [v for a in ("ll", "hessian") for v in np.asarray(calls[a]["at"]).flat],
                 [bv[i, 0] for a in (0, 1) for i in range(k)])
    H = calls["hessian"]["out"]
    ctx.prove_true("names", list(m.name_x) == names, list(m.name_x))
    ctx.prove_eq("regressors", m.x, X)
    ctx.prove_eq("coefficients", m.betas, bv, shape=(k, 1))
    L = sc(calls["ll"]["out"])
    ctx.prove_eq("log-likelihood", m.logl, L)
    if p.get("vm", True):
        ctx.prove_eq("variance is the inverse information", ctx.dot(m.vm, -H), ctx.eye(k))
    se = ctx.sqrt(diagvec(m.vm))
    ctx.prove_eq("standard errors", m.std_err, se)
    ctx.prove_eq("z statistics", [v for s in m.z_stat for v in s],
                 [v for i in range(k) for v in (bv[i, 0] / se[i], ctx.p2(bv[i, 0] / se[i]))])
    t = table_by_name(m)
    ctx.prove_eq("table", [v for nm in names for v in t[nm]],
                 [v for i in range(k) for v in (bv[i, 0], se[i], bv[i, 0] / se[i], ctx.p2(bv[i, 0] / se[i]))])
    ctx.prove_eq("linear predictor", m.xb, r.z, shape=(n, 1))
    ctx.prove_eq("predicted probabilities", m.predy, r.Phi, shape=(n, 1))
    ctx.prove_eq("densities", m.phiy, r.phi)
    ctx.prove_eq("naive residuals", m.u_naive, ctx.col(y) - r.Phi)
    ctx.prove_eq("generalised residuals", m.u_gen, r.gen())
    one = [1 if r.z[i, 0] > 0 else 0 for i in range(n)]          # probability above one half exactly when the predictor is positive
    ctx.prove_true("predicted classes", [int(v) for v in np.asarray(m.predybin).flat] == one, one)
    tab = dict(actpos=sum(y), actneg=n - sum(y), predpos=sum(one), predneg=n - sum(one),
               truepos=sum(1 for a, c in zip(y, one) if a and c), trueneg=sum(1 for a, c in zip(y, one) if not a and not c),
               falsepos=sum(1 for a, c in zip(y, one) if not a and c), falseneg=sum(1 for a, c in zip(y, one) if a and not c))
    ctx.prove_true("prediction table", {a: int(v) for a, v in m.predtable.items()} == tab, m.predtable)
    tpr, tnr = ctx.num(F(100 * tab["truepos"], tab["actpos"])), ctx.num(F(100 * tab["trueneg"], tab["actneg"]))
    pc = ctx.num(F(100 * (tab["truepos"] + tab["trueneg"]), n))
    ctx.prove_eq("fit", [m.fit["TPR"], m.fit["TNR"], m.fit["BA"], m.fit["PREDPC"], m.predpc], [tpr, tnr, (tpr + tnr) / 2, pc, pc], tol=1e-9)
    P = ctx.num(F(sum(y), n))
    L0 = n * (P * ctx.log(P) + (1 - P) * ctx.log(1 - P))
    LR = 2 * (L - L0)
    ctx.prove_eq("likelihood of the constant-only model", m.L0, L0, tol=1e-9)
    ctx.prove_eq("LR statistic", m.LR[0], LR, tol=1e-9)
    ctx.prove_eq("LR p-value", m.LR[1], ctx.chi2sf(LR, k - 1), known=[("probit-lr-df", ctx.chi2sf(LR, k))], tol=1e-9)
    ctx.prove_eq("McFadden", m.mcfadrho, 1 - L / L0, tol=1e-9)
    xm = sum(X[i:i + 1] for i in range(n)).T / n
    zm = sc(ctx.dot(xm.T, bv))
    ctx.prove_eq("mean regressors", m.xmean, xm)
    J0 = ctx.eye(k) - zm * ctx.dot(bv, xm.T)
    if p.get("scalem") == "xmean":
        scale = ctx.normpdf(zm)
        J = scale * J0
        alt = None
    else:
        scale = r.phi.sum() / n
        J = scale * ctx.eye(k) - ctx.dot(bv, (X * (r.phi * r.z)).sum(axis=0).reshape(1, -1)) / n
        alt = scale * scale * ctx.dot(J0, m.vm, J0.T)[1:, 1:]
    V = ctx.dot(J, m.vm, J.T)[1:, 1:]
    ctx.prove_eq("average density", m.scale, scale)
    ctx.prove_eq("marginal effects", m.slopes, bv[1:] * scale, shape=(k - 1, 1))
    ctx.prove_eq("variance of the marginal effects", m.slopes_vm, V, known=[("probit-ape-variance", alt)] if alt is not None else [])
    sse = ctx.sqrt(diagvec(m.slopes_vm))
    ctx.prove_eq("standard errors of the marginal effects", m.slopes_std_err, sse, shape=(k - 1, 1))
    ctx.prove_eq("z statistics of the marginal effects", [v for s in m.slopes_z_stat for v in s],
                 [v for i in range(k - 1) for v in (bv[i + 1, 0] * scale / sse[i], ctx.p2(bv[i + 1, 0] * scale / sse[i]))])
    if p.get("diag"):
        tests(ctx, r, Wd, m.Pinkse_error, m.KP_error, m.PS_error)
    elif not sl:
        ctx.prove_true("no spatial tests unless asked", not hasattr(m, "Pinkse_error"))


def tests(ctx, r, Wd, pinkse, kp, ps):
    d, n = ctx.dot, r.n
    u, g = ctx.col(r.y) - r.Phi, r.gen()
    s2 = (r.phi * r.phi / r.var).sum() / n
    tr1, tr2 = trace(d(Wd, Wd)), trace(d(Wd.T, Wd))
    lm = sc(d(g.T, Wd, g)) ** 2 / (s2 * s2 * (tr1 + tr2))
    ctx.prove_eq("Pinkse LM error", list(pinkse), [lm, ctx.chi2sf(lm, 1)])
    E = r.var * ctx.eye(n)
    mo = sc(d(u.T, Wd, u)) / ctx.sqrt(trace(d(Wd, E, Wd, E) + d(Wd.T, E, Wd, E)))
    ctx.prove_eq("Kelejian-Prucha Moran", list(kp), [mo, ctx.p2(mo)])
    us = u / ctx.sqrt(r.var)
    v = sc(d(us.T, Wd, us)) ** 2 / (tr1 + tr2)
    ctx.prove_eq("Pinkse-Slade", list(ps), [v, ctx.chi2sf(v, 1)])


def standalone(ctx, spreg):
    """the tests computed from fitted values and residuals alone"""
    from spreg.diagnostics_probit import sp_tests, moran_KP
    p = ctx.p
    n, y, x, X, b, bv = setup(ctx)
    r = Ref(ctx, y, X, bv)
    w = ctx.W(D6, transform=p.get("tr", "r"))
    Wd = ctx.dense(w)
    with contextlib.redirect_stdout(io.StringIO()):
        t = sp_tests(obj_list=[w, r.z, ctx.col(y) - r.Phi, r.gen()])
    tests(ctx, r, Wd, *t)
    # the heteroskedastic Moran statistic for any residuals and variances
    u = ctx.freevec("u", [F(1, 2), F(-1, 3), F(2, 3), F(1, 5), F(-3, 4), F(1, 7)])
    s = [ctx.var("s%d" % i, F(i + 2, 7), F(1, 10), 5) for i in range(n)]
    sv = ctx.colvec(s)
    E = sv * ctx.eye(n)
    d = ctx.dot
    mo = sc(d(u.T, Wd, u)) / ctx.sqrt(trace(d(Wd, E, Wd, E) + d(Wd.T, E, Wd, E)))
    for ww in (w, w.sparse):
        ctx.prove_eq("Kelejian-Prucha Moran", list(moran_KP(ww, u, sv)), [mo, ctx.p2(mo)])


def steps(ctx, spreg):
    """Newton's method: one step on the probit likelihood, and exact convergence on a quadratic"""
    from spreg.probit import newton, BaseProbit
    p = ctx.p
    d = ctx.dot
    if p["kind"] == "probit":
        n, y, x, X, b, bv = setup(ctx)
        r = Ref(ctx, y, X, bv)
        m = BaseProbit(ctx.col(y), X, bstart=b, maxiter=0)
        val = lambda v: d(ctx.A([[3, 5]]), v)
        got, f, warn = newton(val, bv, m.gradient, m.hessian, 1)
        step = d(ctx.inv(-r.hessian()), r.score())
        ctx.prove_eq("Newton step", got, bv + step, shape=bv.shape)
        ctx.prove_eq("objective at the last point", f, val(bv + step))
        ctx.prove_true("running out of iterations is reported", bool(warn))
        return
    start = ctx.colvec([ctx.var("a", F(1, 3)), ctx.var("b", F(-2, 5))])
    h = ctx.var("h", F(1, 2), -1, 1)
    A = ctx.zeros((2, 2))
    A[0, 0], A[1, 1], A[0, 1], A[1, 0] = ctx.num(3), ctx.num(2), h, h
    c = ctx.colvec([ctx.num(1), ctx.num(-2)])
    f = lambda v: -(d(c.T, v) - d(v.T, A, v) / 2)
    grad = lambda v: (c - d(A, v))
    top = d(ctx.inv(A), c)
    for it in (2, 5):
        got, val, warn = newton(f, start, grad, lambda v: -A, it)
        ctx.prove_eq("maximum of a quadratic found", got, top, shape=(2, 1))
        ctx.prove_eq("value there", val, f(top))
        if it == 5:
            ctx.prove_true("convergence is not reported as a failure", not warn)
    got, val, warn = newton(f, start, grad, lambda v: -A, 0)
    ctx.prove_eq("no iterations leave the start", got, start)
    ctx.prove_true("running out of iterations is reported", bool(warn))


def refuse(ctx, spreg):
    n, y, x, X, b, bv = setup(ctx)
    for bad in (b[:-1], b + [ctx.num(1)]):
        ctx.raises("starting values of the wrong length", lambda: spreg.Probit(ctx.col(y), x, bstart=bad, maxiter=0))


def shown(ctx, spreg):
    """the prediction table is printed when asked for, and only then"""
    ctx.cut("probit")
    ctx.opaque()
    n, y, x, X, b, bv = setup(ctx)
    for flag in (True, False):
        m = spreg.Probit(ctx.col(y), x, bstart=b, maxiter=0, predflag=flag)
        ctx.prove_true("prediction table printed on request", ("CONFUSION MATRIX" in m.summary) == flag)


Y4, Y5, Y6 = [1, 0, 1, 0], [0, 1, 1, 0, 1], [1, 0, 0, 1, 1, 0]
for i in range(1, 15):
    add_case("P26", "objective_y%d" % i, objective, n=4, y=[(i >> j) & 1 for j in range(4)])
add_case("P26", "objective_k3", objective, n=5, k=3, y=Y5)
add_case("P26", "objective_xline", objective, n=4, k=2, y=Y4, xsym=True)
for tr in ("r", "o"):
    add_case("P26", "report_%s" % tr, report, n=5, y=Y5, tr=tr, diag=True)
add_case("P26", "report_n6", report, n=6, y=Y6, diag=True)
add_case("P26", "report_xmean", report, n=5, y=Y5, scalem="xmean", diag=True)
add_case("P26", "report_plain", report, n=4, y=Y4)
add_case("P26", "report_k3", report, n=5, k=3, y=Y5, vm=False)
add_case("P26", "bfgs", report, n=5, y=Y5, optim="bfgs", diag=True)
add_case("P26", "ncg", report, n=5, y=Y5, optim="ncg", scalem="xmean")
add_case("P26", "slx1", report, n=5, y=Y5, slx=1, diag=True)
add_case("P26", "slx_mask", report, n=6, k=3, y=Y6, slx=1, mask=[False, True], vm=False, symlag=False)
add_case("P26", "slx2", report, n=6, y=Y6, slx=2, vm=False)
add_case("P26", "standalone", standalone, n=6, y=Y6)
add_case("P26", "standalone_o", standalone, n=6, y=Y6, tr="o")
add_case("P26", "newton_probit", steps, kind="probit", n=4, y=Y4)
add_case("P26", "newton_quadratic", steps, kind="quad", n=4, y=Y4)
add_case("P26", "refuse", refuse, n=4, y=Y4)
add_case("P26", "predflag", shown, n=4, y=Y4)
