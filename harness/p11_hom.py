"""Homoskedastic GM error family: n = 6..8; lambda (every optimiser call) symbolic in (-0.99,0.99); moments with y on a symbolic line;
all A1 options; asymmetric weights, one symbolic weight entry; one and two iterations."""
from symx.ctx import add_case
from common import *
import momcases
from gmref import *
from p10_kp98 import setup, fit, first

momcases.register("P11")


def case(ctx, spreg):
    p = ctx.p
    ctx.cut("optim_moments")
    ctx.opaque()
    n, w, Wd, y, x, ye, q = setup(ctx)
    est, A1n, it = p["est"], p.get("A1", "hom_sc"), p.get("it", 1)
    kw = dict(slx_lags=p["slx"]) if p.get("slx") else {}
    for k in ("w_lags", "lag_q"):
        if k in p:
            kw[k] = p[k]
    if p.get("hb"):
        kw["hard_bound"] = True
    if "A1" in p:
        kw["A1"] = A1n
    if it > 1:
        kw["max_iter"] = it
    go = lambda: fit(ctx, spreg, est, "_Hom", y, x, w, ye, q, **kw)
    m = ctx.until_moments(1, go) if p.get("only") == "first" else go()
    X, Z, H, u0 = first(ctx, est, y, x, Wd, ye, q, p)
    A = A_hom(ctx, Wd, A1n)
    G0, g0 = moments2(ctx, Wd, A[0], A[1], u0)
    moments(ctx, 0, G0, g0, label="first step moments", hard_bound=bool(p.get("hb")))
    if p.get("only") == "first":
        return
    d = ctx.dot
    k = Z.shape[1]
    done = m.iteration
    ctx.prove_true("iterations", 1 <= done <= it and len(ctx.moment_calls) in (0, done + 1), (done, len(ctx.moment_calls)))
    lam = [c["x"][0] for c in ctx.opt.calls[:done + 1]]
    eps = F(1, 100000)
    for i in range(1, done + 1):
        gap = ctx.abs(lam[i] - lam[i - 1])
        if i < done:
            ctx.prove_ge("iterates while lambda still moves", gap, ctx.num(eps))
        elif done < it:
            ctx.prove_ge("stops when lambda has settled", ctx.num(eps), gap)
    for i in range(done):
        B = ctx.eye(n) - lam[i] * Wd
        zs = d(B, Z)
        r = OLSRef(ctx, d(B, y), zs) if est == "error" else TSLSRef(ctx, d(B, y), zs, H)
        u = y - d(Z, r.b)
        us = d(B, u)
        a = None if est == "error" else avecs(ctx, A, us, zs, H, P_mat(ctx, H, zs))
        G, g = moments2(ctx, Wd, A[0], A[1], u)
        moments(ctx, i + 1, G, g, psi_hom(ctx, A, us, a), label="step %d moments" % (i + 2), hard_bound=bool(p.get("hb")))
    lf = lam[done]
    ctx.prove_eq("coefficients and lambda", m.betas, np.vstack([r.b, ctx.colvec([lf])]), shape=(k + 1, 1))
    ctx.prove_eq("residuals and fitted values", [m.u, m.predy], [u, y - u])
    B = ctx.eye(n) - lf * Wd
    us = d(B, u)
    zs = d(B, Z)
    ctx.prove_eq("filtered residuals", m.e_filtered, us)
    s2 = (us * us).sum() / ctx.num(n)
    ctx.prove_eq("error variance", m.sig2, s2)
    if est == "error":
        P = ctx.inv(d(zs.T, zs) / ctx.num(n))
        V = omega_hom(ctx, A, us, psi_hom(ctx, A, us), G, lf, X, P, s2 * ctx.inv(d(zs.T, zs)))
    else:
        P = P_mat(ctx, H, zs)
        a = avecs(ctx, A, us, zs, H, P)
        t = TSLSRef(ctx, d(B, y), zs, H)
        V = omega_hom(ctx, A, us, psi_hom(ctx, A, us, a), G, lf, H, P, s2 * t.varb, a)
    ctx.prove_eq("joint variance", m.vm, V, shape=(k + 1, k + 1))
    se = [ctx.sqrt(v) for v in diagvec(V)]
    z = [m.betas[i, 0] / se[i] for i in range(k + 1)]
    ctx.prove_eq("standard errors", m.std_err, se)
    ctx.prove_eq("z statistics", m.z_stat, pairs([(v, ctx.p2(v)) for v in z]))
    ctx.prove_eq("table", [list(m.output["coefficients"]), list(m.output["std_err"]), list(m.output["zt_stat"])], [m.betas, se, z])
    ctx.prove_eq("pseudo R2", m.pr2, corr2(y, y - u))
    if est == "combo":
        rho = r.b[-1, 0]
        ctx.prove_eq("rho", m.rho, rho)
        if abs(rho) < 1:
            ctx.prove_eq("reduced form prediction", d(ctx.eye(n) - rho * Wd, m.predy_e), y - u - rho * d(Wd, y))
            ctx.prove_eq("spatial pseudo R2", m.pr2_e, corr2(y, m.predy_e))


for a1 in ("hom", "hom_sc", "het"):
    add_case("P11", "error_first_" + a1, case, est="error", A1=a1, only="first")
    add_case("P11", "endog_first_" + a1, case, est="endo", endo=True, A1=a1, only="first")
    add_case("P11", "combo_first_" + a1, case, est="combo", A1=a1, only="first", ycon=True)
    add_case("P11", "error_" + a1, case, est="error", A1=a1, ycon=True)
    add_case("P11", "endog_" + a1, case, est="endo", endo=True, A1=a1, ycon=True)
    add_case("P11", "combo_" + a1, case, est="combo", A1=a1, ycon=True)
add_case("P11", "error_default", case, est="error", ycon=True, w="contig")
add_case("P11", "error_line", case, est="error", A1="hom_sc", only=None)
add_case("P11", "error_iterated", case, est="error", ycon=True, it=2)
add_case("P11", "endog_iterated", case, est="endo", endo=True, ycon=True, it=2)
add_case("P11", "combo_iterated", case, est="combo", ycon=True, it=2)
add_case("P11", "error_hard", case, est="error", ycon=True, hb=True)
add_case("P11", "endog_hard", case, est="endo", endo=True, ycon=True, hb=True)
add_case("P11", "combo_hard", case, est="combo", ycon=True, hb=True)
add_case("P11", "endog_weights_first", case, est="endo", endo=True, ycon=True, wsym=True, only="first")
add_case("P11", "weights_first", case, est="error", ycon=True, wsym=True, only="first")
add_case("P11", "error_kx2_slx", case, est="error", ycon=True, slx=1, n=8, kx=2)
add_case("P11", "combo_endo", case, est="combo", ycon=True, endo=True, n=8)
add_case("P11", "combo_endo_nolagq", case, est="combo", ycon=True, endo=True, n=8, lag_q=False)
add_case("P11", "combo_wlags2", case, est="combo", ycon=True, n=8, w_lags=2)
