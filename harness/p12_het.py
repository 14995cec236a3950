"""Heteroskedastic GM error family: n = 6..8; lambda (every optimiser call) symbolic in (-0.99,0.99) (closed box for the bound
checks); moments with y on a symbolic line; step 1c, both inverses, one and two iterations; asymmetric weights, one symbolic entry."""
from symx.ctx import add_case
from common import *
import momcases
from gmref import *
from p10_kp98 import setup, fit, first

momcases.register("P12")
CLAMP = "het-endog-clamp"


def clamp(b, lim):
    """the coefficient vector with its last entry kept within +-lim; the branch is the one the code takes"""
    o = b.copy()
    if not abs(b[-1, 0]) <= lim:
        o[-1, 0] = -lim if b[-1, 0] < -lim else lim
    return o


def case(ctx, spreg):
    p = ctx.p
    ctx.cut("optim_moments")
    ctx.opaque()
    n, w, Wd, y, x, ye, q = setup(ctx)
    if p.get("small"):          # coefficients inside the clamping range
        y = y / ctx.num(10)
    est, it = p["est"], p.get("it", 1)
    kw = dict(slx_lags=p["slx"]) if p.get("slx") else {}
    for k in ("w_lags", "lag_q", "step1c", "inv_method"):
        if k in p:
            kw[k] = p[k]
    if it > 1:
        kw["max_iter"] = it
    go = lambda: fit(ctx, spreg, est, "_Het", y, x, w, ye, q, **kw)
    m = ctx.until_moments(1, go) if p.get("only") == "first" else go()
    X, Z, H, u0 = first(ctx, est, y, x, Wd, ye, q, p)
    d = ctx.dot
    k = Z.shape[1]
    lim = ctx.num(F(9, 10))
    A = A_hom(ctx, Wd, "het")[0], Wd
    G0, g0 = moments2(ctx, Wd, A[0], A[1], u0)
    known = []
    if est != "error":
        b0 = clamp(TSLSRef(ctx, y, Z, H).b, lim)
        uc = y - d(Z, b0)
        G1, g1 = moments2(ctx, Wd, A[0], A[1], uc)
        if est == "combo":
            u0, G0, g0 = uc, G1, g1
        else:
            known = [(CLAMP, (G1, g1))]
    mom(ctx, 0, G0, g0, None, "first step moments", known)
    if est == "endo":
        u0, G0, g0 = uc, G1, g1
    if p.get("only") == "first":
        return
    calls = 1
    lam = [c["x"][0] for c in ctx.opt.calls]
    l = lam[0]
    if p.get("step1c"):
        B = ctx.eye(n) - l * Wd
        e = d(B, u0)
        a = None
        if est != "error":
            zs = d(B, Z)
            P = P_mat(ctx, H, Z)
            a = [d(ctx.inv(B).T, v) for v in avecs(ctx, A, e, zs, H, P)]
        mom(ctx, 1, G0, g0, psi_het(ctx, A, e, a), "step 1c moments")
        calls = 2
        l = lam[1]
    done = m.iteration
    ctx.prove_true("iterations", 1 <= done <= it and len(lam) == done + calls, (done, len(lam)))
    seq = [l] + lam[calls:]
    eps = F(1, 100000)
    for i in range(1, done + 1):
        gap = ctx.abs(seq[i] - seq[i - 1])
        if i < done:
            ctx.prove_ge("iterates while lambda still moves", gap, ctx.num(eps))
        elif done < it:
            ctx.prove_ge("stops when lambda has settled", ctx.num(eps), gap)
    for i in range(done):
        B = ctx.eye(n) - seq[i] * Wd
        zs = d(B, Z)
        if est == "error":
            b = bfree = OLSRef(ctx, d(B, y), zs).b
        else:
            bfree = TSLSRef(ctx, d(B, y), zs, H).b
            b = clamp(bfree, lim)
        u = y - d(Z, b)
        us = d(B, u)
        a = None if est == "error" else avecs(ctx, A, us, zs, H, P_mat(ctx, H, zs))
        G, g = moments2(ctx, Wd, A[0], A[1], u)
        mom(ctx, i + calls, G, g, psi_het(ctx, A, us, a), "step %d moments" % (i + 2))
    lf = seq[done]
    full = lambda b: np.vstack([b, ctx.colvec([lf])])
    if est == "endo":
        ctx.prove_eq("coefficients and lambda", m.betas, full(bfree), shape=(k + 1, 1), known=[(CLAMP, full(b))])
    else:
        ctx.prove_eq("coefficients and lambda", m.betas, full(b), shape=(k + 1, 1))
    ctx.prove_eq("residuals and fitted values", [m.u, m.predy], [u, y - u])
    B = ctx.eye(n) - lf * Wd
    us, zs = d(B, u), d(B, Z)
    ctx.prove_eq("filtered residuals", m.e_filtered, us)
    N = ctx.num(n)
    J = d(G, ctx.colvec([ctx.num(1), 2 * lf]))
    E = ctx.diag([v * v for v in us.reshape(-1)])
    if est == "error":
        psi = psi_het(ctx, A, us)
        xi = ctx.inv(d(zs.T, zs))
        DD, LL = d(xi, zs.T, E, zs, xi), ctx.inv(d(J.T, ctx.inv(psi), J)) / N
        DL = ctx.zeros((k, 1))
    else:
        P = P_mat(ctx, H, zs)
        a = avecs(ctx, A, us, zs, H, P)
        pi = ctx.inv(psi_het(ctx, A, us, a))
        L = ctx.inv(d(J.T, pi, J))
        DD = d(P.T, H.T, E, H, P) / N / N
        DL = d(P.T, H.T, E, np.hstack(a), pi, J, L) / N / N
        LL = L / N
    V = np.vstack([np.hstack([DD, DL]), np.hstack([DL.T, LL])])
    ctx.prove_eq("joint variance", m.vm, V, shape=(k + 1, k + 1))
    se = [ctx.sqrt(v) for v in diagvec(V)]
    z = [m.betas[i, 0] / se[i] for i in range(k + 1)]
    ctx.prove_eq("standard errors", m.std_err, se)
    ctx.prove_eq("z statistics", m.z_stat, pairs([(v, ctx.p2(v)) for v in z]))
    ctx.prove_eq("table", [list(m.output["coefficients"]), list(m.output["std_err"]), list(m.output["zt_stat"])], [m.betas, se, z])
    if p.get("pr2", True):
        ctx.prove_eq("pseudo R2", m.pr2, corr2(y, y - u))
    if est == "combo":
        rho = b[-1, 0]
        ctx.prove_eq("rho", m.rho, rho)
        ctx.prove_eq("reduced form prediction", d(ctx.eye(n) - rho * Wd, m.predy_e), y - u - rho * d(Wd, y))
        if p.get("pr2", True):
            ctx.prove_eq("spatial pseudo R2", m.pr2_e, corr2(y, m.predy_e))


def mom(ctx, i, G, g, vc, label, known=()):
    if known and len(ctx.moment_calls) > i:
        kid, (G1, g1) = known[0]
        c = ctx.moment_calls[i]
        got, exp, alt = flat(c["G"], c["g"]), flat(G, g), flat(G1, g1)
        # zero cross products against the documented moments, or exactly those of the clamped residuals
        ctx.prove_eq(label, got, exp, known=[(kid, alt)])
        return
    if known:
        G, g = known[0][1]
    moments(ctx, i, G, g, vc, label=label)


for s1 in (False, True):
    t = "_1c" if s1 else ""
    add_case("P12", "error" + t, case, est="error", ycon=True, step1c=s1)
    add_case("P12", "endog" + t, case, est="endo", endo=True, ycon=True, step1c=s1)
    add_case("P12", "endog_small" + t, case, est="endo", endo=True, ycon=True, step1c=s1, small=True)
    add_case("P12", "combo" + t, case, est="combo", ycon=True, step1c=s1)
add_case("P12", "endog_1c_true_inv", case, est="endo", endo=True, ycon=True, step1c=True, small=True, inv_method="true_inv")
add_case("P12", "error_first", case, est="error", only="first", kx=2)
add_case("P12", "endog_first", case, est="endo", endo=True, only="first")
add_case("P12", "combo_first", case, est="combo", only="first", ycon=True)
add_case("P12", "weights_first", case, est="error", ycon=True, wsym=True, only="first")
add_case("P12", "error_line", case, est="error")
add_case("P12", "error_contig_kx2", case, est="error", ycon=True, w="contig", n=8, kx=2)
add_case("P12", "error_iterated", case, est="error", ycon=True, it=2)
add_case("P12", "endog_iterated", case, est="endo", endo=True, ycon=True, it=2, small=True)
add_case("P12", "combo_iterated", case, est="combo", ycon=True, it=2)
add_case("P12", "error_slx", case, est="error", ycon=True, slx=1, n=8)
add_case("P12", "combo_endo", case, est="combo", ycon=True, endo=True, n=8)
add_case("P12", "combo_endo_nolagq", case, est="combo", ycon=True, endo=True, n=8, lag_q=False)
add_case("P12", "combo_wlags2", case, est="combo", ycon=True, n=8, w_lags=2)


def edge(ctx, spreg):
    """boundary solutions: refused under hard_bound, flagged otherwise"""
    p = ctx.p
    ctx.cut("optim_moments")
    ctx.opaque()
    ctx.closed_box()
    n, w, Wd, y, x, ye, q = setup(ctx)
    y = y / ctx.num(10)
    msg, m = None, None
    try:
        m = fit(ctx, spreg, p["est"], "_Het", y, x, w, ye, q, hard_bound=p["hb"])
    except Exception as e:
        msg = str(e)
    lam = ctx.opt.calls[-1]["x"][0]
    on = bool(abs(lam) >= ctx.num(F(99, 100)))
    if p["hb"]:
        ctx.prove_true("refused exactly on the boundary", on == (msg is not None), (on, msg))
        ctx.prove_true("refused because of the bounds", msg is None or "outside the bounds" in msg, msg)
    else:
        ctx.prove_true("not refused", msg is None, msg)
        ctx.prove_true("flagged exactly on the boundary", on == ("outside the bounds" in getattr(m, "warning", "")), getattr(m, "warning", ""))


for e in ("error", "endo", "combo"):
    for hb in (True, False):
        add_case("P12", "edge_%s_%s" % (e, "hard" if hb else "soft"), edge, est=e, endo=e == "endo", ycon=True, hb=hb)
