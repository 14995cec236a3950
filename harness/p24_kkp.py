"""panel GM estimators: 3..5 units, 2..4 periods, response on a symbolic line, one or two fixed regressors (with lags), asymmetric
weights; every solution (lambda, sigma2_v, sigma2_1) of the two moment minimisations in its box; identity and full weighting; two
regimes; pooled GM with one or two rounds of reweighting and arbitrary lambdas."""
from symx.ctx import add_case
from common import *
from p22_panel import *
from p23_panelml import data, stackW, tail
from gmref import A_hom, moments2, psi_het
import momcases

momcases.register_panel("P24")


def kkp_moments(ctx, Wd, u, N, T, i):
    """Kapoor, Kelejian and Prucha (2007): the three equations with Q0 or Q1, unknowns (lambda, lambda^2, sigma2)"""
    q = (lambda a: a - per(ctx, a, N, T)) if i == 0 else (lambda a: per(ctx, a, N, T))
    s = lambda a, b: (a * q(b)).sum()
    ub = stackW(ctx, Wd, u, T)
    ubb = stackW(ctx, Wd, ub, T)
    m = ctx.num(N * (T - 1 if i == 0 else 1))
    tr = (Wd * Wd).sum()
    G = ctx.A([[2 * s(u, ub) / m, -s(ub, ub) / m, ctx.num(1)],
               [2 * s(ubb, ub) / m, -s(ubb, ubb) / m, tr / ctx.num(N)],
               [(s(u, ubb) + s(ub, ub)) / m, -s(ub, ubb) / m, ctx.num(0)]])
    g = ctx.colvec([s(u, u) / m, s(ub, ub) / m, s(u, ub) / m])
    return G, g


def per(ctx, a, N, T):
    return np.vstack([per_unit(ctx, a, N, T)] * T)


def tau(ctx, Wd, now=False):
    d = ctx.dot
    N = ctx.num(Wd.shape[0])
    WW = d(Wd.T, Wd)
    t12 = 2 * trace(WW) / N
    t22 = 2 * trace(d(WW, WW)) / N
    t23 = trace(d(WW, Wd.T + Wd)) / N
    t33 = trace(d(Wd, Wd) + WW) / N
    if now:
        t12, t22 = t12 / N, t22 / 2
    z = ctx.num(0)
    return ctx.A([[ctx.num(2), t12, z], [t12, t22, t23], [z, t23, t33]])


def weighting(ctx, label, got, exp, now):
    """proportional matrices"""
    e = [a * exp[0] for a in got]
    k = [] if now is None else [("kkp-tau", [(a * now[0] - b * got[0]) + b * got[0] for a, b in zip(got, now)])]
    ctx.prove_eq(label, [a * exp[0] for a in got], [b * got[0] for b in exp],
                 known=[] if now is None else [("kkp-tau", [b * (got[0] * exp[0] / now[0]) for b in now])])


def kkp(ctx, spreg):
    p = ctx.p
    ctx.cut("optim_moments")
    ctx.opaque()
    N, T, y, X, w, Wd, gy, gx, kw, ny, names = data(ctx, dict(p, line=p.get("line", True)))
    old = p.get("old")
    n, d = N * T, ctx.dot
    Z = const(ctx, X)
    reg = p.get("regimes")
    if p.get("full"):
        kw["full_weights"] = True
    if reg:
        ids = [c for c in reg]
        kw["regimes"] = ids if p.get("short", True) else ids * T
        labs = sorted(set(reg))
        Z = np.hstack([Z * ctx.colvec([1 if c == l else 0 for c in reg * T]) for l in labs])
        names = ["%s_%s" % (l, v) for l in labs for v in ["CONSTANT"] + names]
    else:
        names = ["CONSTANT"] + names
    k = Z.shape[1]
    go = lambda: (spreg.sp_panels.GM_KKP if old else spreg.GM_ErrorRE)(gy, gx, w, **kw)
    m = ctx.until_moments(2, go) if p.get("only") == "moments" else go()
    u = OLSRef(ctx, y, Z).e
    G0, g0 = kkp_moments(ctx, Wd, u, N, T, 0)
    G1, g1 = kkp_moments(ctx, Wd, u, N, T, 1)
    moments(ctx, 0, G0, g0, None, label="first moments")
    l1, v1 = list(ctx.opt.calls[0]["x"])
    ul = u - l1 * stackW(ctx, Wd, u, T)
    s1 = (ul * per(ctx, ul, N, T)).sum() / ctx.num(N)
    z = ctx.zeros((3, 1))
    G = np.vstack([np.hstack([G0, z]), np.hstack([G1[:, :2], z, G1[:, 2:]])])
    c = ctx.moment_calls[1]
    proportional(ctx, "second moments", flat(c["G"], c["g"]), flat(G, np.vstack([g0, g1])), None, positive=False)
    ctx.prove_true("weighted", c["vc"] is not None and not c["hard_bound"])
    zz = ctx.zeros((3, 3))
    xi = lambda t: flat(np.vstack([np.hstack([t * (v1 * v1 / ctx.num(T - 1)), zz]), np.hstack([zz, t * (s1 * s1)])]))
    if p.get("full"):
        weighting(ctx, "weighting matrix", flat(c["vc"]), xi(tau(ctx, Wd)), xi(tau(ctx, Wd, True)))
    else:
        weighting(ctx, "weighting matrix", flat(c["vc"]), xi(ctx.eye(3)), None)
    if p.get("only"):
        return
    lam, sv, s1 = list(ctx.opt.calls[1]["x"])
    th = 1 - ctx.sqrt(sv) / ctx.sqrt(s1)
    f = lambda a: centred(ctx, a - lam * stackW(ctx, Wd, a, T), N, T, th)
    o = OLSRef(ctx, f(y), f(Z))
    fit = d(Z, o.b)
    full = np.vstack([o.b, ctx.colvec([lam, sv, s1])])
    ctx.prove_eq("coefficients", m.betas, full, shape=(k + 3, 1))
    ctx.prove_eq("fitted values", m.predy, fit, shape=(n, 1))
    ctx.prove_eq("residuals", m.u, y - fit, shape=(n, 1))
    ctx.prove_eq("spatially filtered residuals", m.e_filtered, (y - fit) - lam * stackW(ctx, Wd, y - fit, T), shape=(n, 1))
    V = o.xtxi * o.s2nk
    ctx.prove_eq("variance", m.vm, V, shape=(k, k))
    ctx.prove_true("periods", m.t == T, m.t)
    ctx.prove_true("name of y", m.name_y == ny, m.name_y)
    ctx.prove_true("names", [v.strip() for v in m.name_x] == names + ["lambda", "sigma2_v", "sigma2_1"], m.name_x)
    se = [ctx.sqrt(V[i, i]) for i in range(k)]
    zs = [o.b[i, 0] / se[i] for i in range(k)]
    ctx.prove_eq("standard errors", list(m.std_err)[:k], se)
    ctx.prove_eq("z statistics", pairs(list(m.z_stat)[:k]), pairs([(v, ctx.p2(v)) for v in zs]))
    if not old:
        ctx.prove_true("names of the table", [v.strip() for v in m.output["var_names"]] == names + ["lambda", "sigma2_v", "sigma2_1"], list(m.output["var_names"]))
        ctx.prove_eq("table of coefficients", list(m.output["coefficients"]), flat(full))
        ctx.prove_eq("table of standard errors", list(m.output["std_err"])[:k], se)
        ctx.prove_eq("table of statistics", list(m.output["zt_stat"])[:k], zs)
    if reg:
        base = [v.split("_", 1)[1] for v in names[:k // len(labs)]]
        (j, jp), each = chow_ref(ctx, names, o.b, V, base, labs)
        ctx.prove_eq("joint chow test", m.chow.joint, [j, jp])
        ctx.prove_eq("chow tests", [list(a) for a in m.chow.regi], [list(a) for a in each])


def pooled_gm(ctx, spreg):
    p = ctx.p
    ctx.cut("optim_moments")
    ctx.opaque()
    it = p.get("it", 1)
    N, T, y, X, w, Wd, gy, gx, kw, ny, names = data(ctx, dict(p, line=p.get("line", False)))
    n, d = N * T, ctx.dot
    Z = const(ctx, X)
    k = Z.shape[1]
    if it > 1:
        kw["max_iter"] = it
    if p.get("step1c"):
        kw["step1c"] = True
    go = lambda: spreg.GM_ErrorPooled(gy, gx, w, nonspat_diag=False, **kw)
    m = ctx.until_moments(1, go) if p.get("only") == "first" else go()
    WW = ctx.zeros((n, n))
    for t in range(T):
        WW[t * N:(t + 1) * N, t * N:(t + 1) * N] = Wd
    As = A_hom(ctx, WW, "het")
    u0 = OLSRef(ctx, y, Z).e
    G0, g0 = moments2(ctx, WW, As[0], As[1], u0)
    moments(ctx, 0, G0, g0, None, label="first step moments")
    if p.get("only") == "first":
        return
    lam = [c["x"][0] for c in ctx.opt.calls]
    l, calls = lam[0], 1
    if p.get("step1c"):
        moments(ctx, 1, G0, g0, psi_het(ctx, As, u0 - l * d(WW, u0)), label="step 1c moments")
        l, calls = lam[1], 2
    done = m.iteration
    ctx.prove_true("iterations", 1 <= done <= it and len(lam) == done + calls, (done, len(lam)))
    seq = [l] + lam[calls:]
    for i in range(1, done + 1):
        gap = ctx.abs(seq[i] - seq[i - 1])
        if i < done:
            ctx.prove_ge("iterates while lambda still moves", gap, ctx.num(F(1, 100000)))
        elif done < it:
            ctx.prove_ge("stops when lambda has settled", ctx.num(F(1, 100000)), gap)
    for i in range(done):
        B = ctx.eye(n) - seq[i] * WW
        b = OLSRef(ctx, d(B, y), d(B, Z)).b
        u = y - d(Z, b)
        G, g = moments2(ctx, WW, As[0], As[1], u)
        moments(ctx, i + calls, G, g, psi_het(ctx, As, d(B, u)), label="step %d moments" % (i + 2))
    lf = seq[done]
    ctx.prove_eq("coefficients", m.betas, np.vstack([b, ctx.colvec([lf])]), shape=(k + 1, 1))
    ctx.prove_eq("residuals and fitted values", [m.u, m.predy], [u, y - u])
    B = ctx.eye(n) - lf * WW
    us, zs = d(B, u), d(B, Z)
    ctx.prove_eq("filtered residuals", m.e_filtered, us)
    J = d(G, ctx.colvec([ctx.num(1), 2 * lf]))
    E = ctx.diag([v * v for v in us.reshape(-1)])
    x2 = ctx.inv(d(zs.T, zs))
    LL = ctx.inv(d(J.T, ctx.inv(psi_het(ctx, As, us)), J)) / ctx.num(n)
    z = ctx.zeros((k, 1))
    V = np.vstack([np.hstack([d(x2, zs.T, E, zs, x2), z]), np.hstack([z.T, LL])])
    ctx.prove_eq("variance", m.vm, V, shape=(k + 1, k + 1))
    ctx.prove_true("sizes", (m.n, m.t) == (n, T), (m.n, m.t))
    table(ctx, m, ["CONSTANT"] + names + ["lambda"], m.betas, m.vm)


def pooled_ml(ctx, spreg):
    p = ctx.p
    ctx.opaque()
    N, T, y, X, w, Wd, gy, gx, kw, ny, names = data(ctx, dict(p, line=p.get("line", True)))
    n, d = N * T, ctx.dot
    Z = const(ctx, X)
    k = Z.shape[1]
    m = spreg.ML_ErrorPooled(gy, gx, w, nonspat_diag=False, **kw)
    c = ctx.opt.calls[0]
    lam = sc(c["x"])

    def gls(l):
        f = lambda a: a - l * stackW(ctx, Wd, a, T)
        return OLSRef(ctx, f(y), f(Z))

    def ref(l):
        B = ctx.eye(N) - l * Wd
        return -ctx.num(F(n, 2)) * ctx.log(gls(l).s2n) + T * ctx.log(ctx.abs(ctx.det(B)))
    b = [float(v) for v in np.asarray(c["bounds"], dtype=object).reshape(-1)[:2]]
    ctx.prove_true("search box", -1 <= b[0] <= -0.9 and 0.9 <= b[1] <= 1, b)
    ff = lambda v: sc(c["fun"]([v]))
    ctx.prove_eq("objective", ff(lam) - ff(ctx.num(F(1, 4))), -(ref(lam) - ref(ctx.num(F(1, 4)))))
    o = gls(lam)
    full = np.vstack([o.b, ctx.colvec([lam])])
    u = y - d(Z, o.b)
    ctx.prove_eq("coefficients", m.betas, full, shape=(k + 1, 1))
    ctx.prove_eq("residuals and fitted values", [m.u, m.predy], [u, y - u])
    ctx.prove_eq("filtered residuals", m.e_filtered, o.e)
    ctx.prove_eq("sigma2", m.sig2, o.s2n)
    ll = ref(lam) - ctx.num(F(n, 2)) * (ctx.log(2 * ctx.pi) + 1)
    ctx.prove_eq("likelihood", m.logll, ll)
    ctx.prove_eq("information criteria", [m.aic, m.schwarz], [2 * ctx.num(k) - 2 * ll, k * ctx.log(ctx.num(n)) - 2 * ll])
    ctx.prove_eq("variance of the slopes", m.vm[:k, :k], o.xtxi * o.s2n, shape=(k, k))
    G = d(Wd, ctx.inv(ctx.eye(N) - lam * Wd))
    t1, t2 = T * trace(G), T * (trace(d(G, G)) + trace(d(G.T, G)))
    s2 = o.s2n
    I = ctx.A([[t2, t1 / s2], [t1 / s2, n / (2 * s2 * s2)]])
    ctx.prove_eq("variance of lambda and sigma2", d(m.vm1, I) if m.vm1.shape == (2, 2) else d(m.vm1[k:, k:], I), ctx.eye(2), shape=(2, 2))
    ctx.prove_eq("variance of lambda", m.vm[k, k] * (t2 - 2 * t1 * t1 / n), ctx.num(1))
    table(ctx, m, ["CONSTANT"] + names + ["lambda"], m.betas, m.vm)


for old in (False, True):
    s = "_old" if old else ""
    o = dict(old=True) if old else {}
    add_case("P24", "re" + s, kkp, **o)
    add_case("P24", "re_full" + s, kkp, full=True, **o)
    add_case("P24", "re_wide" + s, kkp, layout="wide", xs=["X1", "X2"], N=5, **o)
    add_case("P24", "re_T3" + s, kkp, T=3, **o)
    add_case("P24", "re_T3_full" + s, kkp, T=3, N=3, full=True, **o)
add_case("P24", "re_slx", kkp, slx=1, T=3)
add_case("P24", "re_slx_mask", kkp, slx=1, T=3, xs=["X1", "X2"], vars=[False, True])
add_case("P24", "re_frame", kkp, layout="frame", xs=["X1", "X2"])
add_case("P24", "re_T4", kkp, T=4, N=3)
add_case("P24", "re_regimes", kkp, old=True, regimes=list("abab"), T=3, line=False)
add_case("P24", "re_regimes_long", kkp, old=True, regimes=list("abba"), T=3, short=False, line=False)
add_case("P24", "pooled_gm_first", pooled_gm, only="first", line=True)
add_case("P24", "pooled_gm_first_T3", pooled_gm, only="first", line=True, T=3, N=3, xs=["X1", "X2"])
add_case("P24", "pooled_gm", pooled_gm)
add_case("P24", "pooled_gm_it", pooled_gm, it=2, N=3)
add_case("P24", "pooled_gm_1c", pooled_gm, step1c=True, N=3, T=3)
add_case("P24", "pooled_gm_wide", pooled_gm, layout="wide", xs=["X1", "X2"])
add_case("P24", "pooled_gm_slx", pooled_gm, slx=1)
add_case("P24", "pooled_ml", pooled_ml)
add_case("P24", "pooled_ml_T3", pooled_ml, T=3, N=3, xs=["X1", "X2"], line=False)
add_case("P24", "pooled_ml_wide", pooled_ml, layout="wide", xs=["X1", "X2"])
add_case("P24", "pooled_ml_slx", pooled_ml, slx=1, line=False)
