"""GM error estimators with regimes (KP98, homoskedastic, heteroskedastic): n = 8..12, lambda (every optimiser call) symbolic in
(-0.99,0.99), concrete y; common lambda with and without links across regimes, separate lambdas; varying and common columns,
endogenous regressors, spatial lag, WX terms, step 1c, one and two iterations."""
from symx.ctx import add_case
from common import *
from gmref import *
from p12_het import clamp
from p14_tslsreg import wregime, powers

KF, KF1C = "gm-err-regime-filter", "het-endog-1c-filter"
# two regimes without links between them (directed inside), alternating positions
A6 = {0: [1, 2], 1: [2, 3], 2: [0, 4], 3: [1, 5], 4: [2, 5], 5: [0, 3, 4]}
A5 = {0: [1, 2], 1: [2, 3], 2: [0, 4], 3: [1], 4: [2, 0, 3]}
B6 = {0: [1], 1: [2, 5], 2: [0, 3, 4], 3: [1, 5], 4: [2, 0], 5: [4, 3]}


def two(a, b):
    m = {2 * i: [2 * j for j in v] for i, v in a.items()}
    m.update({2 * i + 1: [2 * j + 1 for j in v] for i, v in b.items()})
    return m


SPLIT10, SPLIT12 = two(A5, {0: [1, 4], 1: [2, 3], 2: [0, 4], 3: [1, 2], 4: [0, 3]}), two(A6, B6)
D12 = {i: sorted({(i + 1) % 12, (i + 4) % 12, (i * i + 5) % 12} - {i}) for i in range(12)}


def setup(ctx):
    p = ctx.p
    s = p.get("s", "split12")
    nb = dict(split12=SPLIT12, split10=SPLIT10, d8=D8, g8=G8, d12=D12)[s]
    n = len(nb)
    if p.get("regs"):
        regs = list(p["regs"])
    else:
        regs = ["ba"[i % 2] for i in range(n)] if s.startswith("split") else (REG8[:n] if n == 8 else list("abbaabbaabab"))
    w = ctx.W(nb)
    y = cols(ctx, Y0, n=n) / ctx.num(p.get("ydiv", 1))
    x = cols(ctx, X1, X2, n=n)[:, :p.get("kx", 1)]
    ye, q = (cols(ctx, YE, n=n), cols(ctx, Q1, Q2, n=n)[:, :p.get("nq", 1)]) if p.get("endo") else (None, None)
    return n, nb, regs, w, ctx.dense(w), y, x, ye, q, ["p", "q"][:x.shape[1]]


def flags(p, kx, ke):
    c = p.get("cols", "all")
    c = [True] * (kx + ke) if c == "all" else list(c)
    return [p.get("const", "many") == "many"] + c[:kx], c[kx:]


def fit(ctx, spreg, w, regs, y, x, ye, q, nx, **kw):
    p = ctx.p
    nm = dict(error="GM_Error", endo="GM_Endog_Error", combo="GM_Combo")[p["est"]] + p.get("fam", "") + "_Regimes"
    for a in ("max_iter", "A1", "step1c", "inv_method", "w_lags", "lag_q", "slx_lags", "hard_bound"):
        if a in p:
            kw[a] = p[a]
    if ye is not None:
        kw.update(yend=ye, q=q, name_yend=["e"], name_q=["h", "i"][:q.shape[1]])
    return getattr(spreg, nm)(y=y, x=x, regimes=list(regs), w=w, constant_regi=p.get("const", "many"),
                              cols2regi="all" if p.get("cols", "all") == "all" else list(p["cols"]), name_y="y", name_x=list(nx), **kw)


def endog(ctx, W, y, x, ye, q):
    p = ctx.p
    if p["est"] == "endo":
        return ye, q, ["e"]
    if p["est"] == "error":
        return None, None, []
    wl, slx = p.get("w_lags", 1), p.get("slx_lags", 0)
    inst = powers(ctx, W, x, slx + 1, slx + wl)
    if ye is not None:
        inst = [q] + inst + (powers(ctx, W, q, 1, wl) if p.get("lag_q", True) else [])
    Wy = ctx.dot(W, y)
    return (Wy if ye is None else np.hstack([ye, Wy])), np.hstack(inst), ([] if ye is None else ["e"]) + ["W_y"]


class Chain:
    """the documented sequence of steps: Z regressors, H instruments (None: least squares), W weights, zf the filtered regressors used
    in the weighted regressions, starting at optimiser call number at"""

    def __init__(s, ctx, y, Z, H, X, W, zf, at, it=1, sep=False, stale=False):
        p = ctx.p
        d = ctx.dot
        n, k = Z.shape
        N = ctx.num(n)
        lam = lambda i: ctx.opt.calls[at + i]["x"][0]
        s.mom, s.ge = [], []
        fam, est = p.get("fam", ""), p["est"]
        first = lambda yy, ZZ: OLSRef(ctx, yy, ZZ) if H is None else TSLSRef(ctx, yy, ZZ, H)
        r0 = first(y, Z)
        lim = ctx.num(F(9, 10))
        cl = (lambda b: clamp(b, lim)) if sep and fam == "_Het" and est == "combo" else (lambda b: b)
        u0 = y - d(Z, cl(r0.b))
        if fam == "":
            s.mom.append(kp98(ctx, u0, W) + (None,))
            l = lam(0)
            B = ctx.eye(n) - l * W
            g = first(d(B, y), zf(B))
            s.b, s.u = g.b, y - d(Z, g.b)
            s.s2 = g.s2n
            s.vm = s.s2 * (g.xtxi if H is None else g.varb)
            s.lam, s.n = l, 1
            s.e = d(B, s.u)
            return
        if fam == "_Hom":
            A = A_hom(ctx, W, p.get("A1", "het"))
        else:
            A = A_hom(ctx, W, "het")[0], W
        s.mom.append(moments2(ctx, W, A[0], A[1], u0) + (None,))
        seq = [lam(0)]
        s.n = 1
        if p.get("step1c"):
            B = ctx.eye(n) - seq[0] * W
            e = d(B, u0)
            a = None
            if H is not None:
                zs = d(B, Z)
                a = [d(ctx.inv(B).T, v) for v in avecs(ctx, A, e, zs, H, P_mat(ctx, H, Z))]
            s.mom.append(s.mom[0][:2] + (psi_het(ctx, A, e, a),))
            seq = [lam(1)]
            s.n = 2
        for i in range(it):
            B = ctx.eye(n) - seq[i] * W
            B1 = ctx.eye(n) - (lam(0) if stale else seq[i]) * W
            zs = zf(B1)
            g = first(d(B1, y), zs)
            b = cl(g.b)
            u = y - d(Z, b)
            us = d(B, u)
            a = None if H is None else avecs(ctx, A, us, zs, H, P_mat(ctx, H, zs))
            G, gg = moments2(ctx, W, A[0], A[1], u)
            s.mom.append((G, gg, (psi_hom if fam == "_Hom" else psi_het)(ctx, A, us, a)))
            seq.append(lam(s.n))
            s.n += 1
        s.seq = seq
        lf = s.lam = seq[-1]
        s.b, s.u = b, u
        B = ctx.eye(n) - lf * W
        us, zs = d(B, u), d(B, Z)
        s.e = us
        s.s2 = (us * us).sum() / N
        if fam == "_Hom":
            if H is None:
                xi = ctx.inv(d(zs.T, zs))
                s.vm = omega_hom(ctx, A, us, psi_hom(ctx, A, us), G, lf, Z, xi * N, s.s2 * xi)
            else:
                P = P_mat(ctx, H, zs)
                a = avecs(ctx, A, us, zs, H, P)
                s.vm = omega_hom(ctx, A, us, psi_hom(ctx, A, us, a), G, lf, H, P, s.s2 * TSLSRef(ctx, d(B, y), zs, H).varb, a)
            return
        J = d(G, ctx.colvec([ctx.num(1), 2 * lf]))
        E = ctx.diag([v * v for v in us.reshape(-1)])
        if H is None:
            psi = psi_het(ctx, A, us)
            xi = ctx.inv(d(zs.T, zs))
            DD, LL, DL = d(xi, zs.T, E, zs, xi), ctx.inv(d(J.T, ctx.inv(psi), J)) / N, ctx.zeros((k, 1))
        else:
            P = P_mat(ctx, H, zs)
            a = avecs(ctx, A, us, zs, H, P)
            pi = ctx.inv(psi_het(ctx, A, us, a))
            L = ctx.inv(d(J.T, pi, J))
            DD = d(P.T, H.T, E, H, P) / N / N
            DL = d(P.T, H.T, E, np.hstack(a), pi, J, L) / N / N
            LL = L / N
        s.vm = np.vstack([np.hstack([DD, DL]), np.hstack([DL.T, LL])])


def same(a, b):
    """do two vectors agree (identically in the symbolic run, to rounding in the replay)"""
    try:
        return all((u - v) == 0 or abs(float(u - v)) < 1e-7 * (1 + abs(float(u))) for u, v in zip(a.reshape(-1), b.reshape(-1)))
    except (TypeError, ValueError):
        return False


def check_moments(ctx, c, at, label=""):
    names = {0: "first step moments"}
    for j, (G, g, vc) in enumerate(c.mom):
        moments(ctx, at + j, G, g, vc, label=label + "step %d moments" % (j + 1), hard_bound=bool(ctx.p.get("hard_bound")))


def rows(ctx, m, names, b, vm, k):
    t = table_by_name(m)
    ctx.prove_true("table row names", sorted(t) == sorted(names), list(t))
    for i, nm in enumerate(names):
        if nm not in t:
            continue
        ctx.prove_eq("table coefficient", t[nm][0], b[i, 0])
        if i < k:
            se = ctx.sqrt(vm[i, i])
            z = b[i, 0] / se
            ctx.prove_eq("table inference", list(t[nm][1:]), [se, z, ctx.p2(z)])


def chow(ctx, m, names, b, V, varying, labs):
    (j, jp), each = chow_ref(ctx, names, b, V, varying, labs)
    ctx.prove_eq("joint chow test", m.chow.joint, [j, jp])
    ctx.prove_eq("chow tests", [list(a) for a in m.chow.regi][:len(each)], [list(a) for a in each])


def common(ctx, spreg):
    p = ctx.p
    ctx.cut("optim_moments")
    if not p.get("chow"):
        ctx.cut("chow")
    ctx.opaque()
    n, nb, regs, w, Wd, y, x, ye, q, nx = setup(ctx)
    slx = p.get("slx_lags", 0)
    it = p.get("max_iter", 1)
    m = fit(ctx, spreg, w, regs, y, x, ye, q, nx)
    X0 = np.hstack([const(ctx, x)] + powers(ctx, Wd, x, 1, slx))
    vx = ["CONSTANT"] + nx + ["W%s_%s" % ("" if j == 1 else j, v) for j in range(1, slx + 1) for v in nx]
    Y, Q, ny = endog(ctx, Wd, y, x, ye, q)
    combo = p["est"] == "combo"
    fx, fy = flags(p, X0.shape[1] - 1, len(ny) - combo)
    if combo:
        fy = fy + [False]
    X, names = block(ctx, X0, regs, fx, vx)
    Z, H = X, None
    if Y is not None:
        Yb, b_ = block(ctx, Y, regs, fy, ny)
        Z, H = np.hstack([X, Yb]), np.hstack([X, block(ctx, Q, regs, [True] * Q.shape[1])[0]])
        names = names + b_
    k = Z.shape[1]

    def late(B):
        s = block(ctx, ctx.dot(B, X0), regs, fx)[0]
        return s if Y is None else np.hstack([s, block(ctx, ctx.dot(B, Y), regs, fy)[0]])
    done = getattr(m, "iteration", 1)
    c = Chain(ctx, y, Z, H, X, Wd, lambda B: ctx.dot(B, Z), 0, done)
    alt = []
    if not p.get("exact", True):
        alt.append((KF, Chain(ctx, y, Z, H, X, Wd, late, 0, done)))
    if p.get("fam") == "_Het" and Y is not None and c.n > 2:
        alt.append((KF1C, Chain(ctx, y, Z, H, X, Wd, lambda B: ctx.dot(B, Z), 0, done, stale=True)))
    if alt:
        full = lambda o: np.vstack([o.b, ctx.colvec([o.lam])])
        ctx.prove_eq("coefficients of the filtered model", m.betas, full(c), known=[(k_, full(c2)) for k_, c2 in alt])
        for k_, c2 in alt:
            if not same(m.betas, full(c)) and same(m.betas, full(c2)):
                c = c2
    if p.get("fam"):
        ctx.prove_true("iterations", 1 <= done <= it and len(ctx.opt.calls) == c.n, (done, len(ctx.opt.calls)))
        for i in range(1, done + 1):
            gap = ctx.abs(c.seq[i] - c.seq[i - 1])
            if i < done:
                ctx.prove_ge("iterates while lambda still moves", gap, ctx.num(F(1, 100000)))
            elif done < it:
                ctx.prove_ge("stops when lambda has settled", ctx.num(F(1, 100000)), gap)
    if p.get("moments", True):
        check_moments(ctx, c, 0)
    B = ctx.colvec(list(c.b.reshape(-1)) + [c.lam])
    ctx.prove_eq("coefficients and lambda", m.betas, B, shape=(k + 1, 1))
    ctx.prove_eq("residuals and fitted values", [m.u, m.predy], [c.u, y - c.u])
    ctx.prove_eq("filtered residuals", m.e_filtered, c.e)
    kv = k + 1 if p.get("fam") else k
    ctx.prove_eq("variance", m.vm, c.vm, shape=(kv, kv))
    if p.get("fam", "") != "_Het":
        ctx.prove_eq("error variance", m.sig2, c.s2)
    ctx.prove_true("names", list(m.name_x if Y is None else m.name_z) == names + ["lambda"], (m.name_x, names))
    if p.get("table", True):
        rows(ctx, m, names + ["lambda"], B, c.vm, kv)
    if p.get("chow"):
        chow(ctx, m, names, B[:k], c.vm[:k, :k], [v for v, t in zip(vx, fx) if t] + [v for v, t in zip(ny, fy) if t], regset(regs))
    if combo:
        rho = c.b[-1, 0]
        ctx.prove_eq("rho", m.rho, rho)
        if abs(rho) < 1:
            ctx.prove_eq("reduced form prediction", ctx.dot(ctx.eye(n) - rho * Wd, m.predy_e), y - c.u - rho * ctx.dot(Wd, y))
            ctx.prove_eq("prediction error", m.e_pred, y - m.predy_e)


def separate(ctx, spreg):
    p = ctx.p
    ctx.cut("optim_moments")
    if not p.get("chow"):
        ctx.cut("chow")
    ctx.opaque()
    n, nb, regs, w, Wd, y, x, ye, q, nx = setup(ctx)
    combo = p["est"] == "combo"
    slx = p.get("slx_lags", 0)
    m = fit(ctx, spreg, w, regs, y, x, ye, q, nx, regime_err_sep=True, **(dict(regime_lag_sep=True) if combo else {}))
    X0 = np.hstack([const(ctx, x)] + powers(ctx, Wd, x, 1, slx))
    vx = ["CONSTANT"] + nx + ["W%s_%s" % ("" if j == 1 else j, v) for j in range(1, slx + 1) for v in nx]
    Wr, _ = wregime(ctx, nb, regs)
    labs = regset(regs)
    at, names, Bs, Vs = 0, [], [], []
    for g in labs:
        i = ids_of(regs, g)
        s = m.multi[g]
        Y, Q, ny = endog(ctx, Wr[g], y[i], x[i], None if ye is None else ye[i], None if q is None else q[i])
        X = X0[i]
        Z, H = (X, None) if Y is None else (np.hstack([X, Y]), np.hstack([X, Q]))
        W = Wr[g]
        c = Chain(ctx, y[i], Z, H, X, W, lambda B: ctx.dot(B, Z), at, getattr(s, "iteration", 1), sep=True)
        if p.get("moments", True):
            check_moments(ctx, c, at, "regime ")
        at += c.n
        k = Z.shape[1]
        kv = k + 1 if p.get("fam") else k
        B = ctx.colvec(list(c.b.reshape(-1)) + [c.lam])
        ng = ["%s_%s" % (g, v) for v in vx + ny + ["lambda"]]
        names.append(ng)
        ctx.prove_true("names of the regime", list(s.name_x if Y is None else s.name_z) == ng, (s.name_x, ng))
        ctx.prove_eq("coefficients of the regime", s.betas, B, shape=(k + 1, 1))
        ctx.prove_eq("residuals of the regime go back to their observations", [s.u, m.u[i], s.predy, m.predy[i]], [c.u, c.u, y[i] - c.u, y[i] - c.u])
        ctx.prove_eq("filtered residuals", [s.e_filtered, m.e_filtered[i]], [c.e, c.e])
        ctx.prove_eq("regime variance", s.vm, c.vm, shape=(kv, kv))
        if p.get("fam", "") != "_Het":
            ctx.prove_eq("regime error variance", s.sig2, c.s2)
        if combo:
            rho = c.b[-1, 0]
            ctx.prove_eq("regime rho", s.rho, rho)
            if abs(rho) < 1:
                ctx.prove_eq("reduced form prediction", ctx.dot(ctx.eye(len(i)) - rho * W, m.predy_e[i]), y[i] - c.u - rho * ctx.dot(W, y[i]))
                ctx.prove_eq("prediction error", m.e_pred[i], y[i] - m.predy_e[i])
        Bs.append(B)
        Vs.append(c.vm)
    N = kv * len(labs)
    V = ctx.zeros((N, N))
    for a, v in enumerate(Vs):
        V[a * kv:(a + 1) * kv, a * kv:(a + 1) * kv] = v
    ctx.prove_eq("stacked coefficients", m.betas, np.vstack(Bs), shape=(len(labs) * (k + 1), 1))
    ctx.prove_eq("stacked variance", m.vm, V, shape=(N, N))
    ctx.prove_true("names", list(m.name_x if m.__class__.__name__.startswith("GM_Error") else m.name_z) == sum(names, []))
    if p.get("table", True):
        t = table_by_name(m)
        for a, ng in enumerate(names):
            for j, nm in enumerate(ng[:kv]):
                ctx.prove_true("table row names", nm in t, nm)
                if nm in t:
                    se = ctx.sqrt(Vs[a][j, j])
                    z = Bs[a][j, 0] / se
                    ctx.prove_eq("table row", list(t[nm]), [Bs[a][j, 0], se, z, ctx.p2(z)])
    if p.get("chow"):
        nm = sum([ng[:kv] for ng in names], [])
        chow(ctx, m, nm, np.vstack([b[:kv] for b in Bs]), V, vx + ny + (["lambda"] if kv > k else []), labs)


for fam, f in (("", "kp98"), ("_Hom", "hom"), ("_Het", "het")):
    big = dict(ydiv=10) if fam == "_Het" else {}
    A = lambda nm, fn, **q: add_case("P16", "%s_%s" % (f, nm), fn, fam=fam, **dict(big, **q))
    A("error_common", common, est="error", s="split10", chow=True)
    A("error_common_mixed", common, est="error", s="split10", kx=2, cols=[True, False], const="one")
    A("error_cross", common, est="error", s="d8", exact=False, chow=True)
    A("error_cross_one", common, est="error", s="g8", exact=False, const="one")
    A("error_slx", common, est="error", s="split10", slx_lags=1)
    A("error_separate", separate, est="error", s="split10", chow=fam == "")
    A("error_separate_cross", separate, est="error", s="d12", slx_lags=1)
    A("endog_common", common, est="endo", endo=True, s="split12", chow=True)
    A("endog_common_mixed", common, est="endo", endo=True, s="split12", cols=[True, False], const="one")
    A("endog_cross", common, est="endo", endo=True, s="d12", exact=False, cols=[False, True])
    A("endog_separate", separate, est="endo", endo=True, s="split12")
    A("combo_common", common, est="combo", s="split12", **dict(const="one", table=False) if fam == "_Het" else {})
    A("combo_cross", common, est="combo", s="d12", exact=False, const="one", tier="thorough" if fam == "_Het" else "quick")
    if fam != "_Het":
        A("combo_endo", common, est="combo", endo=True, s="split12", cols=[True, False], tier="thorough" if fam else "quick")
    A("combo_separate", separate, est="combo", s="split12", chow=fam == "")
    if fam:
        A("error_iterated", common, est="error", s="split10", max_iter=2, table=False)
        A("endog_iterated", common, est="endo", endo=True, s="split12", max_iter=2, table=False)
        if fam == "_Hom":
            A("combo_iterated", common, est="combo", s="split12", max_iter=2, table=False)
        A("error_separate_iterated", separate, est="error", s="split10", max_iter=2, table=False)
    if fam == "_Hom":
        for a1 in ("hom", "hom_sc"):
            A("error_" + a1, common, est="error", s="split10", A1=a1, table=False)
            A("endog_" + a1, common, est="endo", endo=True, s="split12", A1=a1, table=False)
            A("error_separate_" + a1, separate, est="error", s="split10", A1=a1, table=False)
    if fam == "_Het":
        A("error_1c", common, est="error", s="split10", step1c=True, table=False)
        A("endog_1c", common, est="endo", endo=True, s="split12", step1c=True, table=False)
        A("endog_1c_true_inv", common, est="endo", endo=True, s="split12", step1c=True, inv_method="true_inv", table=False)
        A("combo_1c", common, est="combo", s="split12", step1c=True, tier="thorough", table=False)
        A("error_separate_1c", separate, est="error", s="split10", step1c=True, table=False)
        A("endog_separate_1c", separate, est="endo", endo=True, s="split12", step1c=True, table=False)


def edge(ctx, spreg):
    """separate regimes: a solution on the boundary is refused under hard_bound, whichever regime it belongs to"""
    p = ctx.p
    ctx.cut("optim_moments")
    ctx.cut("chow")
    ctx.opaque()
    ctx.closed_box()
    n, nb, regs, w, Wd, y, x, ye, q, nx = setup(ctx)
    msg = None
    try:
        fit(ctx, spreg, w, regs, y, x, ye, q, nx, regime_err_sep=True, **(dict(regime_lag_sep=True) if p["est"] == "combo" else {}))
    except Exception as e:
        msg = str(e)
    per = 2                                   # initial and weighted estimate of each regime
    ctx.prove_true("a refusal stops the estimation", msg is not None or len(ctx.opt.calls) == 2 * per, len(ctx.opt.calls))
    on = [bool(abs(c["x"][0]) >= ctx.num(F(99, 100))) for c in ctx.opt.calls[per - 1::per]]
    want = any(on) if p["hard_bound"] else False
    ctx.prove_true("refused exactly on the boundary", want == (msg is not None), (on, msg))
    ctx.prove_true("refused because of the bounds", msg is None or "outside the bounds" in msg, msg)


for fam, f in (("_Hom", "hom"),):
    for est, o in (("error", dict(s="split10")), ("endo", dict(s="split12", endo=True)), ("combo", dict(s="split12"))):
        add_case("P16", "%s_%s_bound_common" % (f, est), common, fam=fam, est=est, hard_bound=True, table=False, **o)
        add_case("P16", "%s_%s_bound_separate" % (f, est), separate, fam=fam, est=est, hard_bound=True, table=False, **o)
for est, o in (("error", dict(s="split10")), ("endo", dict(s="split12", endo=True, ydiv=100)), ("combo", dict(s="split12", ydiv=10))):
    if est != "combo":
        add_case("P16", "het_%s_bound_common" % est, common, fam="_Het", est=est, hard_bound=True, table=False, **dict(dict(ydiv=10), **o))
    for hb in (True, False):
        add_case("P16", "het_%s_edge_%s" % (est, "hard" if hb else "soft"), edge, fam="_Het", est=est, hard_bound=hb, **dict(dict(ydiv=10), **o))
