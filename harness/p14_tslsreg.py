"""2SLS and spatial 2SLS with regimes: n = 10..12, two or three interleaved regimes; y on a symbolic line (2SLS coefficients also
for fully symbolic y); every combination of varying and common columns; lag orders 1..3, lag_q, WX terms, regime-specific weights."""
from itertools import product
from symx.ctx import add_case
from common import *

G10 = {0: [1, 2, 9], 1: [0, 3, 4], 2: [0, 4, 7], 3: [1, 5], 4: [1, 2, 6, 8], 5: [3, 6], 6: [4, 5, 7], 7: [2, 6, 9], 8: [4, 9], 9: [0, 7, 8]}
D10 = {0: [1, 2], 1: [2, 3, 4], 2: [0, 6, 5], 3: [1, 5, 7], 4: [2, 7], 5: [6, 9], 6: [0, 4, 5], 7: [8, 3], 8: [7, 3, 9], 9: [8, 5]}
G12 = {i: sorted({(i - 1) % 12, (i + 1) % 12, (i + 5) % 12, (i - 5) % 12, (i * i + 2) % 12} - {i}) for i in range(12)}
G14 = {i: sorted({(i - 1) % 14, (i + 1) % 14, (i + 4) % 14, (i - 4) % 14, (i * i + 2) % 14} - {i}) for i in range(14)}


def data(ctx):
    p = ctx.p
    n = p.get("n", 10)
    regs = list(p.get("regs", REG8))[:n]
    y = yfull(ctx, n) if p.get("y") == "full" else cols(ctx, Y0, n=n) if p.get("y") == "con" else yline(ctx, n)
    x = cols(ctx, X1, X2, n=n)[:, :p.get("kx", 1)]
    ye = q = None
    if p.get("ke", 0):
        ye = xline(ctx, n, YE, D2) if p.get("eline") else cols(ctx, YE, n=n)
        if p["ke"] == 2:
            ye = np.hstack([ye, cols(ctx, X3, n=n)])
        q = cols(ctx, Q1, Q2, RES, n=n)[:, :p.get("nq", p["ke"])]
    return n, regs, y, x, ye, q, ["p", "q"][:x.shape[1]], ["e", "f"][:p.get("ke", 0)], ["h", "i", "j"][:0 if q is None else q.shape[1]]


def flags(p, k):
    c2 = p.get("cols", "all")
    return [True] * k if c2 == "all" else list(c2)


def interacted(ctx, X, Y, Q, regs, fx, fy, nx, ny, nq):
    Xb, a = block(ctx, X, regs, fx, nx)
    Yb, b = block(ctx, Y, regs, fy, ny)
    Qb, c = block(ctx, Q, regs, [True] * Q.shape[1], nq)
    return np.hstack([Xb, Yb]), np.hstack([Xb, Qb]), a, b, c


def variance(ctx, r, robust, nk, K=None):
    """(coefficients, residuals, fitted values, variance)"""
    d, n, k, H, Z = ctx.dot, r.n, r.k, r.H, r.Z
    if robust == "ogmm":
        div = ctx.num(n - k if nk else n)
        Si = ctx.inv(d(H.T, H * (r.e * r.e)) / div)
        A = ctx.inv(d(Z.T, H, Si, H.T, Z))
        b = d(A, Z.T, H, Si, H.T, r.y)
        return b, r.y - d(Z, b), d(Z, b), A * div
    if robust in ("white", "hac"):
        meat = white_meat(ctx, H, r.e, ctx.num(F(n, n - k)) if nk else 1) if robust == "white" else d((H * r.e).T, K, H * r.e)
        P = d(r.varb, Z.T, H, ctx.inv(d(H.T, H)))
        return r.b, r.e, r.fit, d(P, meat, P.T)
    return r.b, r.e, r.fit, (r.s2nk if nk else r.s2n) * r.varb


def chows(ctx, m, names, b, V, vx, vy, regs, glob):
    """Wald tests; the recorded finding: a common exogenous column shifts the endogenous comparisons"""
    labs = regset(regs)
    if not vx + vy:
        return
    joint, each = chow_ref(ctx, names, b, V, vx + vy, labs)
    ka = kb = None
    if vy and glob:
        wrong = [nm for nm in names if not nm.startswith("_Global_")] + [nm for nm in names if nm.startswith("_Global_")]
        j2, e2 = chow_ref(ctx, wrong, b, V, vx + vy, labs)
        ka, kb = [("chow-endog-common-exog", pairs(e2))], [("chow-endog-common-exog", list(j2))]
    ctx.prove_eq("Chow tests by variable", m.chow.regi, pairs(each), shape=(len(vx + vy), 2), known=ka or ())
    ctx.prove_eq("joint Chow test", list(m.chow.joint), list(joint), known=kb or ())


def table(ctx, m, names, b, V):
    t = table_by_name(m)
    ctx.prove_true("table rows", sorted(t) == sorted(names) and len(m.output) == len(names), list(m.output["var_names"]))
    if sorted(t) != sorted(names):
        return
    se = [ctx.sqrt(v) for v in diagvec(V)]
    z = [b[i, 0] / se[i] for i in range(len(names))]
    for j, lab in enumerate(("coefficients", "standard errors", "z statistics", "probabilities")):
        ctx.prove_eq("table " + lab, [t[nm][j] for nm in names], [b, se, z, [ctx.p2(v) for v in z]][j])


def common(ctx, spreg):
    p = ctx.p
    n, regs, y, x, ye, q, nx, ny, nq = data(ctx)
    nk = p.get("nk", True)
    fl_ = flags(p, x.shape[1] + ye.shape[1])
    kw, K = {}, None
    if p.get("robust") == "hac":
        kw["gwk"], K = kernel_case(ctx, n, sym=False)
    m = spreg.TSLS_Regimes(y, x, ye, q, list(regs), constant_regi=p.get("const", "many"),
                           cols2regi="all" if p.get("cols", "all") == "all" else list(fl_), sig2n_k=nk, robust=p.get("robust"),
                           name_y="y", name_x=list(nx), name_yend=list(ny), name_q=list(nq), **kw)
    fx = [p.get("const", "many") == "many"] + fl_[:x.shape[1]]
    fy = fl_[x.shape[1]:]
    vx = ["CONSTANT"] + nx
    Z, H, a, b_, c = interacted(ctx, const(ctx, x), ye, q, regs, fx, fy, vx, ny, nq)
    names = a + b_
    ctx.prove_true("names", (list(m.name_x), list(m.name_yend), list(m.name_q), list(m.name_z), list(m.name_h)) ==
                   (a, b_, c, names, a + c), (m.name_x, m.name_yend, m.name_q))
    r = TSLSRef(ctx, y, Z, H)
    k = r.k
    if p.get("y") == "full":
        ctx.prove_eq("coefficients", m.betas, r.b, shape=(k, 1))
        ctx.prove_eq("residuals and fitted values", [m.u, m.predy], [r.e, r.fit])
        return
    b, e, f, V = variance(ctx, r, p.get("robust"), nk, K)
    ctx.prove_eq("coefficients", m.betas, b, shape=(k, 1))
    ctx.prove_eq("residuals and fitted values", [m.u, m.predy], [e, f])
    ctx.prove_eq("variance", m.vm, V, shape=(k, k))
    if p.get("robust") is None:
        ctx.prove_eq("error variance", m.sig2, r.s2nk if nk else r.s2n)
    if p.get("chow", True):
        chows(ctx, m, names, b, V, [v for v, t in zip(vx, fx) if t], [v for v, t in zip(ny, fy) if t], regs, not all(fx))
    if p.get("table", True):
        table(ctx, m, names, b, V)


for c, cs in product(("many", "one"), product((True, False), repeat=2)):
    if any(cs) or c == "many":
        add_case("P14", "tsls_%s_%s" % (c, "".join("TF"[not v] for v in cs)), common, const=c, cols=list(cs), ke=1, nq=2)
add_case("P14", "tsls_full", common, y="full", ke=1, nq=2)
add_case("P14", "tsls_full_one", common, y="full", ke=1, nq=2, const="one", cols=[True, False])
add_case("P14", "tsls_unbalanced", common, n=11, ke=1, nq=1, regs="abbabbbabba")
add_case("P14", "tsls_two_endog", common, n=12, ke=2, nq=2, regs="abbaabbaabab", cols=[False, True, True], chow=False)
add_case("P14", "tsls_two_endog_mixed", common, n=12, ke=2, nq=2, regs="abbaabbaabab", cols=[True, False, True], chow=False)
add_case("P14", "tsls_kx2", common, n=12, kx=2, ke=1, nq=1, regs="abbaabbaabab", cols=[True, False, True])
add_case("P14", "tsls_three", common, n=12, ke=1, nq=1, regs=REG3)
add_case("P14", "tsls_n", common, ke=1, nq=2, nk=False)
add_case("P14", "tsls_eline", common, ke=1, nq=2, y="con", eline=True, table=False)
add_case("P14", "tsls_white", common, ke=1, nq=2, robust="white", chow=False)
add_case("P14", "tsls_white_n", common, ke=1, nq=2, robust="white", nk=False, chow=False)
add_case("P14", "tsls_hac", common, ke=1, nq=2, robust="hac", chow=False)
add_case("P14", "tsls_ogmm", common, ke=1, nq=2, robust="ogmm", chow=False, table=False, const="one", cols=[True, False])
add_case("P14", "tsls_ogmm_n", common, ke=1, nq=2, robust="ogmm", nk=False, chow=False, table=False, const="one", cols=[True, False])


def separate(ctx, spreg):
    p = ctx.p
    n, regs, y, x, ye, q, nx, ny, nq = data(ctx)
    nk = p.get("nk", True)
    m = spreg.TSLS_Regimes(y, x, ye, q, list(regs), regime_err_sep=True, sig2n_k=nk, robust=p.get("robust"),
                           name_y="y", name_x=list(nx), name_yend=list(ny), name_q=list(nq))
    sep_check(ctx, m, regs, y, {r: (const(ctx, x)[ids_of(regs, r)], ye[ids_of(regs, r)], q[ids_of(regs, r)]) for r in regset(regs)},
              ["CONSTANT"] + nx, ny, p.get("robust"), nk)


def sep_check(ctx, m, regs, y, parts, vx, vy, robust, nk):
    p = ctx.p
    labs = regset(regs)
    names, bs, Vs = [], [], []
    for r in labs:
        i = ids_of(regs, r)
        Xr, Yr, Qr = parts[r]
        o = TSLSRef(ctx, y[i], np.hstack([Xr, Yr]), np.hstack([Xr, Qr]))
        b, e, f, V = variance(ctx, o, robust, nk)
        nm = ["%s_%s" % (r, v) for v in vx + vy]
        names += nm
        bs.append(b)
        Vs.append(V)
        g = m.multi[r]
        ctx.prove_eq("regime model", [g.betas, g.u, g.predy, g.vm], [b, e, f, V])
        ctx.prove_eq("residuals and fitted values in data order", [m.u[i], m.predy[i]], [e, f])
        ctx.prove_true("regime names", list(g.name_z) == nm, g.name_z)
    k, K = bs[0].shape[0], sum(b.shape[0] for b in bs)
    V = ctx.zeros((K, K))
    for j, v in enumerate(Vs):
        V[j * k:(j + 1) * k, j * k:(j + 1) * k] = v
    b = np.vstack(bs)
    ctx.prove_true("names", list(m.name_z) == names, m.name_z)
    ctx.prove_eq("coefficients", m.betas, b, shape=(K, 1))
    ctx.prove_eq("variance is block diagonal", m.vm, V, shape=(K, K))
    if p.get("chow", True):
        chows(ctx, m, names, b, V, vx + vy, [], regs, False)
    if p.get("table", True):
        table(ctx, m, names, b, V)


add_case("P14", "tsls_separate", separate, ke=1, nq=2)
add_case("P14", "tsls_separate_n", separate, ke=1, nq=2, nk=False, chow=False)
add_case("P14", "tsls_separate_white", separate, ke=1, nq=2, robust="white", chow=False)
add_case("P14", "tsls_separate_unbalanced", separate, n=12, regs="abbabbbabbab", ke=1, nq=1)
add_case("P14", "tsls_separate_kx2", separate, n=12, regs="abbaabbaabab", kx=2, ke=1, nq=1, chow=False)
add_case("P14", "tsls_separate_three", separate, n=12, ke=1, nq=1, regs=REG3)
add_case("P14", "tsls_separate_ogmm", separate, n=12, regs="abbaabbaabab", ke=1, nq=2, robust="ogmm", chow=False, table=False)


def powers(ctx, Wd, x, lo, hi):
    out, z = [], x
    for j in range(1, hi + 1):
        z = ctx.dot(Wd, z)
        if j >= lo:
            out.append(z)
    return out


def wregime(ctx, nb, regs, transform="r"):
    """per regime weights (dense, regime order) and their union in data order"""
    n = len(nb)
    out, U = {}, ctx.zeros((n, n))
    for r in regset(regs):
        i = ids_of(regs, r)
        W = ctx.zeros((len(i), len(i)))
        for a, s in enumerate(i):
            nn = [t for t in nb[s] if t in i]
            for t in nn:
                v = ctx.num(F(1, len(nn)) if transform == "r" else 1)
                W[a, i.index(t)] = v
                U[s, t] = v
        out[r] = W
    return out, U


def lag(ctx, spreg):
    p = ctx.p
    if p.get("opq"):
        ctx.opaque()
    n, regs, y, x, ye, q, nx, ny, nq = data(ctx)
    nb = {10: D10 if p.get("w") == "asym" else G10, 12: G12, 14: G14}[n]
    tr = p.get("tr", "r")
    if p.get("w") == "raw":
        w = ctx.W(nb, {i: [ctx.num(F(1 + (i + j) % 3, 12)) for j in range(len(v))] for i, v in nb.items()}, transform=None)
    else:
        w = ctx.W(nb)
    Wd = ctx.dense(w)
    wl, lq, slx, sep = p.get("w_lags", 1), p.get("lag_q", True), p.get("slx", 0), p.get("sep", False)
    kx, ke = x.shape[1], 0 if ye is None else ye.shape[1]
    fl_ = flags(p, kx * (1 + slx) + ke)
    kw = dict(yend=ye, q=q, name_yend=list(ny), name_q=list(nq)) if ke else {}
    rob = p.get("robust")
    m = spreg.GM_Lag_Regimes(y, x, list(regs), w=w, w_lags=wl, lag_q=lq, slx_lags=slx, robust=rob, sig2n_k=p.get("nk", False),
                             spat_diag=bool(p.get("diag")), spat_impacts=None, constant_regi=p.get("const", "many"),
                             cols2regi="all" if p.get("cols", "all") == "all" else list(fl_), regime_lag_sep=sep, regime_err_sep=sep,
                             name_y="y", name_x=list(nx), **kw)
    vx = ["CONSTANT"] + nx
    nk = p.get("nk", False)
    fx = [p.get("const", "many") == "many"] + fl_[:kx * (1 + slx)]
    fy = fl_[kx * (1 + slx):] + [sep]
    multi = sep and all(fl_) and fx[0]
    Wr, U = wregime(ctx, nb, regs, tr)
    Wx = U if sep else Wd

    def endog(W, y, x, ye, q):
        inst = powers(ctx, W, x, slx + 1, slx + wl)
        if ke:
            inst = [q] + inst + (powers(ctx, W, q, 1, wl) if lq else [])
        Wy = ctx.dot(W, y)
        return (np.hstack([ye, Wy]) if ke else Wy), np.hstack(inst)
    if multi:
        parts = {}
        for r in regset(regs):
            i = ids_of(regs, r)
            Y, Q = endog(Wr[r], y[i], x[i], None if ye is None else ye[i], None if q is None else q[i])
            parts[r] = (const(ctx, x[i]), Y, Q)
        sep_check(ctx, m, regs, y, parts, vx, ny + ["W_y"], rob, nk)
        if p.get("pred"):
            for r in regset(regs):
                i = ids_of(regs, r)
                g = m.multi[r]
                rho = g.betas[-1, 0]
                ctx.prove_eq("regime rho", g.rho, rho)
                predict(ctx, m.predy_e[i], m.e_pred[i], y[i], m.predy[i], Wr[r], rho)
        return
    X = np.hstack([const(ctx, x)] + powers(ctx, Wx, x, 1, slx))
    vxx = vx + ["W%s_%s" % ("" if j == 1 else j, v) for j in range(1, slx + 1) for v in nx]
    Y, Q = endog(Wx, y, x, ye, q)
    Z, H, a, b_, c = interacted(ctx, X, Y, Q, regs, fx, fy, vxx, ny + ["W_y"], ["k%d" % j for j in range(Q.shape[1])])
    names = a + b_
    ctx.prove_true("names", list(m.name_x) + list(m.name_yend) == names, (m.name_x, m.name_yend))
    r = TSLSRef(ctx, y, Z, H)
    b, e, f, V = variance(ctx, r, rob, nk)
    k = r.k
    ctx.prove_eq("coefficients", m.betas, b, shape=(k, 1))
    ctx.prove_eq("residuals and fitted values", [m.u, m.predy], [e, f])
    ctx.prove_eq("variance", m.vm, V, shape=(k, k))
    if p.get("chow"):
        chows(ctx, m, names, b, V, [v for v, t in zip(vxx, fx) if t], [v for v, t in zip(ny + ["W_y"], fy) if t], regs, not all(fx))
    if p.get("table"):
        table(ctx, m, names, b, V)
    if not sep:
        ctx.prove_eq("rho", m.rho, b[-1])
        if p.get("pred"):
            predict(ctx, m.predy_e, m.e_pred, y, m.predy, Wd, b[-1, 0])
        if p.get("diag"):
            T = trace(ctx.dot(Wd.T, Wd) + ctx.dot(Wd, Wd))
            cc = sc(ctx.dot(e.T, Wd, e)) / r.s2n
            aa = ctx.dot(e.T, Wd, Z)
            ak = cc * cc / (T + 4 / r.s2n * sc(ctx.dot(aa, r.varb, aa.T)))
            ctx.prove_eq("AK test", m.ak_test, [ak, ctx.chi2sf(ak, 1)])
            if slx == 1 and not ke and all(fl_):
                xi = [names.index("%s_%s" % (s, v)) for s in regset(regs) for v in nx]
                wi = [names.index("%s_W_%s" % (s, v)) for s in regset(regs) for v in nx]
                rho, bb = b[-1, 0], b[xi]
                idx = xi + wi + [len(names) - 1]
                g = rho * bb + b[wi]
                G = np.vstack([rho * ctx.eye(len(xi)), ctx.eye(len(xi)), bb.T])
                cf = sc(ctx.dot(g.T, ctx.inv(ctx.dot(G.T, V[idx][:, idx], G)), g))
                ctx.prove_eq("common factor test", m.cfh_test, [cf, ctx.chi2sf(cf, len(xi))])
            else:
                ctx.prove_true("no common factor test", not hasattr(m, "cfh_test"))
    elif p.get("pred"):
        for r_ in regset(regs):
            i = ids_of(regs, r_)
            predict(ctx, m.predy_e[i], m.e_pred[i], y[i], m.predy[i], Wr[r_], b[names.index("%s_W_y" % r_), 0])


def predict(ctx, predy_e, e_pred, y, predy, Wd, rho):
    """reduced form prediction within the regime's own weights"""
    n = y.shape[0]
    if abs(rho) < 1:
        ctx.prove_eq("reduced form prediction", ctx.dot(ctx.eye(n) - rho * Wd, predy_e), predy - rho * ctx.dot(Wd, y))
        ctx.prove_eq("prediction error", e_pred, y - predy_e)
    else:
        ctx.prove_eq("no prediction outside the bound", predy_e, ctx.zeros((n, 1)))


add_case("P14", "lag", lag, chow=True, table=True, y="con")
add_case("P14", "lag_line", lag)
add_case("P14", "lag_pred", lag, pred=True)
add_case("P14", "lag_diag", lag, diag=True)
add_case("P14", "lag_asym", lag, w="asym")
add_case("P14", "lag_raw", lag, w="raw", nk=True)
add_case("P14", "lag_one", lag, const="one")
add_case("P14", "lag_one_kx2", lag, const="one", kx=2, cols=[True, False])
add_case("P14", "lag_wlags2", lag, w_lags=2)
add_case("P14", "lag_white", lag, robust="white")
add_case("P14", "lag_white_nk", lag, robust="white", nk=True)
add_case("P14", "lag_endog", lag, n=12, regs="abbaabbaabab", ke=1, y="con", chow=True)
add_case("P14", "lag_endog_line", lag, n=12, regs="abbaabbaabab", ke=1)
add_case("P14", "lag_endog_noq", lag, n=12, regs="abbaabbaabab", ke=1, lag_q=False, cols=[True, False])
add_case("P14", "lag_endog_one", lag, n=12, regs="abbaabbaabab", ke=1, const="one", y="con", chow=True)
add_case("P14", "lag_slx", lag, n=12, regs="abbaabbaabab", slx=1, diag=True)
add_case("P14", "lag_slx_kx2", lag, n=14, regs="abbaabbaababab", slx=1, kx=2, y="con", diag=True)
add_case("P14", "lag_slx2", lag, n=12, regs="abbaabbaabab", slx=2, y="con")
add_case("P14", "lag_three", lag, n=12, regs=REG3)
add_case("P14", "lag_sep", lag, n=12, regs="abbaabbaabab", sep=True, chow=True, table=True, y="con")
add_case("P14", "lag_sep_line", lag, n=12, regs="abbaabbaabab", sep=True, chow=False, table=False)
add_case("P14", "lag_sep_pred", lag, n=12, regs="abbaabbaabab", sep=True, chow=False, table=False, pred=True)
add_case("P14", "lag_sep_white", lag, n=12, regs="abbaabbaabab", sep=True, chow=False, table=False, robust="white", nk=True)
add_case("P14", "lag_sep_endog", lag, n=12, regs="abbaabbaabab", sep=True, ke=1, lag_q=False, chow=False, table=False)
add_case("P14", "lag_sep_endog_q", lag, n=14, regs="abbaabbaababab", sep=True, ke=1, chow=False, table=False, y="con")
add_case("P14", "lag_sep_wlags3", lag, n=14, regs="abbaabbaababab", sep=True, w_lags=3, chow=False, table=False, y="con")
add_case("P14", "lag_sep_one", lag, sep=True, const="one", pred=True)
add_case("P14", "lag_sep_one_chow", lag, sep=True, const="one", y="con", chow=True)
add_case("P14", "lag_sep_mixed", lag, n=12, regs="abbaabbaabab", sep=True, kx=2, cols=[True, False])
add_case("P14", "lag_slx_mixed", lag, n=12, regs="abbaabbaabab", slx=1, cols=[True, False], diag=True)


def constants(ctx, spreg):
    """separate estimation drops regressors that are constant within a regime"""
    n = 12
    regs = list("abbaabbaabab")
    y, x = yline(ctx, n), cols(ctx, X1, n=n)
    x2 = np.hstack([x, ctx.col([1 if v == "a" else i for i, v in enumerate(regs)])])
    w = ctx.W(G12)
    ye, q = cols(ctx, YE, n=n), cols(ctx, Q1, n=n)
    a = spreg.TSLS_Regimes(y, x2, ye, q, list(regs), regime_err_sep=True, name_x=["p", "c"])
    b = spreg.TSLS_Regimes(y, x, ye, q, list(regs), regime_err_sep=True, name_x=["p"])
    c = spreg.GM_Lag_Regimes(y, x2, list(regs), w=w, regime_lag_sep=True, regime_err_sep=True, name_x=["p", "c"])
    d = spreg.GM_Lag_Regimes(y, x, list(regs), w=w, regime_lag_sep=True, regime_err_sep=True, name_x=["p"])
    for m, o in ((a, b), (c, d)):
        ctx.prove_true("names", m.name_z == o.name_z, m.name_z)
        ctx.prove_eq("the constant column is dropped", [m.betas, m.u, m.vm], [o.betas, o.u, o.vm])
        ctx.prove_true("warning", "constant" in getattr(m, "warning", ""))


add_case("P14", "constants", constants)
