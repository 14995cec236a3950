"""OLS with regimes: n = 8..12, two or three interleaved regimes with string, integer and float labels; y fully symbolic for the
coefficients, on a symbolic line for variances and tests; every combination of varying and common columns of two regressors."""
from itertools import product
from symx.ctx import add_case
from common import *


def data(ctx, spreg=None):
    p = ctx.p
    n = p.get("n", 8)
    regs = p.get("regs", REG8)[:n]
    ctx.lab = [int(r) for r in regs] if p.get("lab") else regs
    y = yfull(ctx, n) if p.get("y") == "full" else cols(ctx, Y0, n=n) if p.get("y") == "con" else yline(ctx, n)
    x = cols(ctx, X1, X2, n=n)[:, :p.get("kx", 1)]
    if p.get("xline"):
        x = np.hstack([xline(ctx, n, X1, D1), x[:, 1:]])
    return n, regs, y, x, ["p", "q"][:x.shape[1]]


def frame(p, kx):
    """documented varying flags, constant first"""
    c2 = p.get("cols", "all")
    return [p.get("const", "many") == "many"] + ([True] * kx if c2 == "all" else list(c2))


def nonsep(ctx, spreg):
    p = ctx.p
    n, regs, y, x, nx = data(ctx)
    kw = dict(regime_err_sep=False, constant_regi=p.get("const", "many"), nonspat_diag=bool(p.get("diag")),
              cols2regi=p.get("cols", "all") if isinstance(p.get("cols", "all"), str) else list(p["cols"]))
    if "nk" in p:
        kw["sig2n_k"] = p["nk"]
    if p.get("robust"):
        kw["robust"] = p["robust"]
    K = None
    if p.get("robust") == "hac":
        kw["gwk"], K = kernel_case(ctx, n, sym=False)
        kw.pop("regime_err_sep")
    m = spreg.OLS_Regimes(y, x, list(regs), name_y="y", name_x=list(nx), **kw)
    fl_ = frame(p, x.shape[1])
    X, names = block(ctx, const(ctx, x), ctx.lab, fl_, ["CONSTANT"] + nx)
    r = OLSRef(ctx, y, X)
    k = X.shape[1]
    ctx.prove_true("names", list(m.name_x) == names, m.name_x)
    ctx.prove_eq("coefficients", m.betas, r.b, shape=(k, 1))
    ctx.prove_eq("residuals and fitted values", [m.u, m.predy], [r.e, r.fit])
    if p.get("y") == "full":
        return
    s2 = r.s2nk if p.get("nk", True) else r.s2n
    if p.get("robust"):
        f = ctx.num(1) if p["robust"] == "hac" or not p.get("nk", True) else ctx.num(F(n, n - k))
        meat = white_meat(ctx, X, r.e, f) if p["robust"] == "white" else ctx.dot((X * r.e).T, K, X * r.e)
        V = ctx.dot(r.xtxi, meat, r.xtxi)
    else:
        V = s2 * r.xtxi
    ctx.prove_eq("variance", m.vm, V, shape=(k, k))
    ctx.prove_eq("error variance", m.sig2, s2)
    if p.get("chow", True):
        chow_check(ctx, m, names, r.b, V, fl_, nx, ctx.lab)
    if p.get("table", True):
        ctx.opaque()
    if p.get("diag"):
        ctx.prove_eq("R2", m.r2, 1 - r.rss / r.tss)
        ctx.prove_eq("log likelihood", m.logll, r.ll())


def chow_check(ctx, m, names, b, V, flags, nx, regs):
    vary = [v for v, f in zip(["CONSTANT"] + nx, flags) if f]
    if not vary:
        return
    joint, each = chow_ref(ctx, names, b, V, vary, regset(regs))
    ctx.prove_eq("Chow tests by variable", m.chow.regi, pairs(each), shape=(len(vary), 2))
    ctx.prove_eq("joint Chow test", list(m.chow.joint), list(joint))


for c, cols2 in product(("many", "one"), product((True, False), repeat=2)):
    if not any(cols2) and c == "one":
        continue
    t = "%s_%s" % (c, "".join("TF"[not v] for v in cols2))
    add_case("P13", "common_" + t, nonsep, const=c, cols=list(cols2), kx=2, n=10)
add_case("P13", "common_all_full", nonsep, y="full", kx=1)
add_case("P13", "common_one_full", nonsep, y="full", kx=2, const="one", cols=[True, False])
add_case("P13", "common_all_n", nonsep, kx=1, nk=False)
add_case("P13", "common_all_diag", nonsep, kx=1, diag=True, chow=False)
add_case("P13", "common_white", nonsep, kx=1, robust="white", chow=False)
add_case("P13", "common_white_one", nonsep, kx=2, n=10, const="one", cols=[False, True], robust="white", y="line", chow=True)
add_case("P13", "common_white_n", nonsep, kx=1, robust="white", nk=False, chow=False)
add_case("P13", "common_hac", nonsep, kx=1, robust="hac", chow=False)
add_case("P13", "three_regimes", nonsep, kx=1, n=12, regs=REG3)
add_case("P13", "three_regimes_one", nonsep, kx=2, n=12, regs=REG3, const="one", cols=[True, False])
add_case("P13", "float_labels", nonsep, kx=1, regs=[2., 1., 2., 1., 1., 2., 2., 1.], lab=int)


def labels(ctx, spreg):
    """label values, container types and label order do not matter"""
    n = 8
    y = yline(ctx, n)
    x = cols(ctx, X1, n=n)
    base = REG8[:n]
    import pandas as pd
    enc = [("str", base, "a", "b"), ("int", [1 if v == "a" else 2 for v in base], 1, 2),
           ("int swapped", [7 if v == "a" else 2 for v in base], 7, 2),
           ("float", [1.0 if v == "a" else 2.0 for v in base], 1, 2),
           ("fraction", [1.25 if v == "a" else 1.75 for v in base], 1.25, 1.75),
           ("fraction above and below one", [0.5 if v == "a" else 1.5 for v in base], 0.5, 1.5),
           ("array", np.array([1 if v == "a" else 2 for v in base]), 1, 2),
           ("string array", np.array(base), "a", "b"),
           ("series", pd.Series([10 if v == "a" else 9 for v in base], name="zone"), 10, 9)]
    for sep in (False, True):
        ref = {}
        for g in ("a", "b"):
            i = ids_of(base, g)
            ref[g] = OLSRef(ctx, y[i], const(ctx, x[i]))
        for nm, r, la, lb in enc:
            m = spreg.OLS_Regimes(y, x, r, regime_err_sep=sep, nonspat_diag=False, name_x=["p"], name_y="y")
            got = dict(zip(m.name_x, m.betas.reshape(-1)))
            for g, l in (("a", la), ("b", lb)):
                ctx.prove_true("names", "%s_CONSTANT" % l in got and "%s_p" % l in got, (nm, sep, m.name_x))
                ctx.prove_eq("separate regressions whatever the labels", [got.get("%s_CONSTANT" % l, 0), got.get("%s_p" % l, 0)], ref[g].b)
            t = table_by_name(m)
            for g, l in (("a", la), ("b", lb)):
                ctx.prove_eq("table rows", [t["%s_CONSTANT" % l][0], t["%s_p" % l][0]], ref[g].b)
            if sep:
                ctx.prove_eq("residuals go back to their observations", m.u[ids_of(base, "a")], ref["a"].e)
                ctx.prove_eq("residuals go back to their observations", m.u[ids_of(base, "b")], ref["b"].e)


add_case("P13", "labels", labels)


def sep(ctx, spreg):
    p = ctx.p
    n, regs, y, x, nx = data(ctx)
    kw = {}
    if "nk" in p:
        kw["sig2n_k"] = p["nk"]
    if p.get("robust"):
        kw["robust"] = p["robust"]
    m = spreg.OLS_Regimes(y, x, list(regs), name_y="y", name_x=list(nx), nonspat_diag=bool(p.get("diag")), **kw)
    labs = regset(regs)
    k = x.shape[1] + 1
    names, bs, Vs = [], [], []
    for r in labs:
        i = ids_of(regs, r)
        o = OLSRef(ctx, y[i], const(ctx, x[i]))
        names += ["%s_%s" % (r, v) for v in ["CONSTANT"] + nx]
        s2 = o.s2nk if p.get("nk", True) else o.s2n
        f = ctx.num(F(len(i), len(i) - k)) if p.get("nk", True) else 1
        V = s2 * o.xtxi
        if p.get("robust") == "white":
            V = ctx.dot(o.xtxi, white_meat(ctx, o.X, o.e, f), o.xtxi)
        bs.append(o.b)
        Vs.append(V)
        ctx.prove_eq("regime model", [m.multi[r].betas, m.multi[r].u, m.multi[r].predy, m.multi[r].vm, m.multi[r].sig2],
                     [o.b, o.e, o.fit, V, s2])
        ctx.prove_eq("residuals and fitted values in data order", [m.u[i], m.predy[i]], [o.e, o.fit])
        ctx.prove_true("regime names", list(m.multi[r].name_x) == names[-k:], m.multi[r].name_x)
        if p.get("diag"):
            ctx.prove_eq("regime fit", [m.multi[r].r2, m.multi[r].logll], [1 - o.rss / o.tss, o.ll()])
    K = k * len(labs)
    V = ctx.zeros((K, K))
    for j, v in enumerate(Vs):
        V[j * k:(j + 1) * k, j * k:(j + 1) * k] = v
    b = np.vstack(bs)
    ctx.prove_true("names", list(m.name_x) == names, m.name_x)
    ctx.prove_eq("coefficients", m.betas, b, shape=(K, 1))
    ctx.prove_eq("variance is block diagonal", m.vm, V, shape=(K, K))
    if p.get("chow", True):
        chow_check(ctx, m, names, b, V, [True] * k, nx, regs)


add_case("P13", "separate", sep, kx=1)
add_case("P13", "separate_full", sep, kx=1, y="full", chow=False)
add_case("P13", "separate_kx2", sep, kx=2, n=10, chow=False)
add_case("P13", "separate_n", sep, kx=1, nk=False, diag=True, chow=False)
add_case("P13", "separate_white", sep, kx=1, robust="white", chow=False)
add_case("P13", "separate_three", sep, kx=1, n=12, regs=REG3)
add_case("P13", "separate_xline", sep, kx=1, y="con", xline=True)


def grouped(ctx, spreg):
    """group-wise heteroskedasticity: weighted regression with the residual variances of the pooled step"""
    p = ctx.p
    n, regs, y, x, nx = data(ctx)
    m = spreg.OLS_Regimes(y, x, list(regs), name_y="y", name_x=list(nx), nonspat_diag=False, constant_regi="one",
                          cols2regi=[True] * x.shape[1], sig2n_k=p["nk"])
    fl_ = [False] + [True] * x.shape[1]
    X, names = block(ctx, const(ctx, x), regs, fl_, ["CONSTANT"] + nx)
    o = OLSRef(ctx, y, X)
    k = X.shape[1]
    w = [None] * n
    for r in regset(regs):
        i = ids_of(regs, r)
        s2 = (o.e[i] * o.e[i]).sum() / ctx.num(len(i) - (k if p["nk"] else 0))
        for j in i:
            w[j] = 1 / s2
    D = ctx.diag(ctx.vec1(w))
    xi = ctx.inv(ctx.dot(X.T, D, X))
    b = ctx.dot(xi, X.T, D, y)
    e = y - ctx.dot(X, b)
    ctx.prove_eq("weighted coefficients", m.betas, b, shape=(k, 1))
    ctx.prove_eq("residuals on the original scale", [m.u, m.predy], [e, y - e])
    s2w = sc(ctx.dot(e.T, D, e)) / ctx.num(n - (k if p["nk"] else 0))
    ctx.prove_eq("variance", m.vm, s2w * xi, shape=(k, k))
    ctx.prove_true("names", list(m.name_x) == names, m.name_x)


add_case("P13", "groupwise", grouped, kx=1, n=10, nk=True, y="con", xline=True)
add_case("P13", "groupwise_n", grouped, kx=1, n=8, nk=False, y="line")
add_case("P13", "groupwise_unbalanced", grouped, kx=1, n=9, nk=False, y="line", regs="bababbbab")
add_case("P13", "groupwise_unbalanced_k", grouped, kx=1, n=10, nk=True, y="con", xline=True, regs="abbababbab")
add_case("P13", "common_unbalanced", nonsep, kx=1, n=9, nk=False, regs="bababbbab")
add_case("P13", "separate_unbalanced", sep, kx=1, n=9, nk=False, regs="bababbbab")
add_case("P13", "separate_unbalanced_white", sep, kx=1, n=9, robust="white", regs="bababbbab", chow=False)
add_case("P13", "groupwise_kx2", grouped, kx=2, n=10, nk=False, y="con", xline=True)


def chow_kernel(ctx, spreg):
    """Chow tests and restrictions on symbolic coefficients"""
    from spreg import regimes as R
    for kr, kf, nr in ((1, 0, 2), (2, 0, 2), (2, 1, 2), (1, 1, 3), (2, 2, 3), (3, 0, 2)):
        K = kr * nr + kf
        b = ctx.freevec("b%d%d%d_" % (kr, kf, nr), [F(3 * i + 2, 5) for i in range(K)])
        V = ctx.A([[F(1, 2 + abs(i - j)) + (3 + i if i == j else 0) for j in range(K)] for i in range(K)])
        names = ["%d_%d" % (r, v) for r in range(nr) for v in range(kr)] + ["g%d" % i for i in range(kf)]
        joint, each = chow_ref(ctx, names, b, V, list(range(kr)), list(range(nr)), "%d_%d")
        j, e = R._chow_run(kr, kf, 0, nr, b, V)
        ctx.prove_eq("joint test", list(j), list(joint))
        ctx.prove_eq("tests by variable", e, pairs(each), shape=(kr, 2))
        Rm = R.buildR(kr, kf, nr)
        ctx.prove_true("restriction matrix", Rm.shape == (kr * (nr - 1), K), Rm.shape)
        for row in Rm:
            nz = [(names[i], int(v)) for i, v in enumerate(row) if int(v)]
            ctx.prove_true("each restriction compares one variable between two regimes", sorted(v for _, v in nz) == [-1, 1] and
                           len({s.split("_")[1] for s, _ in nz}) == 1, nz)

        class M:
            betas, vm = b, V
        w = R.Wald(M, Rm)
        ctx.prove_eq("general Wald test", [w.w, w.pvalue], list(joint))
    # exogenous and endogenous blocks: coefficients of the endogenous block follow all exogenous blocks
    for kx, ke, nr in ((2, 1, 2), (1, 2, 2), (2, 1, 3), (2, 2, 3)):
        K = (kx + ke) * nr
        b = ctx.freevec("c%d%d%d_" % (kx, ke, nr), [F(3 * i + 2, 5) for i in range(K)])
        V = ctx.A([[F(1, 2 + abs(i - j)) + (3 + i if i == j else 0) for j in range(K)] for i in range(K)])
        names = ["%d_%d" % (r, v) for r in range(nr) for v in range(kx)] + ["%d_%d" % (r, kx + v) for r in range(nr) for v in range(ke)]
        joint, each = chow_ref(ctx, names, b, V, list(range(kx + ke)), list(range(nr)), "%d_%d")
        j, e = R._chow_run(kx + ke, 0, ke, nr, b, V)
        ctx.prove_eq("joint test with endogenous block", list(j), list(joint))
        ctx.prove_eq("tests by variable with endogenous block", e, pairs(each))


add_case("P13", "chow_kernel", chow_kernel)


def spatial(ctx, spreg):
    """spatial diagnostics of the regime model are those of the interacted regression"""
    p = ctx.p
    n, regs, y, x, nx = data(ctx)
    w = ctx.W(G8 if n == 8 else G9)
    Wd = ctx.dense(w)
    m = spreg.OLS_Regimes(y, x, list(regs), w=w, spat_diag=True, nonspat_diag=False, regime_err_sep=p["sep"], name_x=list(nx), name_y="y")
    X, _ = block(ctx, const(ctx, x), regs, [True] * (x.shape[1] + 1))
    o = OLSRef(ctx, y, X)
    d = ctx.dot
    T = trace(d(Wd.T, Wd) + d(Wd, Wd))
    a = sc(d(o.e.T, Wd, o.e)) / o.s2n
    c = sc(d(o.e.T, Wd, y)) / o.s2n
    Wf = d(Wd, o.fit)
    M = Wf - d(X, o.xtxi, X.T, Wf)
    J = sc(d(Wf.T, M)) / o.s2n + T
    # published attribute names of the diagnostics block
    for nm, v in (("lm_error", a * a / T), ("lm_lag", c * c / J), ("rlm_error", (a - T / J * c) ** 2 / (T * (1 - T / J))),
                  ("rlm_lag", (c - a) ** 2 / (J - T))):
        if hasattr(m, nm):
            ctx.prove_eq(nm, list(getattr(m, nm)), [v, ctx.chi2sf(v, 1)])
        else:
            ctx.prove_true(nm, False, "missing")


add_case("P13", "spatial_common", spatial, sep=False)
add_case("P13", "spatial_separate", spatial, sep=True)


def constants(ctx, spreg):
    """regressors constant within a regime are dropped from separate estimation with a warning"""
    n = 8
    regs = REG8[:n]
    y = yline(ctx, n)
    x = np.hstack([cols(ctx, X1, n=n), ctx.col([1 if v == "a" else i for i, v in enumerate(regs)]), cols(ctx, X2, n=n)])
    m = spreg.OLS_Regimes(y, x, list(regs), name_x=["p", "c", "q"], nonspat_diag=False)
    ctx.prove_true("names", list(m.name_x) == ["a_CONSTANT", "a_p", "a_q", "b_CONSTANT", "b_p", "b_q"], m.name_x)
    ctx.prove_true("warning", "c" in getattr(m, "warning", "") and "constant" in m.warning, getattr(m, "warning", ""))
    bs = []
    for r in ("a", "b"):
        i = ids_of(regs, r)
        bs.append(OLSRef(ctx, y[i], const(ctx, x[i][:, [0, 2]])).b)
    ctx.prove_eq("coefficients", m.betas, np.vstack(bs))
    ctx.raises("one regime", lambda: spreg.OLS_Regimes(y, x[:, :1], ["a"] * n))
    ctx.raises("wrong number of labels", lambda: spreg.OLS_Regimes(y, x[:, :1], ["a", "b"] * 3))
    ctx.raises("too many regimes", lambda: spreg.OLS_Regimes(y, x[:, :1], list(range(n))))
    ctx.raises("wrong column selection", lambda: spreg.OLS_Regimes(y, x[:, :1], list(regs), cols2regi=[True, False]))


add_case("P13", "constants", constants)
