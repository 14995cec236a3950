"""Multipliers and impacts: n = 4..10; rho symbolic in (-1,1) (power expansion: |rho| <= 2/5), coefficients symbolic through y; printed
tables are traced back to the expressions they show; WX of order 0..2, masks, regimes with common and varying columns."""
import contextlib, io
from symx.ctx import add_case
from common import *
from p14_tslsreg import G10, G14

BIP = {0: [2, 3], 1: [2, 3, 4], 2: [0, 1], 3: [0, 1], 4: [1]}


def multipliers(ctx, spreg):
    p = ctx.p
    w = ctx.W(p["nb"])
    n, Wd = w.n, ctx.dense(w)
    rho = ctx.var("rho", F(2, 5), -1, 1)
    t = 1 / (1 - rho)
    a = trace(ctx.inv(ctx.eye(n) - rho * Wd)) / ctx.num(n)
    for r, lab in ((rho, "number"), (ctx.vec1([rho]), "array")):
        for meth in ("simple", "full", "strange"):
            m = spreg.sputils.spmultiplier(w, r, method=meth)
            ctx.prove_eq("total multiplier, %s %s" % (meth, lab), m["ati"], t)
            ctx.prove_eq("direct multiplier, %s %s" % (meth, lab), m["adi"], a if meth == "full" else ctx.num(1))
            ctx.prove_eq("indirect multiplier, %s %s" % (meth, lab), m["aii"], t - (a if meth == "full" else 1))
            ctx.prove_true("method name", m["method"] == (meth if meth != "strange" else "simple") and bool(m["warn"]) == (meth == "strange"))


def power(ctx, spreg):
    p = ctx.p
    w = ctx.W(p["nb"])
    n, Wd = w.n, ctx.dense(w)
    lim = p.get("lim", F(1, 4))
    rho = ctx.var("rho", F(1, 8), F(1, 50), lim) if p["pos"] else ctx.var("rho", F(-1, 8), -lim, F(-1, 50))
    m = spreg.sputils.spmultiplier(w, ctx.vec1([rho]), method="power")
    a = trace(ctx.inv(ctx.eye(n) - rho * Wd)) / ctx.num(n)
    d = flat(m["adi"])[0] - a
    eps = ctx.num(F(1, 10**6))
    ctx.prove_ge("direct multiplier of the power method is the mean diagonal (above)", eps - d)
    ctx.prove_ge("direct multiplier of the power method is the mean diagonal (below)", eps + d)
    ctx.prove_eq("total multiplier", m["ati"], 1 / (1 - rho))
    ctx.prove_eq("indirect multiplier", m["aii"], 1 / (1 - rho) - flat(m["adi"])[0])


def observations(ctx, spreg):
    """per-observation multipliers"""
    p = ctx.p
    S = spreg.sputils
    w = ctx.W(G5)
    n, Wd = w.n, ctx.dense(w)
    rho = ctx.var("rho", F(2, 5), -1, 1)
    inv = ctx.inv(ctx.eye(n) - rho * Wd)
    wt = ctx.A([[ctx.var("k%d%d" % (i, j), F(2 + i + 2 * j, 9), 0) if (j in G5[i] or i == j) else ctx.num(0) for j in range(n)] for i in range(n)])
    off = lambda M: M - ctx.diag(diagvec(M))
    for lab, src, model, full, direct in (("lag", w, "lag", off(inv), diagvec(inv)), ("slx", w, "slx", Wd, [ctx.num(0)] * n),
                                         ("kernel", wt, "kernel", off(wt), diagvec(wt)), ("dense lag", Wd, "lag", off(inv), diagvec(inv))):
        keep = full + ctx.num(0)
        o = S.i_multipliers(src, coef=rho, model=model)
        ctx.prove_true("columns", list(o.columns) == ["ID", "Direct", "EofNbrs", "EonNbrs"] and len(o) == n, list(o.columns))
        ctx.prove_eq("direct effect, " + lab, list(o["Direct"]), list(direct))
        ctx.prove_eq("effect of neighbours, " + lab, list(o["EofNbrs"]), [full[i].sum() for i in range(n)])
        ctx.prove_eq("effect on neighbours, " + lab, list(o["EonNbrs"]), [full[:, i].sum() for i in range(n)])
        if src is wt:
            ctx.prove_eq("weights are left alone", off(wt), keep)
    D = off(wt)
    sp = S.SP.csr_matrix(D)
    c = ctx.var("c", F(1, 2), 0)
    o = S.i_multipliers(sp, coef=2, model="power")
    ctx.prove_eq("power decay", [list(o["EofNbrs"]), list(o["EonNbrs"])], [[(D * D)[i].sum() for i in range(n)], [(D * D)[:, i].sum() for i in range(n)]])
    o = S.i_multipliers(sp, coef=c, model="exponential")
    E = [[ctx.exp(-c * D[i, j]) if (j in G5[i]) else ctx.num(0) for j in range(n)] for i in range(n)]
    ctx.prove_eq("exponential decay", list(o["EofNbrs"]), [sum(E[i], ctx.num(0)) for i in range(n)])
    ctx.prove_eq("decay weights are left alone", sp.toarray(), D)
    for bad in ((sp, "lag"), (w, "power"), ([1], "lag")):
        ctx.raises("unsupported", lambda: S.i_multipliers(bad[0], model=bad[1]))


def impacts_shown(summary):
    """method -> {variable: figures}"""
    out, cur = {}, None
    for l in summary.splitlines():
        if l.startswith("Impacts computed using"):
            cur = out.setdefault(l.split("'")[1], {})
        elif cur is not None:
            f = l.split()
            if len(f) == 4 and f[0] != "Variable":
                cur[f[0]] = f[1:]
            elif len(f) != 4:
                cur = None
    return out


def check(ctx, m, rho, Wd, names, slx, summary, prefix=""):
    """names: variable -> names of its WX terms"""
    n = Wd.shape[0]
    tab = table_by_name(m)
    rho = flat(rho)[0]
    shown = impacts_shown(summary)
    if not abs(rho) < 1:
        ctx.prove_true("no impacts outside (-1,1)", m.sp_multipliers is None and not shown and "Omitted since" in summary)
        return
    t = 1 / (1 - rho)
    a = trace(ctx.inv(ctx.eye(n) - rho * Wd)) / ctx.num(n)
    ctx.prove_true("methods", sorted(m.sp_multipliers) == ["full", "simple"] and sorted(shown) == ["full", "simple"], sorted(shown))
    for meth, d in (("simple", ctx.num(1)), ("full", a)):
        ctx.prove_eq("multipliers, " + meth, list(m.sp_multipliers[meth]), [d, t - d, t])
        got = shown.get(meth, {})
        ctx.prove_true("variables with impacts, " + meth, sorted(got) == sorted(names), sorted(got))
        for v, wx in names.items():
            if v in got and v in tab:
                b = tab[v][0]
                g = sum((tab[x][0] for x in wx if x in tab), ctx.num(0))
                ctx.prove_true("WX terms are in the table", all(x in tab for x in wx), wx)
                ctx.prove_shown("impacts of a variable, " + meth, got[v], [b * d, (b + g) * t - b * d, (b + g) * t], 4)


def ysar(ctx, nb, n):
    """y with a moderate spatial dependence in the first place, on a symbolic line"""
    base = [F(v) for v in X1[:n]]
    tail = [F(Y0[i], 12) + F(X2[i] if len(X2) > i else 0, 2) for i in range(n)]
    y = [F(0)] * n
    for _ in range(8):
        y = [(base[i] + tail[i] + F(1, 3) * sum(y[j] for j in nb[i]) / len(nb[i])).limit_denominator(200) for i in range(n)]
    return ctx.linevec([("s", F(3, 70))], y, D1[:n])


def lagname(v, j):
    return "W%s_%s" % ("" if j == 1 else j, v)


def model(ctx, spreg):
    p = ctx.p
    n = p.get("n", 6)
    nb = {5: G5, 6: D6, 8: G8, 10: G10, 14: G14}[n]
    w = ctx.W(nb)
    kx = p.get("kx", 2)
    x = cols(ctx, X1, X2, X3, n=n)[:, :kx]
    nx = ["p", "q", "r"][:kx]
    slx, mask = p.get("slx", 0), p.get("mask")
    kw = dict(name_x=list(nx), name_y="y", w=w, slx_lags=slx, spat_impacts=["simple", "full"], spat_diag=False)
    if mask:
        kw["slx_vars"] = list(mask)
    names = {v: [lagname(v, j) for j in range(1, slx + 1)] if (not mask or mask[i]) else [] for i, v in enumerate(nx)}
    if p["est"] == "ML":
        y = cols(ctx, Y0, n=n)
        m = spreg.ML_Lag(y, x, **kw)
    else:
        y = ysar(ctx, nb, n)
        if p.get("endo"):
            kw.update(yend=cols(ctx, YE, n=n), q=cols(ctx, Q1, n=n), name_yend=["e"], name_q=["h"])
        m = spreg.GM_Lag(y, x, **kw)
    check(ctx, m, m.rho, ctx.dense(w), names, slx, m.summary)


def regimes(ctx, spreg):
    p = ctx.p
    n = p.get("n", 8)
    nb = {8: G8, 10: {i: sorted({(i + 1) % 10, (i + 3) % 10, (i - 1) % 10}) for i in range(10)}, 14: G14}[n]
    w = ctx.W(nb)
    regs = list("abbaababbabaab")[:n]
    kx = p.get("kx", 1)
    x = cols(ctx, X1, X2, n=n)[:, :kx]
    nx = ["p", "q"][:kx]
    slx, mask, co, cl = p.get("slx", 0), p.get("mask"), p.get("const", "many"), p.get("cols", "all")
    kw = dict(name_x=list(nx), name_y="y", w=w, slx_lags=slx, spat_impacts=["simple", "full"], spat_diag=False, constant_regi=co)
    if mask:
        kw["slx_vars"] = list(mask)
    sep = p.get("sep")
    ke = 1 if p.get("endo") else 0
    use = [(i, v) for i, v in enumerate(nx) if not mask or mask[i]]
    cl = [True] * (kx + len(use) * slx + ke) if cl == "all" else list(cl)
    vx = {v: cl[i] for i, v in enumerate(nx)}
    for j in range(1, slx + 1):
        for k, (i, v) in enumerate(use):
            vx[lagname(v, j)] = cl[kx + (j - 1) * len(use) + k]
    if p.get("cols"):
        kw["cols2regi"] = list(cl)
    names = {}
    for i, v in enumerate(nx):
        wx = [lagname(v, j) for j in range(1, slx + 1)] if (not mask or mask[i]) else []
        for g in (["a", "b"] if vx[v] else ["_Global"]):
            names["%s_%s" % (g, v)] = ["%s_%s" % (g if vx[u] else "_Global", u) for u in wx]
    if sep:
        kw["regime_lag_sep"] = True
        if p["est"] == "GM":
            kw["regime_err_sep"] = True
    y = cols(ctx, Y0, n=n)
    if p["est"] == "ML":
        m = spreg.ML_Lag_Regimes(y, x, regimes=regs, **kw)
    else:
        y = ysar(ctx, nb, n)
        if ke:
            kw.update(yend=cols(ctx, YE, n=n), q=cols(ctx, Q1, n=n), name_yend=["e"], name_q=["h"])
        m = spreg.GM_Lag_Regimes(y, x, regimes=regs, **kw)
    if not sep:
        check(ctx, m, m.rho, ctx.dense(w), names, slx, m.summary)
        return
    tab = m.output
    for g in ("a", "b"):
        s = m.multi[g]
        i = [k for k in range(n) if regs[k] == g]
        sub = {k: [i.index(j) for j in nb[i[k]] if j in i] for k in range(len(i))}
        part = m.summary.split("REGIME %s" % g)[-1].split("REGIME ")[0] if "REGIME %s" % g in m.summary else m.summary
        s.output = tab
        check(ctx, s, s.rho, ctx.dense(ctx.W(sub)), {k: v for k, v in names.items() if k.startswith(g + "_")}, slx, part)


for nm, nb in (("G4", G4), ("G5", G5), ("D6", D6), ("BIP", BIP), ("C4", C4)):
    add_case("P17", "multipliers_" + nm, multipliers, nb=nb)
for nm, nb in (("G4", G4), ("G5", G5), ("D6", D6), ("BIP", BIP), ("C4", C4)):
    for pos in (True, False):
        add_case("P17", "power_%s_%s" % (nm, "pos" if pos else "neg"), power, nb=nb, pos=pos)
        add_case("P17", "power_wide_%s_%s" % (nm, "pos" if pos else "neg"), power, nb=nb, pos=pos, tier="thorough", lim=F(2, 5))
add_case("P17", "observations", observations)
for est in ("ML", "GM"):
    A = lambda nm, fn, **q: add_case("P17", "%s_%s" % (est, nm), fn, est=est, **q)
    A("lag", model)
    A("lag_3", model, kx=3, n=8)
    A("durbin", model, slx=1, n=8)
    A("durbin_2", model, slx=2, kx=1, n=8)
    A("durbin_mask_first", model, slx=1, mask=[True, False], n=8)
    A("durbin_mask_last", model, slx=1, mask=[False, True], n=8)
    A("durbin_mask_2", model, slx=2, mask=[False, True], n=8)
    A("regimes", regimes)
    A("regimes_common_constant", regimes, const="one", kx=2, n=10)
    A("regimes_common_column", regimes, cols=[True, False], kx=2, n=10)
    A("regimes_durbin", regimes, slx=1, n=10)
    A("regimes_durbin_kx2", regimes, slx=1, n=14 if est == "GM" else 10, kx=2, const="one", cols=[False, True, False, True])
    A("regimes_durbin_common_constant", regimes, slx=1, n=10, const="one")
    A("regimes_durbin_common_wx", regimes, slx=1, n=10, cols=[True, False])
    A("regimes_durbin_common_all", regimes, slx=1, n=14 if est == "GM" else 10, kx=2, cols=[True, False, True, False], const="one")
    A("regimes_durbin_2", regimes, slx=2, n=10, const="one")
    A("regimes_separate", regimes, sep=True, n=10)
    if est == "ML":
        A("regimes_durbin_mask", regimes, slx=1, n=10, kx=2, mask=[True, False], const="one")
        A("regimes_durbin_mask_last", regimes, slx=1, n=10, kx=2, mask=[False, True], const="one")
    else:
        A("lag_endog", model, endo=True, n=8)
        A("durbin_endog", model, endo=True, slx=1, n=10)
        A("durbin_endog_mask", model, endo=True, slx=1, n=8, mask=[True, False])
        A("regimes_endog", regimes, endo=True, n=10)
