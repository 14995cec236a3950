"""Spatially lagged regressors: every estimator offering slx_lags, orders 1..3, every selection mask of two or three columns,
asymmetric weights with symbolic entries, one symbolic regressor column; n = 6..9."""
from itertools import product
from symx.ctx import add_case
from common import *


def wsym(ctx, n, two=True):
    nb = {6: D6, 8: D8, 9: G9}[n]
    wt = {i: [ctx.num(F(i + j + 2, 9 + 4 * i)) for j in range(len(v))] for i, v in nb.items()}
    wt[0][0] = ctx.var("wa", F(1, 4), 0)
    if two:
        wt[3][1] = ctx.var("wb", F(1, 5), 0)
    w = ctx.W(nb, wt, transform=None)
    return w, ctx.dense(w)


def expand(ctx, x, names, Wd, slx, mask):
    sel = [j for j in range(x.shape[1]) if mask is None or mask[j]]
    out, nm, z = [x], list(names), x
    for j in range(1, slx + 1):
        z = ctx.dot(Wd, z)
        out.append(z[:, sel])
        nm += [("W_" if j == 1 else "W%d_" % j) + names[i] for i in sel]
    return np.hstack(out), nm


def masks(k):
    return [None] + [list(m) for m in product([True, False], repeat=k) if any(m)]


def builder(ctx, spreg):
    from spreg.user_output import flex_wx
    n = 6
    w, Wd = wsym(ctx, n)
    x = np.hstack([xline(ctx, n, X1, D1), cols(ctx, X2, X3, n=n)])
    names = ["a", "b", "c"]
    for slx in (1, 2, 3):
        for mask in masks(3):
            for c in (True, False):
                xx = const(ctx, x) if c else x
                nn = (["CONSTANT"] if c else []) + names
                big, bn = flex_wx(w, xx, list(nn), constant=c, slx_lags=slx, slx_vars="All" if mask is None else mask)
                E, en = expand(ctx, x, names, Wd, slx, mask)
                ctx.prove_eq("matrix order %d" % slx, big, const(ctx, E) if c else E)
                ctx.prove_true("names order %d" % slx, list(bn) == (["CONSTANT"] if c else []) + en, bn)
    ctx.raises("mask of wrong length", lambda: flex_wx(w, x, names, constant=False, slx_vars=[True, False]))


add_case("P07", "builder", builder)


def sel_instr(ctx, spreg):
    from spreg.user_output import flex_wx
    n = 6
    w, Wd = wsym(ctx, n)
    x = np.hstack([xline(ctx, n, X1, D1), cols(ctx, X2, n=n)])
    for slx, ql in product((1, 2), (1, 2)):
        for mask in masks(2):
            big, bn, q, qn = flex_wx(w, const(ctx, x), ["CONSTANT", "a", "b"], slx_lags=slx, slx_vars="All" if mask is None else mask, q_lags=ql)
            E, en = expand(ctx, x, ["a", "b"], Wd, slx, mask)
            ctx.prove_eq("matrix", big, const(ctx, E))
            ctx.prove_true("names", list(bn) == ["CONSTANT"] + en, bn)
            pw = [x]
            for j in range(slx + ql):
                pw.append(ctx.dot(Wd, pw[-1]))
            ctx.prove_true("instrument count", q.shape[1] == len(qn) == 2 * ql, (q.shape, qn))
            for j, s in enumerate(qn):
                o, v = s.split("_")
                o = int(o[1:] or 1)
                lo = slx if mask is None or mask["ab".index(v)] else 0
                ctx.prove_true("instrument lies beyond the model's own lags", lo < o <= lo + ql, (qn, slx, mask))
                ctx.prove_eq("instrument is the named lag", q[:, [j]], pw[o][:, ["ab".index(v)]])


add_case("P07", "selected_instruments", sel_instr)


def est(ctx, spreg):
    p = ctx.p
    ctx.cut("optim_moments")
    ctx.opaque()
    n = p.get("n", 8)
    w_ok = w = ctx.W({6: D6, 8: D8, 9: G9}[n])
    Wd = ctx.dense(w)
    y = cols(ctx, Y0, n=n)
    kx = p.get("kx", 2)
    x = cols(ctx, X1, X2, n=n)[:, :kx]
    ye, q = cols(ctx, YE, n=n), cols(ctx, Q1, Q2, n=n)
    slx, mask = p["slx"], p["mask"]
    kw = dict(w=w_ok, slx_lags=slx, slx_vars="All" if mask is None else list(mask), name_x=["a", "b"][:kx], name_y="y")
    est = p["est"]
    if p.get("endo"):
        kw.update(yend=ye, q=q, name_yend=["e"], name_q=["q1", "q2"])
    if est in ("OLS",):
        kw["nonspat_diag"] = False
    if est == "TSLS":
        kw["nonspat_diag"] = False
    if est in ("GM_Lag", "ML_Lag"):
        kw["spat_impacts"] = None
        kw["spat_diag"] = False
    if est == "ML_Error":
        kw["spat_diag"] = False
    if est == "Probit":
        y = cols(ctx, [0, 1, 1, 0, 1, 0, 0, 1, 1], n=n)
        kw.pop("name_y")
        kw["spat_diag"] = False
    kw.update(p.get("kw", {}))
    m = getattr(spreg, est)(y, x, **kw)
    E, en = expand(ctx, x, ["a", "b"][:kx], Wd, slx, mask)
    ctx.prove_eq("regressors", m.x, const(ctx, E))
    ctx.prove_true("regressor names", list(m.name_x)[:1 + len(en)] == ["CONSTANT"] + en, m.name_x)
    rows = list(m.output["var_names"])
    ctx.prove_true("table rows", rows[:1 + len(en)] == ["CONSTANT"] + en, rows)
    nb = len(m.betas)
    ctx.prove_true("one coefficient per row", nb == len(rows), (nb, rows))
    ctx.prove_eq("table coefficients", list(m.output["coefficients"]), np.asarray(m.betas).reshape(-1))


J = 0
for est_, extra in (("OLS", {}), ("TSLS", dict(endo=True)), ("GM_Lag", {}), ("ML_Lag", {}), ("ML_Error", {}), ("GM_Error", {}),
                    ("GM_Error_Het", {}), ("GM_Error_Hom", {}), ("GM_Endog_Error", dict(endo=True)),
                    ("GM_Endog_Error_Het", dict(endo=True)), ("GM_Endog_Error_Hom", dict(endo=True)),
                    ("GM_Combo", {}), ("GM_Combo_Het", {}), ("GM_Combo_Hom", {})):
    for slx, mask in ((1, None), (2, [False, True])):
        if est_.endswith("Endog_Error_Het") or est_.endswith("Combo_Het"):
            add_case("P07", "%s_%d" % (est_, slx), est, est=est_, slx=1, mask=None if slx == 1 else [True], n=6, kx=1, **extra)
            continue
        add_case("P07", "%s_%d" % (est_, slx), est, est=est_, slx=slx, mask=mask, n=9 if slx == 2 else 8, **extra)
