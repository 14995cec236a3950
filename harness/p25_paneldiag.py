"""specification tests of panel models: 3..5 units, 2..3 periods, response on a symbolic line, fixed regressors, asymmetric weights;
conditional random effects test at any lambda in the box of the pooled error model; Hausman test for any symbolic coefficients and
variances (2 or 3 coefficients)."""
from symx.ctx import add_case
from common import *
from p22_panel import *
from p23_panelml import data, stackW


def pooled_setup(ctx, p):
    N, T, y, X, w, Wd, gy, gx, kw, ny, names = data(ctx, dict(p, line=p.get("line", True)))
    Z = const(ctx, X)
    return N, T, y, X, Z, w, Wd, gy, gx, kw


def lm(ctx, spreg):
    p = ctx.p
    from spreg import diagnostics_panel as D
    N, T, y, X, Z, w, Wd, gy, gx, kw = pooled_setup(ctx, p)
    d = ctx.dot
    o = OLSRef(ctx, y, Z)
    s2 = o.s2nk
    tr = (Wd * (Wd + Wd.T)).sum()
    wxb = stackW(ctx, Wd, o.fit, T)
    M = OLSRef(ctx, wxb, Z).rss
    J = M / s2 + T * tr
    ry = (o.e * stackW(ctx, Wd, y, T)).sum() / s2
    ru = (o.e * stackW(ctx, Wd, o.e, T)).sum() / s2
    which = p.get("which", ["lag", "error", "rlag", "rerror"])
    chi = lambda v: [v, ctx.chi2sf(v, 1)]
    if "lag" in which:
        ctx.prove_eq("LM lag", list(D.panel_LMlag(gy, gx, w)), chi(ry * ry / J), known=[("panel-lmlag-trace", chi(ry * ry / (M / s2 + tr * tr)))])
    if "error" in which:
        ctx.prove_eq("LM error", list(D.panel_LMerror(gy, gx, w)), chi(ru * ru / (T * tr)))
    if "rlag" in which:
        v = ry - ru
        ctx.prove_eq("robust LM lag", list(D.panel_rLMlag(gy, gx, w)), chi(v * v / (J - T * tr)))
    if "rerror" in which:
        v = ru - T * tr / J * ry
        ctx.prove_eq("robust LM error", list(D.panel_rLMerror(gy, gx, w)), chi(v * v / (T * tr * (1 - T * tr / J))))


class Model:
    pass


def hausman(ctx, spreg):
    """any coefficients and variances"""
    p = ctx.p
    from spreg.diagnostics_panel import panel_Hausman
    k, par = p["k"], p["par"]
    fe, re = Model(), Model()
    q = k + 1 if par == "rho" else k          # compared coefficients
    bf = [ctx.var("f%d" % i, F(3 * i + 2, 4)) for i in range(k + 1)]
    br = [ctx.var("r%d" % i, F(5 * i + 1, 6)) for i in range(k + 3)]     # constant, slopes, spatial parameter, variance ratio

    def sym_(nm, m, add):
        A = ctx.zeros((m, m))
        for i in range(m):
            for j in range(i, m):
                # variances in (add, add + 1), covariances small
                full = i == j or (i, j) == (1, 2)
                A[i, j] = A[j, i] = ctx.var(nm + "%d%d" % (i, j), F(add) + F(i + 1, m + 2), add, add + 1) if i == j else \
                    (ctx.var(nm + "%d%d" % (i, j), F(1, 5), 0, F(1, 3)) if full else ctx.num(F(1, 7 + i + j)))
        return A
    fe.betas, re.betas = ctx.colvec(bf), ctx.colvec(br)
    setattr(fe, par, bf[-1])
    setattr(re, par, br[k + 1])
    fe.varb, re.varb = sym_("V", q, 3), sym_("S", q + 1, 1)
    fe.k, re.k = k + 1, k + 2
    h, pv = panel_Hausman(fe, re)
    dd = ctx.colvec([bf[i] - br[i + 1] for i in range(q)])
    A = fe.varb - re.varb[1:, 1:]
    ref = sc(ctx.dot(dd.T, ctx.inv(A), dd))
    ctx.prove_eq("Hausman test", [h, pv], [ref, ctx.chi2sf(ref, q)], known=[("panel-hausman-sign", [-ref, ctx.chi2sf(-ref, re.k)])])
    for a, b in ((Model(), re), (fe, Model())):
        ctx.raises("models of different kinds are refused", lambda: panel_Hausman(a, b))


NAMES = dict(LM1="LM Marginal RE (LM1)", LM2="LM Marginal Spatial (LM2)", LMJ="LM Joint (LMJ)", LMC_spatial="LM Conditional Spatial",
             LMC_RE="LM Conditional RE")
ORDER = ["LM1", "LM2", "LMJ", "LMC_spatial", "LMC_RE"]


def bsk(ctx, spreg):
    p = ctx.p
    from spreg.diagnostics_panel import BSK_tests
    ctx.opaque()
    if p.get("gm") or p.get("model") == "gm":
        ctx.cut("optim_moments")
    N, T, y, X, Z, w, Wd, gy, gx, kw = pooled_setup(ctx, p)
    n, d = N * T, ctx.dot
    which = p.get("which", "all")
    model = p.get("model", "pooled")
    opts = dict(GM_BSK=True) if p.get("gm") else {}
    if model == "pooled":
        if p.get("direct"):
            m = spreg.PooledOLS(gy, gx, w, spat_diag=False, **kw)
            t = BSK_tests(m, w, which=which, **opts)
        else:
            m = spreg.PooledOLS(gy, gx, w, spat_diag=True, BSK_list=which, **kw)
            t = m.bsk
    elif model == "re":
        m = spreg.PanelRE(gy, gx, w, **kw)
        t = m.bsk if which == ["LMC_spatial"] else BSK_tests(m, w, which=which, **opts)
    elif model == "fe":
        m = spreg.PanelFE(gy, gx, w, **kw)
        t = BSK_tests(m, w, which=which, **opts)
    else:
        m = (spreg.ML_ErrorPooled if model == "ml" else spreg.GM_ErrorPooled)(gy, gx, w, **kw)
        t = m.bsk if which == ["LMC_RE"] else BSK_tests(m, w, which=which, **opts)
    want = ORDER if which == "all" else [which] if isinstance(which, str) else [v for v in ORDER if v in which]
    ctx.prove_true("tests reported", list(t["Test"]) == [NAMES[v] for v in want], list(t["Test"]))
    ctx.prove_true("degrees of freedom", list(t["df"]) == [2 if v == "LMJ" else 1 for v in want], list(t["df"]))
    got = dict(zip(want, zip(list(t["Statistic"]), list(t["p-value"]))))
    o = OLSRef(ctx, y, Z)
    b = (Wd * (Wd + Wd.T)).sum()
    if {"LM1", "LM2", "LMJ"} & set(want):
        mean = per_unit(ctx, o.e, N, T)
        g = ctx.num(T * T) * (mean * mean).sum() / o.rss - 1
        h = (o.e * stackW(ctx, Wd, o.e, T)).sum() / o.rss
        l1 = g * ctx.sqrt(ctx.num(F(n, 2 * (T - 1))))
        l2 = h * ctx.num(N) * ctx.sqrt(T / b)
        for nm, v in (("LM1", l1), ("LM2", l2)):
            if nm in got:
                ctx.prove_eq(NAMES[nm], list(got[nm]), [v, ctx.normsf(v)])
        if "LMJ" in got:
            a, c = (l1 if l1 > 0 else ctx.num(0)), (l2 if l2 > 0 else ctx.num(0))
            j = a * a + c * c
            pv = ctx.chi2sf(j, 1) / 2 + ctx.chi2sf(j, 2) / 4 if j > 0 else ctx.num(1)
            ctx.prove_eq(NAMES["LMJ"], list(got["LMJ"]), [j, pv])
    if "LMC_spatial" in got:
        mod = m if model == "re" else spreg.PanelRE(gy, gx, w, spat_diag=False, **kw)     # its estimates are the matter of P22
        u = y - d(Z, mod.betas)
        um = np.vstack([per_unit(ctx, u, N, T)] * T)
        s1, sv = (um * um).sum() / N, ((u - um) * (u - um)).sum() / (N * (T - 1))
        q = lambda a: (a * stackW(ctx, Wd, a, T)).sum()
        score = sv / (s1 * s1) * q(um) + q(u - um) / sv
        v = score / ctx.sqrt(((T - 1) + sv * sv / (s1 * s1)) * b)
        ctx.prove_eq(NAMES["LMC_spatial"], list(got["LMC_spatial"]), [v, ctx.normsf(v)])
    if "LMC_RE" in got:
        lam = list(ctx.opt.calls[-1]["x"])[0]
        B = ctx.eye(N) - lam * Wd
        f = lambda a: a - lam * stackW(ctx, Wd, a, T)
        lb = lam if not (p.get("gm") or model == "gm") else list(ctx.opt.calls[-2]["x"])[0]
        fb = lambda a: a - lb * stackW(ctx, Wd, a, T)
        u = y - d(Z, OLSRef(ctx, fb(y), fb(Z)).b)
        e = f(u)
        s2 = (e * e).sum() / n
        BB = d(B.T, B)
        R = d(Wd.T, B) + d(B.T, Wd)
        iR = d(R, ctx.inv(BB))
        um = T * per_unit(ctx, u, N, T)
        h = trace(BB)
        score = -T * h / (2 * s2) + sc(d(um.T, BB, BB, um)) / (2 * s2 * s2)
        # information of (sigma2_v, sigma2_mu, lambda) where sigma2_mu = 0, up to the factor T / 2
        I = ctx.A([[N / (s2 * s2), h / (s2 * s2), trace(iR) / s2],
                   [h / (s2 * s2), T * trace(d(BB, BB)) / (s2 * s2), trace(R) / s2],
                   [trace(iR) / s2, trace(R) / s2, trace(d(iR, iR))]])
        v, pv = got["LMC_RE"]
        i11 = (I[0, 0] * I[2, 2] - I[0, 2] * I[0, 2])
        det = ctx.det(I)
        ctx.prove_eq("square of " + NAMES["LMC_RE"], v * v * det * T, 2 * score * score * i11)
        ctx.prove_ge("sign of " + NAMES["LMC_RE"], v * score)
        ctx.prove_eq("p-value of " + NAMES["LMC_RE"], pv, ctx.normsf(v))


for nm, q in (("long", dict()), ("wide", dict(layout="wide", xs=["X1", "X2"])), ("T3", dict(T=3, N=3)), ("N5", dict(N=5)), ("T4", dict(T=4, N=3))):
    add_case("P25", "lm_" + nm, lm, **q)
for k in (1, 2):
    add_case("P25", "hausman_lag_%d" % k, hausman, k=k, par="rho")
    add_case("P25", "hausman_error_%d" % k, hausman, k=k, par="lam")
marg = ["LMJ", "LM1", "LM2"]
for nm, q in (("marginal", dict(which=marg)), ("marginal_T3", dict(which=marg, T=3, N=3)), ("marginal_wide", dict(which=marg, layout="wide", N=5, xs=["X1", "X2"])),
              ("lm1", dict(which="LM1", direct=True)), ("lm2", dict(which="LM2", direct=True)), ("lmj", dict(which=["LMJ"])),
              ("marginal_re", dict(which=marg, model="re")), ("marginal_fe", dict(which=marg, model="fe")),
              ("spatial", dict(which=["LMC_spatial"])), ("spatial_T3", dict(which=["LMC_spatial"], T=3, N=4)),
              ("spatial_re", dict(which=["LMC_spatial"], model="re", T=3)), ("re", dict(which=["LMC_RE"])),
              ("re_T3", dict(which=["LMC_RE"], T=3, N=3)), ("re_ml", dict(which=["LMC_RE"], model="ml", line=False)),
              ("re_gm", dict(which=["LMC_RE"], model="gm", line=False)), ("re_bsk_gm", dict(which="LMC_RE", gm=True, line=False, direct=True)),
              ("re_wide", dict(which=["LMC_RE"], layout="wide", N=5, xs=["X1", "X2"], line=False)),
              ("all", dict(which="all", line=False)), ("all_re", dict(which="all", model="re", line=False)), ("all_ml", dict(which="all", model="ml", line=False))):
    add_case("P25", "bsk_" + nm, bsk, **q)
