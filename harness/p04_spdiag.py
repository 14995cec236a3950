"""LM and Moran diagnostics: n = 5..9, k = 3..4 coefficients; y fully symbolic or on a line; row-standardised contiguity, asymmetric
nearest-neighbour style weights, and unstandardised weights with two symbolic entries."""
from symx.ctx import add_case
from common import *


def weights(ctx, kind, n):
    if kind == "contig":
        w = ctx.W({5: G5, 6: G6, 7: G7, 8: G8, 9: G9}[n])
    elif kind == "asym":
        w = ctx.W({6: D6, 8: D8}[n])
    elif kind == "symw":
        a, b = ctx.var("wa", F(3, 4), 0), ctx.var("wb", F(2, 5), 0)
        nb = {6: D6, 5: G5}[n]
        wt = {i: [ctx.num(F(i + j + 2, 3 + i)) for j in range(len(v))] for i, v in nb.items()}
        wt[0][0], wt[3][1] = a, b
        w = ctx.W(nb, wt, transform=None)
    return w, ctx.dense(w)


class Ref:
    def __init__(self, ctx, y, X, Wd):
        d, N = ctx.dot, ctx.num
        self.r = r = OLSRef(ctx, y, X)
        n, k = r.n, r.k
        s2 = r.s2n
        e = r.e
        M = ctx.eye(n) - d(X, r.xtxi, X.T)
        self.T = trace(d(Wd.T, Wd) + d(Wd, Wd))
        wy, wf, we = d(Wd, y), d(Wd, r.fit), d(Wd, e)
        dl, dr = sc(d(e.T, we)) / s2, sc(d(e.T, wy)) / s2
        nJ = self.T + sc(d(wf.T, d(M, wf))) / s2
        T = self.T
        self.lme = dl * dl / T
        self.lml = dr * dr / nJ
        self.rlml = (dr - dl) * (dr - dl) / (nJ - T)
        t = dl - T / nJ * dr
        self.rlme = t * t / (T * (1 - T / nJ))
        self.sarma = self.lme + self.rlml
        wx = d(Wd, X[:, 1:])
        g = d(wx.T, e)
        self.lmwx = sc(d(g.T, ctx.inv(d(wx.T, M, wx)), g)) / s2
        V = np.hstack([wf, wx])
        I = d(V.T, M, V)
        I[0, 0] = I[0, 0] + T * s2
        sco = np.vstack([d(wy.T, e), g])
        self.sdm = sc(d(sco.T, ctx.inv(I), sco)) / s2
        s0 = Wd.sum()
        self.I = N(n) * sc(d(e.T, we)) / (s0 * r.rss)
        MW = d(M, Wd)
        t1 = trace(MW)
        self.eI = N(n) / s0 * t1 / N(n - k)
        t2 = trace(d(MW, M, Wd.T)) + trace(d(MW, MW))
        self.vI = N(n * n) / (s0 * s0) * ((t2 + t1 * t1) / N((n - k) * (n - k + 2)) - t1 * t1 / N((n - k) ** 2))


def st(ctx, x, df):
    return [x, ctx.chi2sf(x, df)]


def lm(ctx, spreg):
    p = ctx.p
    n, kx = p["n"], p["k"]
    y = yfull(ctx, n) if p["y"] == "full" else yline(ctx, n)
    x = cols(ctx, X1, X2, X3, n=n)[:, :kx]
    X = const(ctx, x)
    w, Wd = weights(ctx, p["w"], n)
    m = spreg.OLS(y, x, w=w, spat_diag=True, moran=p.get("moran", True), nonspat_diag=False)
    R = Ref(ctx, y, X, Wd)
    k = kx + 1
    ctx.prove_eq("LM error", m.lm_error, st(ctx, R.lme, 1))
    ctx.prove_eq("LM lag", m.lm_lag, st(ctx, R.lml, 1))
    ctx.prove_eq("robust LM error", m.rlm_error, st(ctx, R.rlme, 1))
    ctx.prove_eq("robust LM lag", m.rlm_lag, st(ctx, R.rlml, 1))
    ctx.prove_eq("SARMA", m.lm_sarma, st(ctx, R.sarma, 2))
    ctx.prove_eq("LM WX", m.lm_wx, st(ctx, R.lmwx, k - 1))
    ctx.prove_eq("LM SDM", m.lm_spdurbin, st(ctx, R.sdm, k))
    ctx.prove_eq("robust LM WX", m.rlm_wx, st(ctx, R.sdm - R.lml, k - 1))
    ctx.prove_eq("robust LM lag SDM", m.rlm_durlag, st(ctx, R.sdm - R.lmwx, 1))
    ctx.prove_eq("SLX error", m.lm_slxerr, st(ctx, R.lme + R.lmwx, k))
    ctx.prove_eq("additivity", [m.lm_lag[0] + m.rlm_error[0], m.lm_error[0] + m.rlm_lag[0]], [m.lm_sarma[0]] * 2)
    ctx.prove_ge("LM error nonnegative", m.lm_error[0], 0)
    if p.get("moran", True):
        mr = spreg.MoranRes(m, w, z=True)
        ctx.prove_eq("Moran I, mean, variance", [mr.I, mr.eI, mr.vI], [R.I, R.eI, R.vI])
        z = (R.I - R.eI) / ctx.sqrt(R.vI)
        ctx.prove_eq("Moran z", [mr.zI, mr.p_norm], [z, ctx.p2(z)])
        ctx.prove_eq("Moran attributes", m.moran_res, [R.I, z, ctx.p2(z)])


for kind, n in (("contig", 6), ("asym", 6)):
    add_case("P04", "full_%s_n%d" % (kind, n), lm, n=n, k=2, y="full", w=kind)
    add_case("P04", "line_%s_n8_k3" % kind, lm, n=8, k=3, y="line", w=kind)
add_case("P04", "line_symw_n6", lm, n=6, k=2, y="line", w="symw")
add_case("P04", "full_contig_n9_k3", lm, tier="thorough", n=9, k=3, y="full", w="contig")
add_case("P04", "full_symw_n5_k2", lm, tier="thorough", n=5, k=2, y="line", w="symw")


def slx(ctx, spreg):
    """diagnostics of an SLX fit use the augmented design"""
    n = 7
    y = yline(ctx, n)
    x = cols(ctx, X1, X2, n=n)
    w, Wd = weights(ctx, "contig", n)
    m = spreg.OLS(y, x, w=w, slx_lags=1, spat_diag=True, nonspat_diag=False)
    X = np.hstack([const(ctx, x), ctx.dot(Wd, x)])
    r = OLSRef(ctx, y, X)
    s2, e = r.s2n, r.e
    T = trace(ctx.dot(Wd.T, Wd) + ctx.dot(Wd, Wd))
    M = ctx.eye(n) - ctx.dot(X, r.xtxi, X.T)
    wf = ctx.dot(Wd, r.fit)
    nJ = T + sc(ctx.dot(wf.T, M, wf)) / s2
    dl, dr = sc(ctx.dot(e.T, Wd, e)) / s2, sc(ctx.dot(e.T, Wd, y)) / s2
    ctx.prove_eq("LM error", m.lm_error, st(ctx, dl * dl / T, 1))
    ctx.prove_eq("LM lag", m.lm_lag, st(ctx, dr * dr / nJ, 1))
    ctx.prove_eq("SARMA", m.lm_sarma, st(ctx, dl * dl / T + (dr - dl) * (dr - dl) / (nJ - T), 2))


add_case("P04", "slx", slx)


def slxlm(ctx, spreg):
    """the standalone test class gives the same numbers as the model attributes, whichever subset is asked for"""
    n = 6
    y = yline(ctx, n)
    x = cols(ctx, X1, X2, n=n)
    w, Wd = weights(ctx, "asym", n)
    m = spreg.OLS(y, x, w=w, nonspat_diag=False)
    R = Ref(ctx, y, const(ctx, x), Wd)
    a = spreg.LMtests(m, w)
    want = dict(lme=(R.lme, 1), lml=(R.lml, 1), rlme=(R.rlme, 1), rlml=(R.rlml, 1), sarma=(R.sarma, 2), lmwx=(R.lmwx, 2),
                lmspdurbin=(R.sdm, 3), rlmwx=(R.sdm - R.lml, 2), rlmdurlag=(R.sdm - R.lmwx, 1), lmslxerr=(R.lme + R.lmwx, 3))
    for t, (v, df) in want.items():
        ctx.prove_eq("all: " + t, getattr(a, t), st(ctx, v, df))
        b = spreg.LMtests(m, w, tests=[t])
        ctx.prove_eq("single: " + t, getattr(b, t), st(ctx, v, df))


add_case("P04", "standalone", slxlm)


def ak(ctx, spreg):
    """AK test with no spatial endogenous variable is the LM error form in the 2SLS residuals"""
    n = 7
    y = yline(ctx, n)
    x = cols(ctx, X1, n=n)
    ye, q = cols(ctx, YE, n=n), cols(ctx, Q1, Q2, n=n)
    w, Wd = weights(ctx, "contig", n)
    m = spreg.TSLS(y, x, ye, q, w=w, spat_diag=True)
    X = const(ctx, x)
    r = TSLSRef(ctx, y, np.hstack([X, ye]), np.hstack([X, q]))
    T = trace(ctx.dot(Wd.T, Wd) + ctx.dot(Wd, Wd))
    c = sc(ctx.dot(r.e.T, Wd, r.e)) / r.s2n
    a = ctx.dot(r.e.T, Wd, r.Z)
    v = c * c / (T + 4 / r.s2n * sc(ctx.dot(a, r.varb, a.T)))
    ctx.prove_eq("AK general", m.ak_test, st(ctx, v, 1))
    k = spreg.AKtest(m, w, case="gen")
    ctx.prove_eq("AK class", [k.ak, k.p], st(ctx, v, 1))
    k = spreg.AKtest(m, w, case="nosp")
    ctx.prove_eq("AK no spatial", [k.ak, k.p], st(ctx, c * c / T, 1))
    ctx.prove_eq("AK Moran", k.mi, ctx.num(n) * sc(ctx.dot(r.e.T, Wd, r.e)) / (Wd.sum() * r.rss))


add_case("P04", "ak", ak)
