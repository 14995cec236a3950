"""Maximum likelihood spatial error: n = 4..6, y on a symbolic line, lambda symbolic in (-1,1), symmetric and asymmetric weights; the
eigenvalue method on structures whose row-standardised spectrum is rational."""
from symx.ctx import add_case, REG
from common import *
import p08_mllag
from p08_mllag import setup


def results(ctx, spreg):
    p = ctx.p
    ctx.opaque()
    n, w, Wd, y, x = setup(ctx)
    if p.get("ycon"):
        y = cols(ctx, Y0, n=n)
    X = const(ctx, x)
    kw = {}
    if p.get("slx"):
        kw = dict(slx_lags=1)
        X = np.hstack([X, ctx.dot(Wd, x)])
    m = spreg.ML_Error(y, x, w=w, method=p["method"], **kw)
    d = ctx.dot
    k = X.shape[1]
    r = ctx.opt.calls[0]["x"][0]
    B = ctx.eye(n) - r * Wd
    g = OLSRef(ctx, d(B, y), d(B, X))
    ctx.prove_eq("coefficients", m.betas, np.vstack([g.b, ctx.colvec([r])]), shape=(k + 1, 1))
    u = y - d(X, g.b)
    ctx.prove_eq("residuals and fitted values", [m.u, m.predy], [u, y - u])
    ctx.prove_eq("filtered residuals", m.e_filtered, g.e)
    ctx.prove_eq("error variance", m.sig2, g.s2n)
    ctx.prove_eq("aic", m.aic, 2 * ctx.num(k) - 2 * m.logll)
    ctx.prove_eq("schwarz", m.schwarz, k * ctx.log(ctx.num(n)) - 2 * m.logll)
    ctx.prove_true("dimensions", (m.n, m.k) == (n, k), (m.n, m.k))
    WA = d(Wd, ctx.inv(B))
    t1, t2 = trace(WA), trace(d(WA, WA)) + trace(d(WA.T, WA))
    s2 = g.s2n
    info = ctx.A([[t2, t1 / s2], [t1 / s2, n / (2 * s2 * s2)]])
    known = []
    if p.get("alt"):
        S = p08_mllag.alike(ctx, Wd)
        SA = d(S, ctx.inv(ctx.eye(n) - r * S))
        i2 = info.copy()
        i2[0, 0] = info[0, 0] - trace(d(WA.T, WA)) + trace(d(SA.T, SA))
        known = [(p08_mllag.ORD, d(ctx.inv(i2), info))]
    ctx.prove_eq("inverse of the information matrix", d(m.vm1, info), ctx.eye(2), known=known, shape=(2, 2))
    v = np.vstack([np.hstack([s2 * g.xtxi, ctx.zeros((k, 1))]), np.hstack([ctx.zeros((1, k)), m.vm1[:1, :1]])])
    ctx.prove_eq("variance", m.vm, v, shape=(k + 1, k + 1))
    se = [ctx.sqrt(a) for a in diagvec(v)]
    ctx.prove_eq("standard errors", m.std_err, se)
    z = [m.betas[i, 0] / se[i] for i in range(k + 1)]
    ctx.prove_eq("z statistics", m.z_stat, pairs([(a, ctx.p2(a)) for a in z]))
    ctx.prove_eq("table", [list(m.output["coefficients"]), list(m.output["std_err"]), list(m.output["zt_stat"]), list(m.output["prob"])],
                 [m.betas, se, z, [ctx.p2(a) for a in z]])
    if p.get("pr2"):
        ctx.prove_eq("pseudo R2", m.pr2, p08_mllag.corr2(y, m.predy))


add_case("P09", "results_K4", results, s="K4", method="full")
add_case("P09", "results_C4_ord", results, s="C4", method="ord", ycon=True, pr2=True)
add_case("P09", "results_G5_lu", results, s="G5", method="LU", ycon=True, pr2=True)
add_case("P09", "results_D6_kx2", results, s="D6", method="full", kx=2, ycon=True)
add_case("P09", "results_CYC6_ord", results, s="CYC6", method="ord", ycon=True, pr2=True)
add_case("P09", "results_AS6_ord", results, s="AS6", method="ord", kx=2, ycon=True)
for s, alt in (("STAR5", True), ("sym", True), ("asym", False), ("sym_o", False), ("asym_o", False)):
    add_case("P09", "results_%s_ord" % s, results, s=s, method="ord", ycon=True, alt=alt)
add_case("P09", "results_slx", results, s="AS6", method="full", slx=True, ycon=True)


def required(ctx, spreg):
    n, w, Wd, y, x = setup(ctx)
    ctx.raises("weights required", lambda: spreg.ML_Error(y, x, w=None))
    ctx.raises("unknown method refused", lambda: spreg.ML_Error(y, x, w=w, method="nope"))


add_case("P09", "required", required, s="G5")
