"""3SLS: 2 and 3 equations, n = 7..14, one or two endogenous regressors per equation, exactly and over-identified; all responses on one
symbolic line; regimes with two and three labels."""
from symx.ctx import add_case
from common import *
from surref import *
from p19_sur import YS, DS

ENDO = [[YE], [Q2], [X3]]
INST = [[Q1], [RES], [Q1, RES]]


def system(ctx, p):
    n, N = p.get("n", 9), p.get("N", 2)
    s = ctx.var("s", F(3, 7))
    ys = [ctx.col(YS[r][:n]) + ctx.col(DS[r][:n]) * s for r in range(N)]
    xs = [const(ctx, cols(ctx, *v, n=n)) for v in p.get("xs", ([X1], [X2], [X1, X2]))[:N]]
    es = [cols(ctx, *v, n=n) for v in p.get("es", ENDO)[:N]]
    qs = [cols(ctx, *v, n=n) for v in p.get("qs", INST)[:N]]
    if p.get("eline"):
        es[0] = ctx.col(YE[:n]) + ctx.col(D2[:n]) * s
    nx = {r: ["c%d" % r] + ["x%d_%d" % (i, r) for i in range(1, xs[r].shape[1])] for r in range(N)}
    ne = {r: ["e%d_%d" % (i, r) for i in range(es[r].shape[1])] for r in range(N)}
    nq = {r: ["q%d_%d" % (i, r) for i in range(qs[r].shape[1])] for r in range(N)}
    return n, N, ys, xs, es, qs, nx, ne, nq


def d_(lst):
    return dict(enumerate(lst))


def c_(names):
    return {r: list(v) for r, v in names.items()}


def ref(ctx, ys, Xs, Es, Qs, cut=False):
    """(Z, projected regressors, 2SLS residuals, GLS)"""
    Zs, Zh, E = [], [], []
    for y, X, e, q in zip(ys, Xs, Es, Qs):
        H, Z = np.hstack([X, q]), np.hstack([X, e])
        t = TSLSRef(ctx, y, Z, H)
        Zs.append(Z)
        Zh.append(t.Zh)
        E.append(t.e)
    return Zs, Zh, np.hstack(E), (Est(ctx, 0, ys, Zh, np.hstack(E)) if cut else GLS(ctx, ys, Zh, np.hstack(E)))


def estimates(ctx, m, ys, Zs, E, g):
    n, N = E.shape
    for r in range(N):
        ctx.prove_eq("coefficients of equation %d" % r, m.b3SLS[r], g.bs[r], shape=g.bs[r].shape)
    ctx.prove_eq("2SLS residuals", m.tslsE, E, shape=(n, N))
    ctx.prove_eq("variance", m.varb, g.V, shape=g.V.shape)
    ctx.prove_eq("error covariance", m.sig, g.sig, shape=(N, N))
    ctx.prove_eq("error correlation", m.corr, corr(ctx, g.sig), shape=(N, N))
    ctx.prove_eq("residuals", m.bigE, resid(ctx, ys, Zs, g.bs), shape=(n, N))


def base(ctx, spreg):
    p = ctx.p
    n, N, ys, Xs, Es, Qs, nx, ne, nq = system(ctx, p)
    from spreg.sur import BaseThreeSLS
    m = BaseThreeSLS(d_(ys), d_(Xs), d_(Es), d_(Qs))
    Zs, Zh, E, g = ref(ctx, ys, Xs, Es, Qs)
    estimates(ctx, m, ys, Zs, E, g)
    for r in range(N):
        ctx.prove_eq("2SLS coefficients of equation %d" % r, m.b2SLS[r], TSLSRef(ctx, ys[r], Zs[r], np.hstack([Xs[r], Qs[r]])).b)
    if N == 1:
        ctx.prove_eq("one equation: 2SLS", m.b3SLS[0], TSLSRef(ctx, ys[0], Zs[0], np.hstack([Xs[0], Qs[0]])).b)


def full(ctx, spreg):
    p = ctx.p
    n, N, ys, Xs, Es, Qs, nx, ne, nq = system(ctx, p)
    regs = p.get("regs")
    kw = dict(regimes=list(regs)[:n]) if regs else {}
    m = spreg.ThreeSLS(d_(ys), d_(Xs), d_(Es), d_(Qs), name_bigy={r: "y%d" % r for r in range(N)}, name_bigX=c_(nx), name_bigyend=c_(ne),
                       name_bigq=c_(nq), nonspat_diag=False, **kw)
    nz = {r: nx[r] + ne[r] for r in range(N)}
    vary = [nz[r] for r in range(N)]
    if regs:
        regs = list(regs)[:n]
        bx = [block(ctx, Xs[r], regs, [True] * len(nx[r]), nx[r]) for r in range(N)]
        be = [block(ctx, Es[r], regs, [True] * len(ne[r]), ne[r]) for r in range(N)]
        bq = [block(ctx, Qs[r], regs, [True] * len(nq[r]), nq[r]) for r in range(N)]
        Xs, Es, Qs = [b[0] for b in bx], [b[0] for b in be], [b[0] for b in bq]
        nx, ne, nq = [{r: b[r][1] for r in range(N)} for b in (bx, be, bq)]
        nz = {r: nx[r] + ne[r] for r in range(N)}
    Zs, Zh, E, g = ref(ctx, ys, Xs, Es, Qs)
    estimates(ctx, m, ys, Zs, E, g)
    setp(ctx, "inference", m.tsls_inf, g.bs, g.V)
    ctx.prove_true("names", (c_(m.name_bigX), c_(m.name_bigyend), c_(m.name_bigq)) == (c_(nx), c_(ne), c_(nq)), (m.name_bigX, m.name_bigyend, m.name_bigq))
    if len(set(Z.shape[1] for Z in Zs)) == 1:
        ctx.prove_eq("equality of coefficients over equations", triples(m.surchow), equal_coefs(ctx, g.bs, g.V))
    else:
        ctx.prove_true("no test of equality", m.surchow is None)
    if regs:
        regime_chows(ctx, m, g.bs, g.V, nz, vary, regset(regs))


add_case("P21", "two", base)
add_case("P21", "one", base, N=1)
add_case("P21", "two_just", base, qs=([Q1], [RES]))
add_case("P21", "two_over", base, qs=([Q1, RES], [RES]))
add_case("P21", "two_endogenous", base, es=([YE, X3], [Q2]), qs=([Q1, RES], [RES, Q1]))
add_case("P21", "two_eline", base, eline=True, n=7)
add_case("P21", "three", base, N=3)
add_case("P21", "full_two", full)
add_case("P21", "full_unequal", full, xs=([X1, X2], [X3]))
add_case("P21", "full_three", full, N=3, xs=([X1], [X2], [X1]))
add_case("P21", "regimes", full, n=12, regs="abbaabbaabab")
add_case("P21", "regimes_unequal", full, n=14, xs=([X1, X2], [X3]), regs="abbaabbaababba")
add_case("P21", "regimes_two_endogenous", full, n=14, es=([YE, X3], [Q2]), qs=([Q1, RES], [RES, Q1]), regs="abbaabbaababba")
add_case("P21", "regimes_three_labels", full, n=14, regs=[3, 1, 2, 1, 3, 2, 1, 2, 3, 3, 1, 2, 2, 1], tier="quick")
