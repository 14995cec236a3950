"""Classical diagnostics: n = 5..8, k = 2..4 coefficients; y fully symbolic or on a symbolic line; designs with
distinct columns and designs with coinciding squares (0/1 dummies); eigenvalues as roots of the exact characteristic polynomial."""
from symx.ctx import add_case
from common import *


def keep(ctx, Z):
    """indices of the distinct columns"""
    out = []
    for j in range(Z.shape[1]):
        if not any(all(Z[i, j] == Z[i, l] for i in range(Z.shape[0])) for l in out):
            out.append(j)
    return out


def diag(ctx, spreg):
    p = ctx.p
    n, kx = p["n"], p["k"]
    N = ctx.num
    y = yfull(ctx, n) if p["y"] == "full" else yline(ctx, n)
    cs = [X1, X2, X3][:kx]
    if p.get("dummy"):
        cs[-1] = [0, 1, 1, 0, 1, 0, 0, 1, 1, 0]
    x = cols(ctx, *cs, n=n)
    X = const(ctx, x)
    m = spreg.OLS(y, x, white_test=p.get("white", False), vif=True)
    r = OLSRef(ctx, y, X)
    e, e2, s2 = r.e, r.e * r.e, r.s2n
    mu3, mu4 = (e2 * e).sum() / N(n), (e2 * e2).sum() / N(n)
    jb = N(n) * (mu3 * mu3 / (s2 * s2 * s2) / N(6) + (mu4 / (s2 * s2) - 3) * (mu4 / (s2 * s2) - 3) / N(24))
    ctx.prove_eq("Jarque-Bera", [m.jarque_bera["jb"], m.jarque_bera["pvalue"]], [jb, ctx.chi2sf(jb, 2)])
    ctx.prove_true("Jarque-Bera df", m.jarque_bera["df"] == 2)
    Z = X * X
    Z = Z[:, keep(ctx, Z)]
    df = Z.shape[1] - 1
    g = e2 / s2 - 1
    a = OLSRef(ctx, g, Z)
    ess = (a.fit * a.fit).sum()
    bp = ess / 2
    ctx.prove_eq("Breusch-Pagan", [m.breusch_pagan["bp"], m.breusch_pagan["pvalue"]], [bp, ctx.chi2sf(bp, df)])
    kb = N(n) * (1 - OLSRef(ctx, e2, Z).rss / OLSRef(ctx, e2, Z).tss)
    ctx.prove_eq("Koenker-Bassett", [m.koenker_bassett["kb"], m.koenker_bassett["pvalue"]], [kb, ctx.chi2sf(kb, df)])
    ctx.prove_true("heteroskedasticity df", m.breusch_pagan["df"] == df and m.koenker_bassett["df"] == df)
    G = const(ctx, cols(ctx, D1, n=n))         # variables of the user's
    a, df = OLSRef(ctx, g, G), 1
    b = ctx.runs("Breusch-Pagan test with variables given", lambda: spreg.breusch_pagan(m, G))
    k = ctx.runs("Koenker-Bassett test with variables given", lambda: spreg.koenker_bassett(m, G))
    if b is not None and k is not None:
        bp = (a.fit * a.fit).sum() / 2
        kb = N(n) * (1 - OLSRef(ctx, e2, G).rss / OLSRef(ctx, e2, G).tss)
        ctx.prove_eq("with variables given", [b["bp"], b["pvalue"], k["kb"], k["pvalue"]], [bp, ctx.chi2sf(bp, df), kb, ctx.chi2sf(kb, df)])
        ctx.prove_true("degrees of freedom with variables given", b["df"] == df and k["df"] == df)
    xtx = ctx.dot(X.T, X)
    d = diagvec(xtx)
    ev = ctx.eigvals(xtx / d)
    ci = ctx.sqrt(max(ev) / min(ev))
    ctx.prove_eq("condition index", m.mulColli * m.mulColli, ci * ci)
    if p.get("white"):
        A = [X[:, [i]] * X[:, [j]] for i in range(r.k) for j in range(i, r.k)]
        A = np.hstack([X] + A)
        A = A[:, keep(ctx, A)]
        a = OLSRef(ctx, e2, A)
        if isinstance(m.white, str):
            ctx.prove_true("White refused only when ill-conditioned", bool(ci > 30))
        else:
            wh = N(n) * (1 - a.rss / a.tss)
            ctx.prove_eq("White", [m.white["wh"], m.white["pvalue"]], [wh, ctx.chi2sf(wh, A.shape[1] - 1)])
            ctx.prove_true("White df", m.white["df"] == A.shape[1] - 1)
    v = spreg.vif(m)
    for j in range(1, r.k):
        o = OLSRef(ctx, X[:, [j]], np.delete(X, j, 1))
        tol = o.rss / o.tss
        ctx.prove_eq("VIF %d" % j, list(v[j]), [1 / tol, tol])
    if kx >= 2:
        q = kx - 1
        r0 = OLSRef(ctx, y, X[:, :-q])
        F_ = ((r0.rss - r.rss) / N(q)) / (r.rss / N(n - r.k))
        ctx.prove_eq("partial F", spreg.f_stat(m, df=q), [F_, ctx.fsf(F_, q, n - r.k)])
        m0 = spreg.OLS(y, x[:, :-q])
        lr = spreg.likratiotest(m0, m)
        want = 2 * (r.ll() - r0.ll())
        ctx.prove_eq("likelihood ratio", lr["likr"], ctx.abs(want) if ctx.mode == "num" else (
            want if Y_same(lr["likr"], want) else -want))
        ctx.prove_eq("likelihood ratio p", lr["p-value"], ctx.chi2sf(lr["likr"], q))
        ctx.prove_true("likelihood ratio df", lr["df"] == q)


def Y_same(a, b):
    from symx import decide as D
    return D.diff(a, b)[0] == {}


add_case("P03", "full_n5_k1", diag, n=5, k=1, y="full")
add_case("P03", "line_n6_k2", diag, n=6, k=2, y="line")
add_case("P03", "line_n8_k3", diag, n=8, k=3, y="line")
add_case("P03", "dummy_n7_k2", diag, n=7, k=2, y="line", dummy=True)
add_case("P03", "white_n7_k2", diag, n=8, k=2, y="full", white=True)
add_case("P03", "white_dummy_n8", diag, n=8, k=2, y="line", white=True, dummy=True)
add_case("P03", "white_n12_k3", diag, tier="thorough", n=12, k=3, y="line", white=True)


def dwh(ctx, spreg):
    n = ctx.p["n"]
    ne = ctx.p["ne"]
    y = yfull(ctx, n) if ctx.p["y"] == "full" else yline(ctx, n)
    x = cols(ctx, X1, n=n)
    ye = cols(ctx, YE, X3, n=n)[:, :ne]
    q = cols(ctx, Q1, Q2, X2, n=n)[:, :ne + 1]
    X = const(ctx, x)
    H = np.hstack([X, q])
    Z = np.hstack([X, ye])
    m = spreg.TSLS(y, x, ye, q)
    P = ctx.dot(H, ctx.dot(ctx.inv(ctx.dot(H.T, H)), ctx.dot(H.T, ye)))
    r0, r1 = OLSRef(ctx, y, Z), OLSRef(ctx, y, np.hstack([Z, P]))
    f = ((r0.rss - r1.rss) / ctx.num(ne)) / (r1.rss / ctx.num(n - r1.k))
    ctx.prove_eq("Durbin-Wu-Hausman", m.dwh, [f, ctx.fsf(f, ne, n - r1.k)])


add_case("P03", "dwh_1", dwh, n=7, ne=1, y="full")
add_case("P03", "dwh_2", dwh, n=9, ne=2, y="line")
