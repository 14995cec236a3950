"""Spatial filter, spatial lags, inverse operators: n = 4..6 nodes, T = 1..3 stacked periods; data, weights and the parameter symbolic;
truncation orders 0..6; unbounded expansion on acyclic weights (where it ends by itself) with data or the parameter symbolic."""
from symx.ctx import add_case
from common import *

ACYC = {0: [], 1: [0], 2: [0, 1], 3: [2, 1], 4: [3, 0]}


def data(ctx, n, k, nm="v"):
    return ctx.A([[ctx.var("%s%d_%d" % (nm, i, j), F(3 * i + 5 * j - 4, 3 + i)) for j in range(k)] for i in range(n)])


def wmat(ctx, nb, sym):
    if not sym:
        return ctx.W(nb)
    wt = {i: [ctx.var("w%d_%d" % (i, j), F(2 + i + j, 7)) for j in v] for i, v in nb.items()}
    return ctx.W(nb, wt, transform=None)


def kron(ctx, T, Wd):
    n = Wd.shape[0]
    K = ctx.zeros((n * T, n * T))
    for t in range(T):
        K[t * n:(t + 1) * n, t * n:(t + 1) * n] = Wd
    return K


def filt(ctx, spreg):
    p = ctx.p
    nb = G4 if p["T"] > 1 else G5
    w = wmat(ctx, nb, p.get("symw"))
    K = kron(ctx, p["T"], ctx.dense(w))
    v = data(ctx, K.shape[0], p["k"])
    lam = ctx.var("lam", F(3, 7))
    f = spreg.utils.get_spFilter
    exp = v - lam * ctx.dot(K, v)
    ctx.prove_eq("filter with a weights object", f(w, lam, v), exp, shape=v.shape)
    ctx.prove_eq("filter with a sparse matrix", f(w.sparse, lam, v), exp, shape=v.shape)


def lags(ctx, spreg):
    p = ctx.p
    nb = G4 if p["T"] > 1 else G5
    w = wmat(ctx, nb, p.get("symw"))
    K = kron(ctx, p["T"], ctx.dense(w))
    v = data(ctx, K.shape[0], p["k"])
    L, cur = [], v
    for _ in range(4):
        cur = ctx.dot(K, cur)
        L.append(cur)
    for o in (1, 2, 3, 4):
        got = spreg.utils.get_lags(w, v, o, **(dict(panel=True) if p["T"] > 1 else {}))
        ctx.prove_eq("lags up to order %d" % o, got, np.hstack(L[:o]), shape=(v.shape[0], v.shape[1] * o))
    if p["T"] == 1:
        for m in (2, 3, 4):
            for s in range(1, m):
                lo, hi = spreg.utils.get_lags_split(w, v, m, s)
                ctx.prove_eq("lags split %d of %d" % (s, m), [lo, hi], [np.hstack(L[:s]), np.hstack(L[s:m])])
        for s, m in ((0, 2), (2, 2), (3, 2)):
            ctx.raises("split outside the lags (%d of %d)" % (s, m), lambda: spreg.utils.get_lags_split(w, v, m, s))


def truth(ctx, spreg):
    """both inverse methods are inverses from either side"""
    p = ctx.p
    nb = p["nb"]
    w = ctx.W(nb)
    Wd = ctx.dense(w)
    n = w.n
    v = data(ctx, n, p["k"])
    rho = ctx.var("rho", F(2, 5), F(-99, 100), F(99, 100))
    B = ctx.eye(n) - rho * Wd
    for src, nm in ((w, "object"), (w.sparse, "sparse"), (Wd, "dense")):
        for meth in ("power_exp", "true_inv"):
            if nm == "sparse" and meth == "true_inv":
                continue
            pre = spreg.utils.inverse_prod(src, v, rho, inv_method=meth)
            post = spreg.utils.inverse_prod(src, v, rho, post_multiply=True, inv_method=meth)
            ctx.prove_eq("%s %s: (I - rho W) r = v" % (meth, nm), ctx.dot(B, pre), v, shape=v.shape)
            ctx.prove_eq("%s %s: r (I - rho W) = v'" % (meth, nm), ctx.dot(post, B), v.T, shape=v.T.shape)
    ctx.raises("unknown method", lambda: spreg.utils.inverse_prod(w, v, rho, inv_method="other"))


def truncated(ctx, spreg):
    """m terms beyond the first: sum of rho^j W^j v, or an earlier stop once the terms are below the threshold"""
    p = ctx.p
    w = ctx.W(p["nb"])
    Wd = ctx.dense(w)
    n = w.n
    if p["sym"] == "rho":
        v = cols(ctx, X1, n=n)
        rho = ctx.var("rho", F(2, 5), F(1, 10), 1) if p.get("pos") else ctx.var("rho", F(-2, 5), -1, F(-1, 10))
    else:
        v = ctx.A([[F(3 * i - 4, 3 + i)] for i in range(n)]) + ctx.var("t", F(1, 2), 0, 1) * ctx.A([[F(i + 2, 3)] for i in range(n)])
        rho = ctx.num(p["rho"])
    post = p.get("post", False)
    for m in p["orders"]:
        cur = v.T if post else v
        tot = cur
        for _ in range(m):
            cur = (ctx.dot(cur, Wd) if post else ctx.dot(Wd, cur)) * rho
            tot = tot + cur
        keep = v + ctx.num(0)
        got = spreg.utils.inverse_prod(w, v, rho, post_multiply=post, max_iterations=m)
        ctx.prove_eq("expansion of order %d" % m, got, tot, shape=tot.shape, tol=1e-8)
        ctx.prove_eq("the data are left alone", v, keep)


def complete(ctx, spreg):
    """acyclic weights: the expansion ends by itself, and what is left is below the threshold"""
    p = ctx.p
    n = p.get("n", 5)
    nb = {i: ACYC[i] for i in range(n)}
    w = ctx.W(nb)
    Wd = ctx.dense(w)
    ctx.raw_power = True
    if p["sym"] == "rho":
        v = cols(ctx, X1, n=n)
        rho = ctx.var("rho", F(1, 2), F(1, 100), 1) if p.get("pos") else ctx.var("rho", F(-1, 2), -1, F(-1, 100))
    else:
        s = ctx.var("s", F(1, 2), 0, 1)
        v = cols(ctx, X1, n=n) * s
        rho = ctx.num(p["rho"])
    got = spreg.utils.inverse_prod(w, v, rho, post_multiply=p.get("post", False))
    B = ctx.eye(n) - rho * Wd
    r = (ctx.dot(got, B) - v.T if p.get("post") else ctx.dot(B, got) - v).reshape(-1)
    ctx.prove_ge("residual of the expansion (above)", [ctx.num(F(1, 10**9)) - e for e in r])
    ctx.prove_ge("residual of the expansion (below)", [ctx.num(F(1, 10**9)) + e for e in r])


for T in (1, 2, 3):
    for k in (1, 2):
        for s in (False, True):
            add_case("P18", "filter_t%d_k%d%s" % (T, k, "_w" if s else ""), filt, T=T, k=k, symw=s)
    add_case("P18", "lags_t%d" % T, lags, T=T, k=2)
    add_case("P18", "lags_w_t%d" % T, lags, T=T, k=1, symw=True)
for nm, nb in (("G4", G4), ("G5", G5), ("D6", D6)):
    for k in (1, 2):
        add_case("P18", "inverse_%s_%d" % (nm, k), truth, nb=nb, k=k)
for post in (False, True):
    t = "_post" if post else ""
    add_case("P18", "order_rho" + t, truncated, nb=G4, sym="rho", pos=True, orders=(0, 1, 2, 3, 5), post=post)
    add_case("P18", "order_neg" + t, truncated, nb=G4, sym="rho", orders=(1, 2, 4, 6), post=post)
    add_case("P18", "order_data" + t, truncated, nb=D6, sym="data", rho=F(9, 10), orders=(1, 3, 6), post=post)
    add_case("P18", "order_data_star" + t, truncated, nb=STAR5, sym="data", rho=F(-4, 5), orders=(1, 2, 3), post=post)
    add_case("P18", "complete_rho" + t, complete, sym="rho", pos=True, post=post)
    add_case("P18", "complete_neg" + t, complete, sym="rho", post=post, n=4)
    add_case("P18", "complete_data" + t, complete, sym="data", rho=F(3, 4), post=post)
