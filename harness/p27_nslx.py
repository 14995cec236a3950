"""nonlinear SLX: 4..6 observations, 1..2 regressors, response on a symbolic line, every decay parameter in (0, 8) and every coefficient
returned by the optimiser; distances symbolic in the weights cases (any increasing distances, the neighbour search is replaced by its
contract), fixed dyadic fractions of the bandwidth in the estimation cases."""
from symx.ctx import add_case
from common import *
from fractions import Fraction as F

ASSUMPTIONS = ["the k-d tree returns neighbours in order of distance, the point itself first, infinite distance and index n where there "
               "is none within the bound"]
NB = {4: [[1, 2], [0, 3], [3, 0], [2, 1]], 5: [[1, 2, 3], [0, 3, 4], [3, 0, 1], [2, 1, 4], [3, 1, 0]],
      6: [[1, 2, 4], [0, 3, 5], [3, 0, 1], [2, 1, 4], [3, 5, 0], [4, 1, 2]]}


class Tree:
    """stands for libpysal's KDTree: dist[i] increasing distances to nbrs[i] (None: none within the bound)"""
    log = None

    def __init__(self, coords, leafsize=None, distance_metric=None):
        Tree.log.append(dict(coords=coords, leafsize=leafsize, metric=distance_metric))

    def query(self, coords, k=1, distance_upper_bound=np.inf):
        Tree.log[-1].update(k=k, bound=distance_upper_bound, at=coords)
        tab = Tree.table(k - 1, distance_upper_bound)
        n = len(tab)
        dis = np.empty((n, k), dtype=object if Tree.ctx.mode == "sym" else float)
        nb = np.zeros((n, k), dtype=int)
        for i, row in enumerate(tab):
            dis[i, 0], nb[i, 0] = Tree.ctx.num(0), i
            for j in range(k - 1):
                if j < len(row):
                    dis[i, j + 1], nb[i, j + 1] = row[j][1], row[j][0]
                else:
                    dis[i, j + 1], nb[i, j + 1] = np.inf, n
        return dis, nb


class patched:
    def __init__(self, ctx, table):
        Tree.ctx, Tree.table, Tree.log = ctx, staticmethod(table), []

    def __enter__(self):
        import spreg.utils as U
        self.old, U.KDTree = U.KDTree, Tree
        return self

    def __exit__(self, *a):
        import spreg.utils as U
        U.KDTree = self.old


def wref(ctx, tab, transform, n):
    """dense weights and pattern: fraction of the largest distance of the row, or one minus it"""
    A, M = ctx.zeros((n, n)), np.zeros((n, n), bool)
    for i, row in enumerate(tab):
        for j, dist in row:
            f = dist / row[-1][1]
            A[i, j] = 1 - f if transform == "power" else f
            M[i, j] = True
    return A, M


def weights(ctx, spreg):
    """distance fractions for any distances"""
    from spreg.utils import make_wnslx
    p = ctx.p
    n, tr = p["n"], p["tr"]
    lens = p["lens"]
    tab = []
    for i in range(n):
        row, at = [], ctx.num(0)
        for j in range(lens[i]):
            at = at + ctx.var("d%d_%d" % (i, j), F(2 * i + 3 * j + 2, 5), 0)
            row.append((p.get("nb", NB[n])[i][j], at))
        tab.append(row)
    k = max(lens)
    bound = np.inf if not p.get("bound") else 7.5
    coords = np.arange(2.0 * n).reshape(n, 2)
    with patched(ctx, lambda kk, b: tab):
        w = make_wnslx(coords, (k, bound, p.get("spell", tr)), leafsize=11, distance_metric="Arc")
    c = Tree.log[0]
    ctx.prove_true("one neighbour search for k neighbours and the point itself",
                   len(Tree.log) == 1 and c["k"] == k + 1 and c["bound"] == bound and c["leafsize"] == 11 and c["metric"] == "Arc"
                   and c["coords"] is coords and c["at"] is coords)
    A, M = wref(ctx, tab, tr, n)
    ctx.prove_true("square matrix", tuple(w.shape) == (n, n), w.shape)
    if tuple(w.shape) == (n, n):
        ctx.prove_eq("distance fractions", w.toarray(), A, shape=(n, n))
        cc = w.tocoo()
        ctx.prove_true("neighbours", sorted(zip(map(int, cc.row), map(int, cc.col))) == sorted(zip(*map(lambda v: map(int, v), np.nonzero(M)))))
    ctx.raises("unknown transformations are refused", lambda: make_wnslx(coords, (k, bound, "linear")))


def transform_ref(ctx, A, M, a, tr, grad=False):
    """W(a) and dW(a)/da entrywise"""
    n = len(A)
    out = ctx.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if not M[i, j]:
                continue
            v = A[i, j]
            if tr == "exponential":
                e = ctx.exp(-a * v)
                out[i, j] = -v * e if grad else e
            else:
                far = v == 0
                e = ctx.num(0) if far else ctx.exp(a * ctx.log(v))
                out[i, j] = ctx.num(0) if far else e * ctx.log(v) if grad else e
    return out


def wrong_exp_grad(ctx, A, M, a):
    out = ctx.zeros(A.shape)
    for i, j in zip(*np.nonzero(M)):
        out[i, j] = -A[i, j] * ctx.exp(-a * A[i, j]) * ctx.log(a * A[i, j])
    return out


def nslx(ctx, spreg):
    p = ctx.p
    n, kx, params = p["n"], p["k"], p["params"]
    y = yline(ctx, n)
    x = cols(ctx, X1, X2, n=n)[:, :kx]
    X = const(ctx, x)
    mask = p.get("mask")
    sel = [i for i in range(kx) if mask is None or mask[i]]
    par = [params[i] for i in sel] if mask is not None and len(params) == kx and len(params) > 1 else params
    h = len(sel)
    ctx.opaque()
    for j in range(h):
        ctx.opt_box[(0, kx + 1 + j)] = (F(0), F(8))
    fr = {1: [4], 2: [1, 4], 3: [1, 2, 4]}          # quarters of the bandwidth
    if p.get("var", 1) == 0:
        H = ctx.zeros((kx + 1 + h,) * 2)
        for i in range(len(H)):
            for j in range(i, len(H)):
                H[i, j] = H[j, i] = ctx.var("h%d%d" % (i, j), F(1, 7 + i + j) if i != j else F(1 + i, 2), *((0, 9) if i == j else (F(-1, 4), F(1, 4))))
        ctx.hess_inv = H

    def table(k, bound):
        return [[(NB[n][i][j], ctx.num(F(fr[k][j] * (i + 2), 2))) for j in range(k)] for i in range(n)]
    coords = np.arange(2.0 * n).reshape(n, 2)
    names = ["v%d" % i for i in range(1, kx + 1)]
    kw = dict(var_flag=p["var"]) if "var" in p else {}
    if mask is not None:
        kw["slx_vars"] = mask
    kw2 = dict(params=params)
    with patched(ctx, table):
        m = spreg.NSLX(y, x, coords, name_y="yy", name_x=names, name_ds="ds", **kw2, **kw)
    k = kx + 1 + h
    c = ctx.opt.calls[0]
    AM = [wref(ctx, table(q[0], q[1]), q[2], n) for q in par]
    trs = [q[2] for q in par]
    pre = [{"power": "Wp_", "exponential": "We_"}[trs[i if len(trs) > 1 else 0]] for i in range(h)]
    want = ["CONSTANT"] + names + [a + names[i] for a, i in zip(pre, sel)]
    ctx.prove_true("names", list(m.name_x) == want and list(m.output["var_names"]) == want, list(m.name_x))

    def model(point):
        b, al = point[:kx + 1], point[kx + 1:]
        out = ctx.dot(X, ctx.colvec(b))
        for j, i in enumerate(sel):
            A, M = AM[j if len(AM) > 1 else 0]
            out = out + ctx.dot(transform_ref(ctx, A, M, al[j], trs[j if len(trs) > 1 else 0]), x[:, [i]])
        return out

    def ssr(point):
        e = y - model(point)
        return sc(ctx.dot(e.T, e))
    ctx.prove_eq("starting values", c["start"], np.vstack([OLSRef(ctx, y, X).b, ctx.ones((h, 1))]))
    at = [ctx.num(F(2 * i + 1, 3)) for i in range(kx + 1)] + [ctx.num(F(3 + j, 2)) for j in range(h)]
    ctx.prove_eq("minimised function", c["fun"](at), ssr(at))
    pt = c["x"]
    S = ssr(pt)
    n_ = ctx.num(n)
    ctx.prove_eq("coefficients", m.betas, pt)
    ctx.prove_true("number of parameters", m.k == k and m.n == n)
    ctx.prove_eq("fitted values", m.predy, model(pt), shape=(n, 1))
    ctx.prove_eq("residuals", m.u, y - model(pt), shape=(n, 1))
    ctx.prove_eq("sum of squared residuals", m.utu, S)
    ctx.prove_eq("error variance", [m.sig2, m.sign], [S / n, S / n])
    ll = -n_ / 2 * (ctx.log(2 * ctx.pi) + ctx.log(S / n) + 1)
    ctx.prove_eq("likelihood and information criteria", [m.ll, m.aic, m.schwarz], [ll, 2 * k - 2 * ll, k * ctx.log(n_) - 2 * ll])
    if p.get("var", 1) == 0:
        # the Hessian of the sum of squares is twice the information times the variance
        ctx.prove_eq("variance from the inverse Hessian", m.vm, 2 * S / n * H, known=[("nslx-hessian-scale", S / n * H)])
    elif p.get("var", 1):
        def blocks(grads):
            J = np.hstack([ctx.dot(g, x[:, [i]]) for g, i in zip(grads, sel)])
            V = ctx.zeros((k, k))
            V[:kx + 1, :kx + 1] = OLSRef(ctx, y, X).xtxi
            V[kx + 1:, kx + 1:] = ctx.inv(ctx.dot(J.T, J))
            return J, V * (S / n)
        al = pt[kx + 1:]
        g = [transform_ref(ctx, *AM[j if len(AM) > 1 else 0], al[j], trs[j if len(trs) > 1 else 0], grad=True) for j in range(h)]
        J, V = blocks(g)
        if "exponential" in trs:
            g2 = [wrong_exp_grad(ctx, *AM[j if len(AM) > 1 else 0], al[j]) if trs[j if len(trs) > 1 else 0] == "exponential" else g[j]
                  for j in range(h)]
            alt = ("nslx-exponential-gradient", blocks(g2)[1])
        else:
            alt = ("nslx-block-variance", V)
        Z = np.hstack([X, J])
        if p.get("full"):
            ctx.prove_eq("variance of least squares on x and the gradient", m.vm, ctx.inv(ctx.dot(Z.T, Z)) * (S / n), known=[alt])
        else:
            ctx.prove_eq("variance, linear and nonlinear part apart", m.vm, V, known=[alt] if "exponential" in trs else [])
    se = ctx.sqrt(diagvec(m.vm))
    ctx.prove_eq("standard errors", m.std_err, se)
    z = [pt[i] / se[i] for i in range(k)]
    ctx.prove_eq("z statistics", [v for s in m.z_stat for v in s], [v for i in range(k) for v in (z[i], ctx.p2(z[i]))])
    t = table_by_name(m)
    ctx.prove_eq("table", [v for nm in want for v in t[nm]], [v for i in range(k) for v in (pt[i], se[i], z[i], ctx.p2(z[i]))])
    ctx.prove_true("search settings kept", list(m.knn) == [q[0] for q in params] or list(m.knn) == [q[0] for q in par])


def refuse(ctx, spreg):
    n = 5
    y, x = yline(ctx, n), cols(ctx, X1, X2, n=n)
    coords = np.arange(2.0 * n).reshape(n, 2)
    tab = lambda k, b: [[(NB[n][i][j], ctx.num(F((j + 1) * 4, k))) for j in range(k)] for i in range(n)]
    with patched(ctx, tab):
        e, q = (2, np.inf, "exponential"), (2, np.inf, "power")
        ctx.raises("more parameters than variables", lambda: spreg.NSLX(y, x, coords, params=[e, q, e]))
        ctx.raises("unknown transformation", lambda: spreg.NSLX(y, x, coords, params=[(2, np.inf, "linear")]))
        ctx.raises("coordinates of the wrong width", lambda: spreg.NSLX(y, x, np.ones((n, 3)), params=[e]))
        ctx.raises("parameters that fit neither all nor the selected variables",
                   lambda: spreg.NSLX(y, np.hstack([x, cols(ctx, X3, n=n)]), coords, params=[e, q], slx_vars=[True, False, False]))


def modular(ctx, spreg):
    """transformed lags for any weights and decay"""
    from spreg.nslx import nlmod
    p = ctx.p
    n, trs = 4, p["trs"]
    h = p["h"]
    M = np.zeros((n, n), bool)
    for i, r in enumerate(NB[n]):
        M[i, r] = True
    al = [ctx.var("a%d" % j, F(3 + j, 2), 0, 8) for j in range(h)]
    ws, As = [], []
    for q in range(len(trs)):
        A = ctx.zeros((n, n))
        for i, j in zip(*np.nonzero(M)):
            A[i, j] = ctx.var("w%d_%d%d" % (q, i, j), F(1 + i + 2 * j + q, 11), F(1, 100), 1)
        ws.append(spreg.sputils.SP.csr_matrix(A))
        As.append(A)
    x = cols(ctx, X1, X2, n=n)[:, :h]
    for grad in (0, 1):
        got = nlmod(np.array(al), x, ws, trs, gradflag=grad)
        for j in range(h):
            q = j if len(trs) > 1 else 0
            ref = ctx.dot(transform_ref(ctx, As[q], M, al[j], trs[q], grad=bool(grad)), x[:, [j]])
            kn = [("nslx-exponential-gradient", ctx.dot(wrong_exp_grad(ctx, As[q], M, al[j]), x[:, [j]]))] if grad and trs[q] == "exponential" else []
            ctx.prove_eq("transformed lag" if not grad else "its derivative", got[:, [j]], ref, known=kn)
    for q in range(len(trs)):
        ctx.prove_eq("weights left alone", ws[q].toarray(), As[q])
    ctx.raises("a decay parameter per variable", lambda: nlmod(np.array(al), x[:, :0], ws, trs))


E_, P_ = "exponential", "power"
for tr in (E_, P_):
    add_case("P27", "weights_%s" % tr, weights, n=4, tr=tr, lens=[2, 2, 2, 2])
    add_case("P27", "weights_%s_bound" % tr, weights, n=5, tr=tr, lens=[2, 1, 3, 2, 1], bound=True)
    add_case("P27", "weights_%s_lonely" % tr, weights, n=5, tr=tr, lens=[2, 2, 1, 1, 0], bound=True, nb=[[1, 2], [0, 3], [3], [2], []])
    add_case("P27", "weights_%s_remote" % tr, weights, n=4, tr=tr, lens=[1, 1, 1, 1], nb=[[1], [0], [1], [2]], spell=tr.upper())
    add_case("P27", "one_%s" % tr, nslx, n=5, k=1, params=[(3, np.inf, tr)])
    add_case("P27", "one_%s_full" % tr, nslx, n=5, k=1, params=[(3, np.inf, tr)], full=True)
    add_case("P27", "two_%s" % tr, nslx, n=6, k=2, params=[(2, np.inf, tr)])
    add_case("P27", "numeric_%s" % tr, nslx, n=5, k=1, params=[(2, 9.0, tr)], var=0)
    add_case("P27", "modular_%s" % tr, modular, trs=[tr], h=2)
add_case("P27", "modular_mixed", modular, trs=[E_, P_], h=2)
add_case("P27", "mixed", nslx, n=6, k=2, params=[(2, np.inf, E_), (3, np.inf, P_)])
add_case("P27", "mask_one", nslx, n=6, k=2, params=[(3, np.inf, P_)], mask=[False, True])
add_case("P27", "mask_two", nslx, n=6, k=2, params=[(2, np.inf, E_), (3, np.inf, P_)], mask=[False, True])
add_case("P27", "mask_first", nslx, n=6, k=2, params=[(3, np.inf, P_), (2, np.inf, E_)], mask=[True, False])
add_case("P27", "mask_all", nslx, n=6, k=2, params=[(2, np.inf, P_), (3, np.inf, P_)], mask=[True, True])
add_case("P27", "refuse", refuse)
