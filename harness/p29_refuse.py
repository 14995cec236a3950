"""refusals: the defect (missing, infinite, text, boolean entry, wrong length, wide array, nonzero diagonal, kernel weight) at the first,
a middle and the last position, all other entries symbolic; check functions directly with symbolic diagonals, kernel weights and
columns of 3..6 entries; every estimator at 6..14 observations with symbolic responses: the refusal comes before any matrix inverse,
linear solve or optimiser call.  Constant columns: symbolic value, every position among two regressors."""
import contextlib
import io
import numpy as np
import pandas as pd
from symx.ctx import add_case
from common import *
import zoo


# ---- what counts as estimating --------------------------------------------------------------------------------------------------
class Estimation:
    """counts matrix inverses, linear solves and optimiser calls made while it is open"""

    def __init__(s, ctx):
        s.ctx, s.n = ctx, 0

    def __enter__(s):
        import scipy.linalg
        import scipy.sparse.linalg as sl
        s.swaps = []
        if s.ctx.mode == "sym":
            from symx import la
            todo = [(la, "inv"), (la, "solve")]
        else:
            todo = [(m, k) for m in (np.linalg, scipy.linalg) for k in ("inv", "solve", "lstsq", "pinv")] + [(sl, "spsolve"), (sl, "splu")]
        for m, k in todo:
            f = getattr(m, k)

            def g(*a, _f=f, **kw):
                s.n += 1
                return _f(*a, **kw)
            s.swaps.append((m, k, f))
            setattr(m, k, g)
        s.before = len(s.ctx.opt.calls) + len(s.ctx.est_calls) + len(s.ctx.moment_calls)
        return s

    def __exit__(s, *a):
        for m, k, f in s.swaps:
            setattr(m, k, f)
        s.n += len(s.ctx.opt.calls) + len(s.ctx.est_calls) + len(s.ctx.moment_calls) - s.before


def refused(ctx, label, fn):
    """fn raises, and nothing has been estimated by then"""
    from symx import sym as Y
    out = None
    with Estimation(ctx) as e, contextlib.redirect_stdout(io.StringIO()):
        try:
            fn()
            out = "accepted"
        except (Y.Unsupported, Y.PathBudget):
            if not e.n:
                raise
            out = "went on to estimate"
        except np.linalg.LinAlgError as err:
            out = "%r in the middle of estimation" % err
        except Exception as err:
            out = None if not e.n else "%r after estimation had begun" % err
    ctx.prove_true(label + ": refused before anything is estimated", out is None, out)


# ---- defects --------------------------------------------------------------------------------------------------------------------
def put(ctx, a, i, j, v):
    """a copy of a with entry (i, j) replaced"""
    b = np.array(a, dtype=object if ctx.mode == "sym" else float, copy=True)
    b[i, j] = v
    return b


DEFECTS = ["nan0", "nan", "nan9", "inf0", "inf", "-inf9", "text", "bool", "short", "long", "wide", "list", "cube"]


def spoil(ctx, a, d):
    n, k = a.shape
    for t, v in (("nan", float("nan")), ("-inf", float("-inf")), ("inf", float("inf"))):
        if d.startswith(t):
            r = {"0": 0, "": n // 2, "9": n - 1}[d[len(t):]]
            return put(ctx, a, r, k - 1, v)
    if d == "text":
        return np.array([["%d" % i for _ in range(k)] for i in range(n)])
    if d == "bool":
        return np.array([[i % 2 == 0 for _ in range(k)] for i in range(n)])
    if d == "short":
        return a[:-1]
    if d == "long":
        return np.vstack([a, a[:1]])
    if d == "wide":
        return np.hstack([a] * (n // k + 1))
    if d == "list":
        return [list(r) for r in a]
    if d == "two":
        return np.hstack([a, a[::-1]])
    if d == "cube":
        return np.array([[[r for r in row]] for row in a], dtype=object if ctx.mode == "sym" else float).reshape(n, 1, k)


def bad_w(ctx, z, d):
    """weights with a defect"""
    nb = {i: list(v) for i, v in z.w.neighbors.items()}
    n = len(nb)
    if d.startswith("diag"):
        i = {"diag0": 0, "diag": n // 2, "diag9": n - 1}[d]
        dv = ctx.var("d", F(1, 3), lo=0) * (-1 if d == "diag" else 1)
        wt = {r: [ctx.num(F(1, 4)) for _ in v] for r, v in nb.items()}
        nb[i] = nb[i] + [i]
        wt[i] = wt[i] + [dv]
        return ctx.W(nb, wt, transform="o")
    if d == "other n":
        nb = {i: [(i + 1) % (n + 1), (i - 1) % (n + 1)] for i in range(n + 1)}
        return ctx.W(nb)
    if d == "kernel":
        return ctx.kernel(nb, {r: [ctx.num(F(1, 2)) for _ in v] for r, v in nb.items()})
    if d == "none":
        return None


# ---- every estimator ------------------------------------------------------------------------------------------------------------
def free(ctx, a, name):
    """the concrete column plus a symbol per row"""
    b = np.array(a, dtype=object if ctx.mode == "sym" else float, copy=True)
    for i in range(b.shape[0]):
        b[i, 0] = b[i, 0] + ctx.var("%s%d" % (name, i), F(i % 3 - 1, 7))
    return b


def arrays(ctx, spreg):
    p = dict(ctx.p)
    arg, ds = p.pop("arg"), p.pop("ds")
    z = zoo.make(ctx, spreg, p.pop("cls"), **p)
    if arg != "y" and isinstance(z.kw.get("y"), np.ndarray):
        z.kw["y"] = free(ctx, z.kw["y"], "u")
    if arg in ("yend", "q") and arg not in z.kw:
        z.kw.update(yend=cols(ctx, YE, n=z.n), q=cols(ctx, Q1, n=z.n), name_yend=["e"], name_q=["h"])
        if takes_(z, "add_wy"):
            z.kw["add_wy"] = True
    good = z.kw[arg]
    for d in ds:
        b = spoil(ctx, free(ctx, good, "v") if d not in ("text", "bool") else good, d)
        refused(ctx, "%s %s" % (arg, d), lambda: z.fit(ctx, **{arg: b}))


def takes_(z, a):
    return zoo.takes(z.cls, a)


def weights(ctx, spreg):
    p = dict(ctx.p)
    ds = p.pop("ds")
    z = zoo.make(ctx, spreg, p.pop("cls"), **p)
    if isinstance(z.kw.get("y"), np.ndarray):
        z.kw["y"] = free(ctx, z.kw["y"], "u")
    for d in ds:
        w = bad_w(ctx, z, d)
        refused(ctx, "weights: " + d, lambda: z.fit(ctx, w=w))


def options(ctx, spreg):
    """regimes and robust options"""
    p = dict(ctx.p)
    z = zoo.make(ctx, spreg, p.pop("cls"), **p)
    z.kw["y"] = free(ctx, z.kw["y"], "u")
    if "regimes" in z.kw:
        refused(ctx, "regimes too short", lambda: z.fit(ctx, regimes=z.regs[:-1]))
        refused(ctx, "regimes too long", lambda: z.fit(ctx, regimes=z.regs + z.regs[:1]))
        refused(ctx, "one regime", lambda: z.fit(ctx, regimes=["a"] * z.n))
        refused(ctx, "a regime per observation", lambda: z.fit(ctx, regimes=list(range(z.n))))
        refused(ctx, "regimes of another container", lambda: z.fit(ctx, regimes=tuple(z.regs)))
    if takes_(z, "robust"):
        refused(ctx, "robust not known", lambda: z.fit(ctx, robust="whyte"))
        if takes_(z, "gwk"):
            refused(ctx, "hac without a kernel", lambda: z.fit(ctx, robust="hac"))
            refused(ctx, "hac with contiguity weights", lambda: z.fit(ctx, robust="hac", gwk=ctx.W({i: [(i + 1) % z.n] for i in range(z.n)})))
            nb = {i: [i, (i + 1) % z.n] for i in range(z.n)}
            for what, i, j, v in (("diagonal below one", 0, 0, -1), ("diagonal above one", z.n - 1, 0, 1), ("negative weight", z.n // 2, 1, -2),
                                  ("weight above one", z.n // 2, 1, 2)):
                t = ctx.var("k%d" % abs(v), F(1, 3), lo=0)
                wt = {r: [ctx.num(1), ctx.num(F(1, 2))] for r in range(z.n)}
                wt[i][j] = {-1: 1 - t, 1: 1 + t, -2: -t, 2: 1 + t}[v]
                refused(ctx, "hac with a kernel with a " + what, lambda: z.fit(ctx, robust="hac", gwk=ctx.kernel(nb, wt)))


def systems(ctx, spreg):
    """systems of equations: the defect in one equation"""
    p = dict(ctx.p)
    z = zoo.make(ctx, spreg, p.pop("cls"), **p)
    for arg in ("bigy", "bigX", "bigyend", "bigq"):
        if arg not in z.kw:
            continue
        for eq in (0, 1):
            for d in ("nan0", "nan", "nan9", "inf", "-inf9", "short", "list"):
                g = {k: np.array(v, copy=True) for k, v in z.kw[arg].items()}
                g[eq] = spoil(ctx, free(ctx, g[eq], "v"), d)
                refused(ctx, "%s equation %d %s" % (arg, eq, d), lambda: z.fit(ctx, **{arg: g}))
    if "w" in z.kw:
        for d in ("diag0", "diag", "diag9", "other n", "none", "kernel"):
            w = bad_w(ctx, z, d)
            refused(ctx, "weights: " + d, lambda: z.fit(ctx, w=w))


class Call:
    """an estimator outside the zoo, called the same way"""

    def __init__(s, cls, n, kw, w=None):
        s.cls, s.n, s.kw, s.w = cls, n, kw, w

    def fit(s, ctx, **kw):
        return s.cls(**dict(s.kw, **kw))


def others(ctx, spreg):
    """probit and the nonlinear lag model"""
    n = 6
    x = cols(ctx, X1, X2, n=n)
    bits = ctx.col([1, 0, 1, 1, 0, 0])
    if ctx.p["cls"] == "Probit":
        z = Call(spreg.Probit, n, dict(y=bits, x=x), ctx.W(D6))
        ymake = lambda: bits
    else:
        co = np.array([[0., 0.], [1., 0.], [0., 2.], [3., 1.], [2., 4.], [5., 2.]])
        z = Call(spreg.NSLX, n, dict(y=free(ctx, ctx.col(Y0[:n]), "u"), x=x, coords=co, params=[(2, np.inf, "exponential")]))
        ymake = lambda: free(ctx, ctx.col(Y0[:n]), "v")
        for what, c in (("three columns", np.hstack([co, co[:, :1]])), ("list", co.tolist()), ("too few", co[:-1])):
            refused(ctx, "coordinates: " + what, lambda: z.fit(ctx, coords=c))
    for d in DEFECTS + ["two"]:
        y = ymake()
        refused(ctx, "y " + d, lambda: z.fit(ctx, y=spoil(ctx, y, d)))
    for d in DEFECTS:
        b = free(ctx, x, "v") if d not in ("text", "bool") else x
        refused(ctx, "x " + d, lambda: z.fit(ctx, x=spoil(ctx, b, d)))
    if z.w is not None:
        for d in ("diag0", "diag", "diag9", "other n", "kernel"):
            w = bad_w(ctx, z, d)
            refused(ctx, "weights: " + d, lambda: z.fit(ctx, w=w))
        refused(ctx, "weights missing for tests", lambda: z.fit(ctx, spat_diag=True))
        refused(ctx, "weights missing for lags", lambda: z.fit(ctx, slx_lags=1))


# ---- constant columns -----------------------------------------------------------------------------------------------------------
def constant(ctx, spreg):
    """with constant columns among the regressors: the same model as without them, and a warning that names them"""
    p = dict(ctx.p)
    at, named = p.pop("at"), p.pop("named", True)
    z = zoo.make(ctx, spreg, p.pop("cls"), **p)
    if not named:
        z.kw["name_x"] = None
    m0 = z.fit(ctx)
    if m0 is None:
        return
    v0 = zoo.values(m0)
    v0.pop("warning", None)
    x, names = z.kw["x"], z.kw["name_x"]
    n = x.shape[0]
    for i, a in enumerate(at):
        c = ctx.var("c%d" % i, F(3 + i), lo=-50, hi=50)
        x = np.hstack([x[:, :a], np.array([[c]] * n, dtype=object if ctx.mode == "sym" else float), x[:, a:]])
        if named:
            names = list(names[:a]) + ["k%d" % i] + list(names[a:])
    if ctx.opt.calls or ctx.est_calls:
        ctx.same_opt(0)
    m = ctx.runs("constant columns are accepted", lambda: z.fit(ctx, x=x, name_x=names))
    if m is None:
        return
    v1 = zoo.values(m)
    v1.pop("warning", None)
    zoo.same(ctx, "without the constant", v0, v1, skip=("summary",) + tuple(z.skip))
    txt = str(m.summary)
    for i, a in enumerate(at):
        ctx.prove_true("the warning names the variable", not named or "k%d" % i in txt.split("removed for being constant")[0].split("\n")[-1], txt[:400])
    ctx.prove_true("there is a warning", "removed for being constant" in txt, txt[-300:])


def regime_constant(ctx, spreg):
    """separate regimes with regressors constant within one of them: the same model as without those regressors, and a warning"""
    p = dict(ctx.p)
    z = zoo.make(ctx, spreg, p.pop("cls"), sep=True, s="split12", regs="aabbabbaabab", **p)
    m0 = z.fit(ctx)
    if m0 is None:
        return
    v0 = zoo.values(m0)
    v0.pop("warning", None)
    x, names, regs = z.kw["x"], list(z.kw["name_x"]), list(z.kw["regimes"])
    n = x.shape[0]
    cols = [ctx.colvec([ctx.num(3) if g == r else ctx.num(X3[i] + (i == 1)) for i, g in enumerate(regs)]) for r in ("a", "b")]
    x = np.hstack([cols[0], x[:, :1], cols[1], x[:, 1:]])
    names = ["ka", names[0], "kb"] + names[1:]
    if ctx.opt.calls or ctx.est_calls:
        ctx.same_opt(0)
    m = ctx.runs("columns constant within a regime are accepted", lambda: z.fit(ctx, x=x, name_x=names))
    if m is None:
        return
    v1 = zoo.values(m)
    v1.pop("warning", None)
    inst = ("name_q", "name_h")
    drop = lambda v: {k: e for k, e in v.items() if k.split("[")[0] != "cols2regi" and not any(i + "[" in k for i in inst)}
    zoo.same(ctx, "without the constant", drop(v0), drop(v1), skip=("summary",) + tuple(z.skip))
    for who, a, b in [("", m0, m)] + [("multi %s " % r, m0.multi[r], m.multi[r]) for r in ("a", "b") if hasattr(m0, "multi")]:
        for k in inst:
            e, g = getattr(a, k, None), getattr(b, k, None)
            # recorded defect: the lags of the dropped regressors stay among the names of the instruments
            t = None if e is None else [u for v in e for u in ([v[0] + "_W_ka", v, v[0] + "_W_kb"] if v[1:] == "_W_" + names[1] else [v])]
            ctx.prove_true("without the constant: %s%s" % (who, k), g == e, (e, g), known="const-regime-instruments" if g == t else None)
    w = str(getattr(m, "warning", ""))
    ctx.prove_true("the warning names the variables", "ka" in w and "kb" in w and "constant" in w, w)


# ---- the check functions ---------------------------------------------------------------------------------------------------------
def check_fns(ctx, spreg):
    from spreg import user_output as U
    n = 4
    sym = lambda nm, k=2: np.array([[ctx.var("%s%d%d" % (nm, i, j), F(i * 3 + j * j - 2, 5)) for j in range(k)] for i in range(n)])
    A, B, y = sym("a"), sym("b", 1), sym("y", 1)
    sp = spreg.sputils.SP.csr_matrix
    ctx.prove_true("good arrays: number of observations", U.check_arrays(A, B, None) == n and U.check_arrays(sp(A), B) == n and U.check_arrays(B[:, 0], A) == n)
    got, nm = U.check_y(y, n)
    ctx.prove_true("good y is the same array", got is y and nm is None)
    ctx.prove_eq("flat y becomes a column", U.check_y(y[:, 0], n)[0], y)
    e, q, ne, nq = U.check_endog([B[:, 0], A], [None, ["h", "i"]])
    ctx.prove_eq("endogenous variable made a column", e, B)
    ctx.prove_true("instruments left", q is A and ne is None and nq == ["h", "i"])
    df = pd.DataFrame({"u": [1., 2., 4., 3.], "v": [2., 2., 1., 5.]})
    e, q, ne, nq = U.check_endog([df["u"], df], [None, None])
    ctx.prove_true("pandas names", ne == ["u"] and nq == ["u", "v"] and U.check_y(df["u"], 4)[1] == "u" and U.check_y(df[["v"]], 4)[1] == "v")
    ctx.prove_true("no endogenous variables", U.check_endog([None, None], [None, None]) == (None, None, None, None))
    for i in range(n):
        for j in range(2):
            for v in ("nan", "inf", "-inf"):
                bad = put(ctx, A, i, j, float(v))
                for what, fn in (("arrays", lambda: U.check_arrays(B, bad)), ("arrays (first)", lambda: U.check_arrays(bad, B)),
                                 ("endogenous", lambda: U.check_endog([bad, B], [None, None])), ("instruments", lambda: U.check_endog([B, bad], [None, None])),
                                 ("numeric", lambda: U.check_numeric_bool(bad)), ("regressors", lambda: U.check_constant(bad))):
                    refused(ctx, "%s: %s at (%d, %d)" % (what, v, i, j), fn)
        for v in ("nan", "inf", "-inf"):
            refused(ctx, "y: %s at %d" % (v, i), lambda: U.check_y(put(ctx, y, i, 0, float(v)), n))
    for what in ("text", "bool"):
        for lab, fn in (("y", lambda b: U.check_y(b[:, :1], n)), ("regressors", U.check_constant), ("instruments", lambda b: U.check_endog([B, b], [None, None]))):
            refused(ctx, "%s: %s" % (lab, what), lambda: fn(spoil(ctx, A, what)))
    for what in ("short", "long", "wide", "list", "cube"):
        refused(ctx, "arrays: " + what, lambda: U.check_arrays(y, spoil(ctx, A, what)))
    for what in ("short", "long", "two", "list", "cube"):
        refused(ctx, "y: " + what, lambda: U.check_y(spoil(ctx, y, what), n))
    refused(ctx, "coordinates of three columns", lambda: U.check_coords(sym("c", 3), None))
    refused(ctx, "coordinates in a list", lambda: U.check_coords([[0, 1]], None))
    xy, nm = U.check_coords(A, ["lon", "lat"])
    ctx.prove_true("coordinates", xy is A and nm == ["lon", "lat"])
    xy, nm = U.check_coords(df, None)
    ctx.prove_true("coordinates of a data frame", nm == ["u", "v"] and xy.tolist() == df.to_numpy().tolist())
    r = ["a", "b", "a", "b"]
    ctx.prove_true("regimes", U.check_reg_list(r, None, 4) == (r, None) and U.check_reg_list(np.array(r), "z", 4) == (r, "z")
                   and U.check_reg_list(pd.Series(r, name="s"), None, 4) == (r, "s"))
    for what, b in (("short", r[:3]), ("long", r + ["a"]), ("tuple", tuple(r)), ("short array", np.array(r[:3])), ("short series", pd.Series(r[:3]))):
        refused(ctx, "regimes: " + what, lambda: U.check_reg_list(b, None, 4))
    for nr in (1, 2, 3):
        for N in range(3, 16):
            for K in (1, 2, 3):
                ok = nr > 1 and N >= nr * (K + 1)
                if ok:
                    U.check_regimes(list(range(nr)), N, K)
                    ctx.prove_true("enough regimes and observations (%d, %d, %d)" % (nr, N, K), True)
                else:
                    refused(ctx, "regimes (%d, %d, %d)" % (nr, N, K), lambda: U.check_regimes(list(range(nr)), N, K))


def check_w(ctx, spreg):
    """weights: refused if and only if a diagonal entry is not zero"""
    from spreg import user_output as U
    n, at = 3, ctx.p["at"]
    y = ctx.col([1, 2, 4])
    nb = {i: [j for j in range(n) if j != i] for i in range(n)}
    wt = {i: [ctx.var("w%d%d" % (i, j), F(1, 2 + i + j)) for j in nb[i]] for i in range(n)}
    good = ctx.W(nb, wt, transform="o")
    ctx.prove_true("good weights are given back", U.check_weights(good, y, w_required=True) is good)
    ctx.prove_true("no weights needed", U.check_weights(None, y) is None)
    refused(ctx, "required weights missing", lambda: U.check_weights(None, y, w_required=True))
    refused(ctx, "weights missing for lags", lambda: U.check_weights(None, y, slx_lags=1))
    refused(ctx, "other number of observations", lambda: U.check_weights(good, ctx.col([1, 2, 4, 3])))
    refused(ctx, "other number of observations (fewer)", lambda: U.check_weights(good, ctx.col([1, 2])))
    ctx.prove_true("panels check the number of observations themselves", U.check_weights(good, ctx.col([1, 2, 4] * 2), time=True) is good)
    ds = [ctx.var("d%d" % i, F(i - 1, 3)) for i in at]
    nb2, wt2 = {i: list(v) for i, v in nb.items()}, {i: list(v) for i, v in wt.items()}
    for i, d in zip(at, ds):
        nb2[i].append(i)
        wt2[i].append(d)
    w = ctx.W(nb2, wt2, transform="o")
    try:
        U.check_weights(w, y, w_required=ctx.p.get("req", True), slx_lags=ctx.p.get("lags", 0))
        ok = True
    except Exception:
        ok = False
    zero = all(bool(d == 0) for d in ds)
    ctx.prove_true("refused exactly when a diagonal entry is not zero", ok == zero, (ok, zero))


def check_kernels(ctx, spreg):
    from spreg import user_output as U
    n = 3
    y = ctx.col([1, 2, 4])
    nb = {i: [i] + [j for j in range(n) if j != i] for i in range(n)}
    k = ctx.kernel(nb, {i: [ctx.num(1)] + [ctx.var("w%d%d" % (min(i, j), max(i, j)), F(1, 3), lo=0, hi=1) for j in nb[i][1:]] for i in range(n)})
    D = ctx.dense(k)
    refused(ctx, "kernel weights for no lags", lambda: U.check_weights(k, y))
    refused(ctx, "kernel weights for no lags (allowed for lags)", lambda: U.check_weights(k, y, allow_wk=True))
    refused(ctx, "kernel weights where not allowed", lambda: U.check_weights(k, y, slx_lags=1))
    refused(ctx, "kernel weights for two lags", lambda: U.check_weights(k, y, slx_lags=2, allow_wk=True))
    w = U.check_weights(k, y, slx_lags=1, allow_wk=True)
    G = ctx.dense(w)
    ctx.prove_eq("kernel weights for one lag: zero diagonal, the rest untouched", G, D * (1 - ctx.eye(n)))


def check_hac(ctx, spreg):
    """kernels for robust variances: accepted if and only if the diagonal is one and the weights lie in [0, 1]"""
    from spreg import user_output as U
    n, where = 3, ctx.p["where"]
    nb = {i: [i] + [j for j in range(n) if j != i] for i in range(n)}
    wt = {i: [ctx.num(1), ctx.num(F(1, 2)), ctx.num(F(1, 5))] for i in range(n)}
    t = []
    for s, (i, j) in enumerate(where):
        v = ctx.var("t%d" % s, F(1, 3 + s))
        wt[i][j] = v
        t.append((v, j == 0))
    k = ctx.kernel(nb, wt)
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            U.check_robust("hac", k)
            ok = True
        except Exception:
            ok = False
    good = all(bool(v == 1) if d else bool(v >= 0) and bool(v <= 1) for v, d in t)
    ctx.prove_true("accepted exactly when valid", ok == good, (ok, good))
    refused(ctx, "no kernel", lambda: U.check_robust("hac", None))
    refused(ctx, "contiguity weights", lambda: U.check_robust("hac", ctx.W({i: [(i + 1) % 3] for i in range(3)})))
    refused(ctx, "unknown name", lambda: U.check_robust("whyte", None))
    refused(ctx, "not a name", lambda: U.check_robust(5, None))
    for r, kk in (("white", None), ("White", None), (None, None), ("ogmm", None)):
        U.check_robust(r, kk)
    ctx.prove_true("the known ones are accepted", True)


def check_const(ctx, spreg):
    """a column is removed exactly when all its entries are equal"""
    from spreg import user_output as U
    n, kind, just, named = 3, ctx.p["kind"], ctx.p["just"], ctx.p["named"]
    A = np.array([[ctx.num(v) for v in r] for r in ((1, 2), (3, 5), (4, -1))])
    c = [ctx.var("c%d" % i, F(2 + i)) for i in range(n)]
    at = ctx.p["at"]
    X = np.hstack([A[:, :at], np.array([[v] for v in c]), A[:, at:]])
    k2 = ctx.p.get("both")
    if k2:          # and a column that is constant for certain
        X = np.hstack([X, np.array([[ctx.var("g", F(7), lo=1)]] * n)])
    names = ["u", "v"]
    names.insert(at, "c")
    if k2:
        names.append("g")
    given = list(names) if named else None
    if kind == "sparse":
        Xg = spreg.sputils.SP.csr_matrix(X)
    else:
        Xg = X
    got, nm, warn = U.check_constant(Xg, given, just_rem=just)
    flat = bool(c[0] == c[1]) and bool(c[1] == c[2])
    drop = ([at] if flat else []) + ([3] if k2 else [])
    keep = [j for j in range(X.shape[1]) if j not in drop]
    exp = X[:, keep]
    if not just:
        exp = np.hstack([ctx.ones((n, 1)), exp])
    g = got.toarray() if hasattr(got, "toarray") else got
    ctx.prove_true("as many columns as vary", g.shape == exp.shape, (g.shape, exp.shape))
    if g.shape == exp.shape:
        ctx.prove_eq("the columns that vary, in order", g, exp)
    if named:
        ctx.prove_true("their names", nm == [names[j] for j in keep], nm)
        ctx.prove_true("the list given is untouched", given == names, given)
    ctx.prove_true("a warning exactly when a column is removed", (warn is not None) == bool(drop), warn)
    if drop and warn is not None:
        exp = "Variable(s) %s removed for being constant." % [names[j] for j in drop] if named else \
            "One variable has been removed for being constant." if len(drop) == 1 else "%d variables have been removed for being constant." % len(drop)
        ctx.prove_true("what it says", warn == exp, (warn, exp))


# ---- cases ------------------------------------------------------------------------------------------------------------------------
add_case("P29", "fn/arrays", check_fns, timeout=400)
for at in ([0], [1], [2], [0, 2], [0, 1, 2]):
    add_case("P29", "fn/weights/%s" % "".join(map(str, at)), check_w, at=at, max_paths=128)
add_case("P29", "fn/weights/not-required", check_w, at=[1], req=False)
add_case("P29", "fn/weights/lags", check_w, at=[1], req=False, lags=1)
add_case("P29", "fn/kernel", check_kernels)
for where in ([(0, 0)], [(2, 0)], [(0, 1)], [(1, 2)], [(2, 2)], [(1, 0), (1, 1)], [(0, 2), (2, 1)]):
    add_case("P29", "fn/hac/%s" % "-".join("%d%d" % t for t in where), check_hac, where=where, max_paths=128)
for kind in ("dense", "sparse"):
    for at in (0, 1, 2):
        for just in (False, True):
            add_case("P29", "fn/constant/%s/%d/%d" % (kind, at, just), check_const, kind=kind, at=at, just=just, named=True, max_paths=128)
    add_case("P29", "fn/constant/%s/unnamed" % kind, check_const, kind=kind, at=1, just=False, named=False, max_paths=128)
    add_case("P29", "fn/constant/%s/two" % kind, check_const, kind=kind, at=0, just=False, named=True, both=True, max_paths=128)
    add_case("P29", "fn/constant/%s/two-unnamed" % kind, check_const, kind=kind, at=1, just=True, named=False, both=True, max_paths=128)


for name in zoo.CROSS + zoo.REGIMES + zoo.PANELS:
    pan = name in zoo.PANELS
    dy = [d for d in DEFECTS if not (pan and d in ("bool", "two"))] + ([] if pan else ["two"])
    dx = [d for d in DEFECTS if d != "wide" or not pan]
    add_case("P29", "y/" + name, arrays, cls=name, arg="y", ds=[d for d in dy if not (pan and d == "wide")])
    add_case("P29", "x/" + name, arrays, cls=name, arg="x", ds=dx)
    if "TSLS" in name or "Endog" in name:
        for a in ("yend", "q"):
            add_case("P29", "%s/%s" % (a, name), arrays, cls=name, arg=a, ds=DEFECTS)
    if "Combo" in name or name.startswith("GM_Lag"):
        for a in ("yend", "q"):
            add_case("P29", "%s/%s" % (a, name), arrays, cls=name, arg=a, ds=DEFECTS)
    need = name not in ("OLS", "TSLS", "OLS_Regimes", "TSLS_Regimes", "PooledOLS", "PanelFE", "PanelRE")
    add_case("P29", "w/" + name, weights, cls=name, ds=["diag0", "diag", "diag9", "other n", "kernel"] + (["none"] if need else []))
    if not pan and ("Regimes" in name or name in ("OLS", "TSLS", "GM_Lag")):
        add_case("P29", "opt/" + name, options, cls=name)
for name in zoo.REGIMES:
    if not zoo.twostage(name):
        add_case("P29", "w/%s/sep" % name, weights, cls=name, sep=True, ds=["diag0", "diag", "diag9", "other n"])
    add_case("P29", "x/%s/sep" % name, arrays, cls=name, sep=True, arg="x", ds=["nan", "nan9", "text", "short"])
for name in zoo.SURS:
    add_case("P29", "sys/" + name, systems, cls=name, timeout=300)

for name in zoo.CROSS + zoo.REGIMES + zoo.PANELS:
    for at in ([0], [1]):
        add_case("P29", "constant/%s/%d" % (name, at[0]), constant, cls=name, at=at, timeout=300, **(dict(pin=True) if zoo.twostage(name) else {}))
for name in zoo.REGIMES:
    add_case("P29", "regime-constant/" + name, regime_constant, cls=name, timeout=300, **(dict(pin=True) if zoo.twostage(name) else {}))
add_case("P29", "regime-constant/OLS_Regimes/2", regime_constant, cls="OLS_Regimes", kx=2)
add_case("P29", "constant/OLS/both", constant, cls="OLS", at=[0, 2])
add_case("P29", "constant/OLS/unnamed", constant, cls="OLS", at=[0], named=False)
add_case("P29", "constant/OLS/middle", constant, cls="OLS", kx=2, at=[1])
add_case("P29", "constant/OLS/slx", constant, cls="OLS", slx=1, at=[0])
add_case("P29", "constant/GM_Lag/slx", constant, cls="GM_Lag", slx=1, at=[1], s="d8")
for name in ("Probit", "NSLX"):
    add_case("P29", "others/" + name, others, cls=name)
for name in zoo.CROSS + zoo.REGIMES:
    add_case("P29", "constant/%s/two" % name, constant, tier="thorough", cls=name, at=[0, 2], **(dict(pin=True) if zoo.twostage(name) else {}))
for name in zoo.REGIMES:
    if not zoo.twostage(name):
        add_case("P29", "constant/%s/sep" % name, constant, cls=name, sep=True, at=[0])
for name in ("OLS_Regimes", "GM_Lag_Regimes", "GM_Error", "GM_Combo", "GM_Error_Het", "ML_Lag", "ML_Error"):
    add_case("P29", "constant/%s/slx" % name, constant, cls=name, slx=1, at=[0], **(dict(pin=True) if zoo.twostage(name) else dict(s="split12", regs="aabbabbaabab") if name == "GM_Lag_Regimes" else dict(s="d8") if name == "GM_Combo" else {}))
