"""every estimator at one small size (6..14 observations), fitted twice: with the response or one regressor multiplied by a symbolic
constant between 1/100 and 100 (GM_Endog_Error_Het 1/2: below, the recorded het-endog-clamp acts), with the response shifted by a symbolic multiple of a regressor, and with the observations in another order
(a transposition, a reversal, a rotation) in data, weights and regimes; responses fixed or on a symbolic line, the spatial parameter
symbolic; the optimisers return the same (arbitrary) point both times, which is justified by proving that their objectives differ by
nothing but a positive factor or an additive constant at every point of the box (likelihoods: at two arbitrary points)."""
import re
import numpy as np
from symx.ctx import add_case
from common import *
import zoo

ROWS = ("u", "y", "x", "yend", "q", "z", "h", "predy", "predy_e", "e_pred", "e_filtered", "predy_sp", "resid_sp")
FIT = ("r2", "ar2", "pr2", "pr2_e")
# powers of the response's unit
RESP = dict(u=1, y=1, predy=1, predy_e=1, e_pred=1, e_filtered=1, mean_y=1, std_y=1, sig2=2, sig2n=2, sig2n_k=2, utu=2, sig2ML=2, sig2_ml=2,
            sig2_v=2, sig2_1=2, sig2_u=2, sig2_mu=2, sig2_e=2, sig_u=2, x=0, q=0, xtx=0, xtxi=0, x_mean=0)
TESTS = ("r2", "ar2", "pr2", "pr2_e", "z_stat", "t_stat", "f_stat", "jarque_bera", "breusch_pagan", "koenker_bassett", "white", "mulColli", "vif",
         "lm_error", "lm_lag", "rlm_error", "rlm_lag", "lm_sarma", "rlm_wx", "lm_wx", "lm_spdurbin", "rlm_durlag", "moran_res", "ak_test", "cfh_test",
         "chow", "rho", "lam", "p_value", "n", "k", "kf", "kr", "nr", "kryd", "iteration", "a_1s", "theta",
         "corr", "surchow", "likr", "lmtest", "lrtest", "likrlambda", "lmEtest", "lmlagtest", "chow_test", "joinrho", "joinlam", "hausman",
         "c", "s", "t", "bigK", "n_eq", "n2", "N", "T")
SYSTEM = ("bSUR", "bSUR0", "b2SLS", "b3SLS", "bOLS", "sur_inf", "tsls_inf", "sig_ols", "sig_2sls", "lamsur", "lamols", "lamest", "errllik", "surerrllik",
          "varbSUR", "resids_", "beta")
SPATIAL = re.compile(r"lambda|^phi$|^(\S+_)?W_yy|rho|^(\S+_)?W_y\d")


def moment_(z):
    return zoo.moment(z.name) and not zoo.twostage(z.name)


def power(name):
    """of the response's unit in the coefficient of that name"""
    return 2 if re.search("sigma2|sig2|sigma_v", name) else 0 if SPATIAL.search(name) else 1


def table(m):
    if not hasattr(m, "output"):
        if not hasattr(m, "betas"):
            return None
        b = list(np.asarray(m.betas).reshape(-1))
        k = min(len(b), len(m.std_err))
        return [str(v) for v in m.name_x][:k], dict(coefficients=b[:k], std_err=list(m.std_err)[:k], zt_stat=[z[0] for z in m.z_stat][:k],
                                                    prob=[z[1] for z in m.z_stat][:k])
    o = m.output
    return [str(v) for v in o["var_names"]], {k: list(o[k]) for k in ("coefficients", "std_err", "zt_stat", "prob")}


def objectives(ctx, n1, k1, factor, vfactor, free=False):
    """the objectives of the second fit are those of the first up to a factor (moments) or a constant (likelihoods)"""
    A, B = ctx.moment_calls[:k1], ctx.moment_calls[k1:]
    ctx.prove_true("as many moment systems", len(A) == len(B), (len(A), len(B)))
    for i, (a, b) in enumerate(zip(A, B)):
        G = np.asarray(a["G"]) * factor
        G[:, 2:] = np.asarray(a["G"])[:, 2:]           # the further unknowns of these systems are variances
        ctx.prove_eq("moment system %d: G" % i, np.asarray(b["G"]), G)
        ctx.prove_eq("moment system %d: g" % i, np.asarray(b["g"]), np.asarray(a["g"]) * factor)
        ctx.prove_true("moment system %d: weighted or not" % i, (a["vc"] is None) == (b["vc"] is None))
        if a["vc"] is not None and b["vc"] is not None:
            ctx.prove_eq("moment system %d: weights" % i, np.asarray(b["vc"]), np.asarray(a["vc"]) * vfactor)
    A, B = ctx.opt.calls[:n1], ctx.opt.calls[n1:]
    ctx.prove_true("as many searches", len(A) == len(B), (len(A), len(B)))
    if ctx.moment_calls:
        return
    for i, (a, b) in enumerate(zip(A, B)):
        ctx.prove_true("search %d: method and box" % i, a["kind"] == b["kind"] and a.get("method") == b.get("method") and
                       str(a.get("bounds")) == str(b.get("bounds")), (a.get("bounds"), b.get("bounds")))
        p = list(a["x"])
        q = [ctx.num(F(1, 5) + F(j, 7)) if "Panel" in str(a.get("name")) else ctx.num(F(1, 5 + j)) for j in range(len(p))]
        val = lambda r, t: np.asarray(r["fun"](list(t))).reshape(-1)[0]
        ctx.prove_eq("search %d: the objective differs by a constant" % i, val(b, p) - val(b, q), val(a, p) - val(a, q))


def pick(d, names):
    return {k: v for k, v in d.items() if re.split(r"[.\[]", k)[0] in names}


def both(ctx, z, kw, factor=1, vfactor=1, scale=None):
    """values of the fits before and after"""
    m1 = z.fit(ctx)
    if m1 is None:
        return None
    v1, t1 = zoo.values(m1), table(m1)
    n1, k1 = len(ctx.opt.calls), len(ctx.moment_calls)
    if n1:
        ctx.same_opt(0, scale)
    m2 = z.fit(ctx, **kw)
    if n1 or k1:
        objectives(ctx, n1, k1, factor, vfactor)
    return m1, v1, t1, m2, zoo.values(m2), table(m2)


def powers(ctx, what, v1, v2, table_, c, skip):
    """v2 is v1 times the power of c listed"""
    n = 0
    for k, a in v1.items():
        top = re.split(r"[.\[]", k)[0]
        if top in skip or top not in table_ or k not in v2 or a[0] != "num":
            continue
        n += 1
        ctx.prove_true("%s: shape of %s" % (what, k), a[2] == v2[k][2], (a[2], v2[k][2]))
        if a[2] == v2[k][2]:
            zoo.equal(ctx, "%s: %s" % (what, k), v2[k][1], [v if is_odd(v) else v * c ** table_[top] for v in a[1]])
    ctx.prove_true(what + ": attributes compared", n > 3, sorted(v1))


def is_odd(v):
    try:
        return isinstance(v, (float, np.floating)) and (v != v or abs(v) == np.inf)
    except TypeError:
        return False


def coefficients(ctx, what, t1, t2, ex, c, novar=False):
    """rows of the output table: ex[name] is the power of c"""
    (n1, a), (n2, b) = t1, t2
    ctx.prove_true(what + ": names", n1 == n2, (n1, n2))
    if n1 != n2:
        return
    e = [ex(nm) for nm in n1]
    num = [i for i in range(len(n1)) if zoo.is_num(a["coefficients"][i])]
    for k in ("coefficients", "std_err")[:1 if novar else 2]:
        rows = [i for i in num if zoo.is_num(a[k][i]) and zoo.is_num(b[k][i])]
        zoo.equal(ctx, "%s: %s" % (what, k), [b[k][i] for i in rows], [a[k][i] if is_odd(a[k][i]) else a[k][i] * c ** e[i] for i in rows])
    for k in ("zt_stat", "prob")[:0 if novar else 2]:
        rows = [i for i in num if zoo.is_num(a[k][i]) and zoo.is_num(b[k][i])]
        zoo.equal(ctx, "%s: %s" % (what, k), [b[k][i] for i in rows], [a[k][i] for i in rows])
    ctx.prove_true(what + ": rows compared", len(num) > 0)


def variance(ctx, what, m1, v1, v2, names, ex, c):
    """the variance matrix, entry by entry"""
    if "vm" not in v1 or v1["vm"][0] != "num" or "vm" not in v2:
        return
    k = v1["vm"][2][0]
    own = [list(g) for g in (getattr(m1, "name_z", None), m1.name_x) if g is not None]
    own += [[s for s in g if "lambda" not in s] for g in own]
    names = next((g for g in own if len(g) == k), next((g for g in own[:len(own) // 2] if len(g) >= k), names))
    if len(names) < k or v1["vm"][2] != v2["vm"][2]:
        return
    e = [ex(nm) for nm in names[:k]]
    want = [v1["vm"][1][i * k + j] * c ** (e[i] + e[j]) for i in range(k) for j in range(k)]
    ctx.prove_eq(what + ": variance matrix", v2["vm"][1], want)


def response(ctx, spreg):
    """the response multiplied by c"""
    p = dict(ctx.p)
    hi, novar, skip = p.pop("hi", None), p.pop("novar", False), p.pop("skip", ())
    z = zoo.make(ctx, spreg, p.pop("cls"), **p)
    c = ctx.var("c", F(3, 2), lo=F(1, 100), hi=hi or 100)
    r = both(ctx, z, dict(y=z.kw["y"] * c), c ** 2, c ** 4, scale=[None, c ** 2, c ** 2] if moment_(z) else None)
    if r is None:
        return
    m1, v1, t1, m2, v2, t2 = r
    skip = tuple(z.skip) + tuple(skip) + (("z_stat", "t_stat") if novar else ())
    coefficients(ctx, "table", t1, t2, power, c, novar)
    novar or variance(ctx, "response scaled", m1, v1, v2, t1[0], power, c)
    powers(ctx, "response scaled", v1, v2, RESP, c, skip)
    powers_tests(ctx, "response scaled", v1, v2, skip)
    if zoo.is_num(getattr(m1, "logll", None)):
        n = m1.n if "n" in vars(m1) else z.n
        n = z.n
        ctx.prove_eq("log likelihood", m2.logll, m1.logll - n * ctx.log(c))
        for a in ("aic", "schwarz"):
            if zoo.is_num(getattr(m1, a, None)):
                ctx.prove_eq(a, getattr(m2, a), getattr(m1, a) + 2 * n * ctx.log(c))


def powers_tests(ctx, what, v1, v2, skip):
    for k, a in v1.items():
        if k not in v2:
            continue
        top = re.split(r"[.\[]", k)[0]
        if top in skip or top not in TESTS or a[0] != "num":
            continue
        ctx.prove_true("%s: shape of %s" % (what, k), a[2] == v2[k][2], (a[2], v2[k][2]))
        if a[2] == v2[k][2]:
            zoo.equal(ctx, "%s: %s" % (what, k), v2[k][1], a[1])


def regressor(ctx, spreg):
    """the last regressor multiplied by c"""
    p = dict(ctx.p)
    arg = p.pop("arg", "x")
    novar, skip, lo = p.pop("novar", False), p.pop("skip", ()), p.pop("lo", F(1, 100))
    z = zoo.make(ctx, spreg, p.pop("cls"), **p)
    c = ctx.var("c", F(3, 2), lo=lo, hi=100)
    x = np.array(z.kw[arg], copy=True)
    x[:, -1] = x[:, -1] * c
    nm = {"x": z.nx[-1], "yend": "e", "q": None}[arg]
    r = both(ctx, z, {arg: x})
    if r is None:
        return
    m1, v1, t1, m2, v2, t2 = r
    ex = lambda s: -1 if nm is not None and re.search(r"(^|_)%s$" % nm, s) else 0
    skip = tuple(z.skip) + tuple(skip) + (("z_stat", "t_stat") if novar else ())
    coefficients(ctx, "table", t1, t2, ex, c, novar)
    novar or variance(ctx, "%s scaled" % arg, m1, v1, v2, t1[0], ex, c)
    powers(ctx, "%s scaled" % arg, v1, v2, {k: 0 for k in RESP if k not in ("x", "q", "xtx", "xtxi", "x_mean")}, c, skip)
    powers_tests(ctx, "%s scaled" % arg, v1, v2, skip)
    if zoo.is_num(getattr(m1, "logll", None)):
        ctx.prove_eq("log likelihood", m2.logll, m1.logll)


def shift(ctx, spreg):
    """a multiple of a regressor (and a constant) added to the response"""
    p = dict(ctx.p)
    z = zoo.make(ctx, spreg, p.pop("cls"), **p)
    g, h = ctx.var("g", F(2, 3)), ctx.var("h", F(-3, 2))
    fe = "FE" in z.name
    r = both(ctx, z, dict(y=z.kw["y"] + z.kw["x"][:, [-1]] * g + (0 if fe else h)))
    if r is None:
        return
    m1, v1, t1, m2, v2, t2 = r
    skip = tuple(z.skip)
    (n1, a), (n2, b) = t1, t2
    ctx.prove_true("names", n1 == n2)
    nm = z.nx[-1]
    add = [g if re.search(r"(^|_)%s$" % nm, s) and "W_" not in s else h if "CONSTANT" in s else 0 for s in n1]
    ctx.prove_eq("coefficients", b["coefficients"], [u + d for u, d in zip(a["coefficients"], add)])
    num = [i for i in range(len(n1)) if zoo.is_num(a["std_err"][i])]
    ctx.prove_eq("standard errors", [b["std_err"][i] for i in num], [a["std_err"][i] for i in num])
    powers(ctx, "response shifted", v1, v2, {k: 0 for k in ("u", "e_filtered", "vm", "sig2", "sig2n", "utu", "x", "sig2n_k", "sig2_v", "sig2_1", "logll", "sig2_mu")}, 1, skip)
    powers_tests(ctx, "response shifted", {k: v for k, v in v1.items() if k.split("[")[0].split(".")[0] in
                 ("breusch_pagan", "koenker_bassett", "white", "jarque_bera", "lm_error", "moran_res", "mulColli", "ak_test", "chow_")}, v2, skip)


def equation(ctx, spreg):
    """systems: the response of one equation multiplied by c"""
    p = dict(ctx.p)
    eq = p.pop("eq")
    z = zoo.make(ctx, spreg, p.pop("cls"), **p)
    c = ctx.var("c", F(3, 2), lo=F(1, 100), hi=100)
    y = {r: v * c if r == eq else v for r, v in z.kw["bigy"].items()}
    m1 = z.fit(ctx)
    n1, k1 = len(ctx.opt.calls), len(ctx.moment_calls)
    if n1:
        ctx.same_opt(0, [None, c ** 2])
    m2 = z.fit(ctx, bigy=y)
    for i in range(k1):
        a, b = ctx.moment_calls[i], ctx.moment_calls[k1 + i]
        f = c ** 2 if i == eq else ctx.num(1)
        G = np.asarray(a["G"]) * f
        G[:, 2:] = np.asarray(a["G"])[:, 2:]
        ctx.prove_eq("moment system %d: G" % i, np.asarray(b["G"]), G)
        ctx.prove_eq("moment system %d: g" % i, np.asarray(b["g"]), np.asarray(a["g"]) * f)
    cnt = 0
    for a in ("bSUR", "b2SLS", "b3SLS", "bSUR0"):
        if hasattr(m1, a):
            cnt += 1
            for r, b in getattr(m1, a).items():
                own = b.shape[0] - (1 if z.name == "SURlagIV" else 0)        # the spatial parameter comes last
                e = [1 if r == eq and i < own else 0 for i in range(b.shape[0])]
                ctx.prove_eq("%s of equation %d" % (a, r), getattr(m2, a)[r], [[b[i, 0] * c ** e[i]] for i in range(len(e))])
    ctx.prove_true("coefficients compared", cnt > 0)
    for a in ("sur_inf", "tsls_inf"):
        if hasattr(m1, a):
            for r, t in getattr(m1, a).items():
                t2 = getattr(m2, a)[r]
                own = t.shape[0] - (1 if z.name == "SURlagIV" else 0)
                ctx.prove_eq("standard errors of equation %d" % r, t2[:, 0], [t[i, 0] * c ** (1 if r == eq and i < own else 0) for i in range(t.shape[0])])
                ctx.prove_eq("statistics of equation %d" % r, t2[:, 1:], t[:, 1:])
    e = [1 if r == eq else 0 for r in range(2)]
    ctx.prove_eq("error covariance", m2.sig, [[m1.sig[i, j] * c ** (e[i] + e[j]) for j in range(2)] for i in range(2)])
    ctx.prove_eq("error correlation", m2.corr, m1.corr)
    for a in ("likrlambda", "lmtest", "lmEtest", "lmlagtest", "lrtest", "joinrho"):
        v = getattr(m1, a, None)
        if v is not None:
            flat_ = lambda t: [x for u in t for x in (u if isinstance(u, (list, tuple)) else [u])]
            zoo.equal(ctx, a, flat_(getattr(m2, a)), flat_(v)) if all(zoo.is_num(x) for x in flat_(v)) else None


# ---- order ----------------------------------------------------------------------------------------------------------------------
PERMS = dict(swap=lambda n: [1, 0] + list(range(2, n)), turn=lambda n: list(range(1, n)) + [0], reverse=lambda n: list(range(n))[::-1],
             mix=lambda n: sorted(range(n), key=lambda i: (i * 5) % 7 * n + i))


def permuted(w, ctx, s, ids):
    """the weights after reordering: new unit i is old unit s[i]"""
    inv = {o: i for i, o in enumerate(s)}
    old = list(w.id_order)
    nb = {i: [inv[old.index(j)] for j in w.neighbors[old[o]]] for i, o in enumerate(s)}
    wt = {i: list(w.weights[old[o]]) for i, o in enumerate(s)}
    if ids:         # the same units under their old names
        nb2 = {old[s[i]]: [old[s[j]] for j in v] for i, v in nb.items()}
        wt2 = {old[s[i]]: v for i, v in wt.items()}
        return ctx.W(nb2, wt2, transform=w.transform, id_order=[old[o] for o in s])
    return ctx.W(nb, wt, transform=w.transform)


def reorder(ctx, spreg):
    p = dict(ctx.p)
    perm, ids = PERMS[p.pop("perm")], p.pop("ids", False)
    name = p.pop("cls")
    z = zoo.make(ctx, spreg, name, **p)
    n = z.n
    w = z.w
    N = w.n
    s1 = perm(N)
    s = [t * N + i for t in range(n // N) for i in s1]
    kw = {}
    for k in ("y", "x", "yend", "q"):
        if z.kw.get(k) is not None:
            kw[k] = z.kw[k][s]
    for k in ("bigy", "bigX", "bigyend", "bigq"):
        if z.kw.get(k) is not None:
            kw[k] = {e: a[s] for e, a in z.kw[k].items()}
    if "regimes" in z.kw:
        kw["regimes"] = [z.kw["regimes"][i] for i in s]
    for k in ("w", "gwk"):
        if z.kw.get(k) is not None:
            kw[k] = permuted(z.kw[k], ctx, s1, ids) if k == "w" else kernel_permuted(ctx, z.kw[k], s1)
    r = both(ctx, z, kw)
    if r is None:
        return
    m1, v1, t1, m2, v2, t2 = r
    skip = tuple(z.skip)
    if t1 is not None:
        coefficients(ctx, "table", t1, t2, lambda nm: 0, 1)
    rows = re.compile(r"^(%s|bigu|bigyend|bigy|bigX|bigq)(\[\d+\])?$" % "|".join(ROWS)) if not ids else re.compile(r"^(%s)$" % "|".join(ROWS))
    flat = lambda v: (v[2][1] if len(v[2]) > 1 else 1)
    cnt = 0
    for k, a in v1.items():
        top = re.split(r"[.\[]", k)[0]
        if k not in v2 or a[0] != "num" or top in skip or top in ("summary", "w", "multi", "hac_var", "warning"):
            continue
        b = v2[k]
        ctx.prove_true("shape of " + k, a[2] == b[2], (a[2], b[2]))
        if a[2] != b[2]:
            continue
        if re.match(r"^\w+$", k) and top in ROWS + ("bigu",) and a[2] and a[2][0] == n or re.match(r"^(bigu|bigy|bigX|bigq|bigyend|olsu|u2s|bigE|bigylag|bigYP|bigZ)\[\d+\]$", k) and a[2][0] == n:
            A = np.array(a[1], dtype=object if ctx.mode == "sym" else None).reshape(a[2])[s]
            zoo.equal(ctx, k + " in the new order", b[1], list(A.reshape(-1)))
            cnt += 1
        elif top in ("betas", "vm", "vm1", "varb", "sig2", "utu", "rho", "lam", "logll", "aic", "schwarz", "mean_y", "std_y", "std_err", "sig2n", "sig2n_k",
                     "sig2_v", "sig2_1", "sig", "llik", "tsls_betas") + SYSTEM + TESTS:
            zoo.equal(ctx, k, b[1], a[1])
            cnt += 1
    ctx.prove_true("attributes compared", cnt > 3, sorted(v1))


def kernel_permuted(ctx, w, s):
    inv = {o: i for i, o in enumerate(s)}
    nb = {i: [inv[j] for j in w.neighbors[o]] for i, o in enumerate(s)}
    wt = {i: list(w.weights[o]) for i, o in enumerate(s)}
    return ctx.kernel(nb, wt)


# ---- cases ------------------------------------------------------------------------------------------------------------------------
def opts(c):
    return dict(pin=True) if zoo.twostage(c) else {}


CUTOFF = ("predy_e", "e_pred")              # series cut off where an absolute change falls below a tolerance
OWN = dict(Panel_FE_Lag=dict(skip=CUTOFF), Panel_RE_Lag=dict(skip=CUTOFF, novar=True), ML_LagRE=dict(novar=True))     # novar: re-lag-information
for c in zoo.CROSS + zoo.REGIMES:
    add_case("P31", "response/" + c, response, cls=c, opaque=False, timeout=300, **opts(c), **(dict(ydiv=20, hi=3) if c == "GM_Endog_Error_Het" else {}))
    add_case("P31", "regressor/" + c, regressor, cls=c, opaque=False, timeout=300, **opts(c))
    if "TSLS" in c or "Endog" in c:
        for a in ("yend", "q"):
            add_case("P31", "%s/%s" % (a, c), regressor, arg=a, cls=c, opaque=False, timeout=300, **opts(c),
                     **(dict(ydiv=20, lo=F(1, 2)) if c == "GM_Endog_Error_Het" else {}))
    for pm in ("swap", "turn"):
        add_case("P31", "order/%s/%s" % (c, pm), reorder, cls=c, perm=pm, opaque=False, timeout=300, **opts(c))
for c in zoo.PANELS:
    add_case("P31", "response/" + c, response, cls=c, opaque=False, timeout=300, **OWN.get(c, {}))
    add_case("P31", "regressor/" + c, regressor, cls=c, opaque=False, timeout=300, **OWN.get(c, {}))
    add_case("P31", "order/" + c, reorder, cls=c, perm="turn", opaque=False, timeout=300)
for c in zoo.SURS:
    if c == "SURerrorML":
        continue
    for eq in (0, 1):
        add_case("P31", "equation/%s/%d" % (c, eq), equation, cls=c, eq=eq, line=False, opaque=False, timeout=300)
    add_case("P31", "order/" + c, reorder, cls=c, perm="turn", timeout=300)
for c in ("OLS", "TSLS", "ML_Error", "GM_Error", "GM_Endog_Error", "GM_Error_Hom", "GM_Error_Het", "OLS_Regimes", "GM_Error_Regimes", "ML_Error_Regimes",
          "PooledOLS", "PanelFE", "PanelRE", "GM_ErrorPooled", "ML_ErrorPooled", "ML_ErrorFE", "ML_ErrorRE"):
    add_case("P31", "shift/" + c, shift, cls=c, opaque=False, timeout=300, **opts(c))

DIAG = [("OLS", dict(diag=True, sdiag=True, n=8, y=lambda ctx, n: ctx.col(Y0[:n]), kw=dict(moran=False, white_test=True))), ("TSLS", dict(sdiag=True)), ("GM_Lag", dict(sdiag=True)),
        ("ML_Lag", dict(diag=True, sdiag=True)), ("ML_Error", dict(diag=True)), ("OLS_Regimes", dict(sdiag=True, y=lambda ctx, n: ctx.col(Y0[:n]))),
        ("PooledOLS", dict(diag=True, sdiag=True, y=lambda ctx, n: ctx.col(Y0[:n]))), ("PanelFE", dict(diag=True, sdiag=True, y=lambda ctx, n: ctx.col(Y0[:n]))),
        ("PanelRE", dict(diag=True, sdiag=True, y=lambda ctx, n: ctx.col(Y0[:n])))]
for c, o in DIAG:
    add_case("P31", "response/%s/tests" % c, response, cls=c, opaque=False, timeout=300, **o)
    add_case("P31", "regressor/%s/tests" % c, regressor, cls=c, opaque=False, timeout=300, **o)
    add_case("P31", "order/%s/tests" % c, reorder, cls=c, perm="mix", opaque=False, timeout=300, **o)
SEP = {c: dict(s="split12", regs="aabbabbaabab") if c.startswith(("TSLS", "GM_Endog", "GM_Combo", "GM_Lag")) else {} for c in zoo.REGIMES if not zoo.twostage(c)}
for c, o in SEP.items():
    add_case("P31", "response/%s/sep" % c, response, cls=c, sep=True, opaque=False, timeout=300, **o)
    add_case("P31", "order/%s/sep" % c, reorder, cls=c, sep=True, perm="mix", opaque=False, timeout=300, **o)
for c, o in (("OLS", {}), ("TSLS", {}), ("GM_Lag", {}), ("ML_Lag", {}), ("ML_Error", {}), ("GM_Error", {}), ("GM_Combo", {})):
    add_case("P31", "response/%s/slx" % c, response, cls=c, slx=1, n=8, opaque=False, timeout=300, **o)
    add_case("P31", "regressor/%s/slx" % c, regressor, cls=c, slx=1, n=8, opaque=False, timeout=300, **o)
    add_case("P31", "order/%s/slx" % c, reorder, cls=c, slx=1, n=8, perm="mix", opaque=False, timeout=300, **o)
for c in ("OLS", "TSLS", "GM_Lag", "OLS_Regimes", "GM_Lag_Regimes"):
    for rb in ("white", "hac"):
        add_case("P31", "response/%s/%s" % (c, rb), response, cls=c, robust=rb, n=8, opaque=False, timeout=300)
        add_case("P31", "order/%s/%s" % (c, rb), reorder, cls=c, robust=rb, n=8, perm="mix", opaque=False, timeout=300)
for c in zoo.CROSS + zoo.REGIMES:
    add_case("P31", "order/%s/ids" % c, reorder, cls=c, perm="mix", ids=True, opaque=False, timeout=300, **opts(c))
    add_case("P31", "order/%s/reverse" % c, reorder, tier="thorough", cls=c, perm="reverse", opaque=False, timeout=300, **opts(c))
