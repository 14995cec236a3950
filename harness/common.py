"""Shared inputs and textbook formulas for the harnesses (independent of spreg)."""
from fractions import Fraction as F

import numpy as np

# ---- contiguity structures -------------------------------------------------
G4 = {0: [1, 2, 3], 1: [0, 2], 2: [0, 1, 3], 3: [0, 2]}
G5 = {0: [1, 2], 1: [0, 3, 4], 2: [0, 3], 3: [1, 2, 4], 4: [1, 3]}
G6 = {0: [1, 2], 1: [0, 3, 4], 2: [0, 4], 3: [1, 5], 4: [1, 2, 5], 5: [3, 4]}
G7 = {0: [1, 2], 1: [0, 3, 4], 2: [0, 4], 3: [1, 5], 4: [1, 2, 6], 5: [3, 6], 6: [4, 5, 0], }
G7 = {0: [1, 2, 6], 1: [0, 3, 4], 2: [0, 4], 3: [1, 5], 4: [1, 2, 6], 5: [3, 6], 6: [4, 5, 0]}
G8 = {0: [1, 2], 1: [0, 3, 4], 2: [0, 4, 7], 3: [1, 5], 4: [1, 2, 6], 5: [3, 6], 6: [4, 5, 7], 7: [2, 6]}
G9 = {0: [1, 3], 1: [0, 2, 4], 2: [1, 5], 3: [0, 4, 6], 4: [1, 3, 5, 7], 5: [2, 4, 8], 6: [3, 7], 7: [4, 6, 8], 8: [5, 7]}
# asymmetric k-nearest-neighbour-like structures
D6 = {0: [1, 2], 1: [2, 3], 2: [0, 4], 3: [1, 5], 4: [2, 5], 5: [0, 3, 4]}
D8 = {0: [1, 2], 1: [2, 3], 2: [0, 4, 7], 3: [1, 5], 4: [2, 6], 5: [3, 7], 6: [4, 5], 7: [6, 0]}
# rational spectrum when row standardised
K4 = {i: [j for j in range(4) if j != i] for i in range(4)}
K5 = {i: [j for j in range(5) if j != i] for i in range(5)}
C4 = {0: [1, 3], 1: [0, 2], 2: [1, 3], 3: [2, 0]}
OCT = {i: [j for j in range(6) if j != i and j != (i + 3) % 6] for i in range(6)}
PRISM = {0: [1, 2, 3], 1: [0, 2, 4], 2: [0, 1, 5], 3: [4, 5, 0], 4: [3, 5, 1], 5: [3, 4, 2]}
STAR5 = {0: [1, 2, 3, 4], 1: [0], 2: [0], 3: [0], 4: [0]}

# ---- generic numbers -------------------------------------------------------
X1 = [2, 5, 1, 7, 4, 9, 3, 8, 6, 11, 13, 10, 12, 15]
X2 = [3, 1, 4, 2, 7, 5, 11, 6, 13, 8, 2, 9, 16, 4]
X3 = [1, 4, 6, 3, 8, 2, 5, 12, 7, 10, 15, 1, 6, 9]
YE = [4, 1, 7, 3, 9, 2, 8, 6, 12, 5, 10, 14, 3, 11]
Q1 = [5, 2, 9, 1, 6, 4, 12, 3, 8, 10, 7, 13, 2, 15]
Q2 = [1, 6, 2, 8, 3, 11, 5, 9, 4, 14, 12, 2, 10, 7]
Y0 = [7, 3, 8, 2, 12, 5, 10, 6, 15, 4, 9, 1, 13, 11]
D1 = [1, -2, 3, 1, 4, -1, 2, 5, -3, 2, 6, -4, 1, 3]
D2 = [2, 1, -1, 4, -2, 3, 1, -5, 2, 6, -1, 3, 2, -4]
RES = [1, -1, 2, 0, 3, -2, 1, 4, -3, 2, 1, -1, 5, -2]


def cols(ctx, *cs, n):
    return ctx.A([[c[i] for c in cs] for i in range(n)])


def const(ctx, x):
    return np.hstack([ctx.ones((x.shape[0], 1)), x])


def yfull(ctx, n, name="y"):
    return ctx.freevec(name, Y0[:n])


def yline(ctx, n, name="s"):
    """y on a generic symbolic line"""
    return ctx.linevec([(name, F(3, 7))], Y0[:n], D1[:n])


def yplane(ctx, n, name="s"):
    return ctx.linevec([(name + "1", F(3, 7)), (name + "2", F(2, 5))], Y0[:n], D1[:n], D2[:n])


def xline(ctx, n, base, d, name="r", at=F(1, 3)):
    return ctx.linevec([(name, at)], base[:n], d[:n])


class OLSRef:
    """textbook least squares"""

    def __init__(self, ctx, y, X):
        self.ctx, self.y, self.X = ctx, y, X
        self.n, self.k = X.shape
        d = ctx.dot
        self.xtxi = ctx.inv(d(X.T, X))
        self.b = d(self.xtxi, d(X.T, y))
        self.fit = d(X, self.b)
        self.e = y - self.fit
        self.rss = (self.e * self.e).sum()
        self.ybar = y.sum() / ctx.num(self.n)
        self.tss = ((y - self.ybar) * (y - self.ybar)).sum()
        self.s2n = self.rss / ctx.num(self.n)
        self.s2nk = self.rss / ctx.num(self.n - self.k)

    def ll(self):
        c, n = self.ctx, self.n
        return -c.num(F(n, 2)) * (c.log(2 * c.pi) + c.log(self.s2n) + 1)


def diagvec(V):
    return np.array([V[i, i] for i in range(V.shape[0])], dtype=V.dtype)


def pairs(lst):
    """list of (stat, p) -> flat list"""
    out = []
    for a in lst:
        out += [a[0], a[1]]
    return out


def trace(A):
    t = A[0, 0]
    for i in range(1, A.shape[0]):
        t = t + A[i, i]
    return t


def sc(x):
    """scalar out of a 1x1 array"""
    return np.asarray(x).reshape(-1)[0]


class TSLSRef:
    """textbook two stage least squares"""

    def __init__(self, ctx, y, Z, H):
        self.ctx, self.y, self.Z, self.H = ctx, y, Z, H
        self.n, self.k = Z.shape
        d = ctx.dot
        self.Zh = d(H, d(ctx.inv(d(H.T, H)), d(H.T, Z)))
        self.varb = ctx.inv(d(self.Zh.T, self.Zh))
        self.b = d(self.varb, d(self.Zh.T, y))
        self.fit = d(Z, self.b)
        self.e = y - self.fit
        self.rss = (self.e * self.e).sum()
        self.s2n = self.rss / ctx.num(self.n)
        self.s2nk = self.rss / ctx.num(self.n - self.k)


def white_meat(ctx, X, e, f=1):
    return ctx.dot((X * e).T, X * e) * f


def kernel_case(ctx, n, sym=True):
    """kernel weights: unit diagonal, off-diagonal entries in (0,1), not symmetric, two of them symbolic"""
    nb, wt = {}, {}
    a = ctx.var("ka", F(2, 5), 0, 1) if sym else ctx.num(F(2, 5))
    b = ctx.var("kb", F(3, 7), 0, 1) if sym else ctx.num(F(3, 7))
    for i in range(n):
        nb[i] = [i, (i + 1) % n, (i + 2) % n] if i % 2 else [i, (i + 2) % n]
        w = [ctx.num(1), a if i == 0 else ctx.num(F(i + 1, n + 2)), b if i == 1 else ctx.num(F(1, i + 2))]
        wt[i] = w[:len(nb[i])]
    K = ctx.zeros((n, n))
    for i in range(n):
        for j, v in zip(nb[i], wt[i]):
            K[i, j] = v
    return ctx.kernel(nb, wt), K


def corr2(a, b):
    """squared correlation"""
    n = a.shape[0]
    da, db = a - a.sum() / n, b - b.sum() / n
    return (da * db).sum() ** 2 / ((da * da).sum() * (db * db).sum())


def flat(*arrs):
    return [v for a in arrs for v in np.asarray(a).reshape(-1)]


def iszero(d):
    """the factor is one: the difference is zero as an expression (not tried in a replay)"""
    return d.is_zero() if hasattr(d, "is_zero") and callable(d.is_zero) else False


def proportional(ctx, label, got, exp, pivot=None, positive=True):
    """got = c * exp for one positive factor c"""
    if len(got) != len(exp):
        ctx.prove_true(label, False, "size %d, expected %d" % (len(got), len(exp)))
        return
    if pivot is None:
        pivot = len(exp) - 1
    ctx.prove_eq(label, [g * exp[pivot] for g in got], [e * got[pivot] for e in exp])
    if positive and len(got) and iszero(got[pivot] - exp[pivot]):
        ctx.prove_true(label + " (factor is positive)", True)
    elif positive:
        ctx.prove_ge(label + " (factor is positive)", got[pivot] * exp[pivot])


def moments(ctx, i, G, g, vc=None, label="moment equations", pivot=None, hard_bound=None):
    """the i-th moment minimisation uses a positive multiple of (g - G p)' vc^-1 (g - G p)"""
    if len(ctx.moment_calls) > i:
        c = ctx.moment_calls[i]
        proportional(ctx, label, flat(c["G"], c["g"]), flat(G, g), pivot, positive=False)
        if vc is None:
            ctx.prove_true(label + ": unweighted", c["vc"] is None)
        elif c["vc"] is None:
            ctx.prove_true(label + ": weighted", False, "no weighting matrix")
        else:
            proportional(ctx, label + ": weighting matrix", flat(c["vc"]), flat(vc), 0)
        if hard_bound is not None:
            ctx.prove_true(label + ": hard bound option", bool(c["hard_bound"]) == hard_bound)
        return
    c = ctx.opt.calls[i]
    k = G.shape[1]
    if c.get("kind") == "cut" or "fun" not in c:
        ctx.prove_true(label, False, "no minimisation")
        return
    names = ["mp%d_%d" % (i, j) for j in range(k - 1)]
    p = [ctx.var(nm, F(2 + 3 * j, 7), -1 if j == 0 else 0, 1 if j == 0 else None) for j, nm in enumerate(names)]
    p0 = [ctx.num(F(1, 3 + j)) for j in range(k - 1)]

    def q(p):
        v = ctx.colvec([p[0], p[0] * p[0]] + list(p[1:]))
        r = g - ctx.dot(G, v)
        return sc(ctx.dot(r.T, r) if vc is None else ctx.dot(r.T, ctx.inv(vc), r))
    fp, f0 = sc(c["fun"](p)), sc(c["fun"](p0))
    ctx.prove_eq(label, fp * q(p0), f0 * q(p))


def kp98(ctx, u, Wd):
    """Kelejian-Prucha (1998) moments of residuals u: (G, g)"""
    d = ctx.dot
    n = u.shape[0]
    wu = d(Wd, u)
    wwu = d(Wd, wu)
    ip = lambda a, b: (a * b).sum()
    tr = trace(d(Wd.T, Wd))
    N = ctx.num(n)
    G = ctx.A([[2 * ip(u, wu), -ip(wu, wu), N], [2 * ip(wu, wwu), -ip(wwu, wwu), tr], [ip(u, wwu) + ip(wu, wu), -ip(wu, wwu), ctx.num(0)]])
    g = ctx.colvec([ip(u, u), ip(wu, wu), ip(u, wu)])
    return G, g


# ---- regimes -----------------------------------------------------------------
REG8 = ["b", "a", "b", "a", "a", "b", "b", "a", "a", "b"]
REG3 = [3, 1, 2, 1, 3, 2, 1, 2, 3, 3, 1, 2]


def regset(regimes):
    return sorted(set(regimes))


def ids_of(regimes, r):
    return [i for i, v in enumerate(regimes) if v == r]


def block(ctx, X, regimes, flags, names=None):
    """columns with flag True split by regime (sorted labels), then the common ones; names alongside"""
    n = X.shape[0]
    out, nm = [], []
    names = names or [str(j) for j in range(X.shape[1])]
    for r in regset(regimes):
        ind = ctx.col([1 if v == r else 0 for v in regimes])
        for j in range(X.shape[1]):
            if flags[j]:
                out.append(X[:, [j]] * ind)
                nm.append("%s_%s" % (r, names[j]))
    for j in range(X.shape[1]):
        if not flags[j]:
            out.append(X[:, [j]])
            nm.append("_Global_" + names[j])
    return np.hstack(out), nm


def wald(ctx, b, V, R):
    """Wald statistic of R b = 0 and its p-value"""
    v = ctx.dot(R, b)
    s = sc(ctx.dot(v.T, ctx.inv(ctx.dot(R, V, R.T)), v))
    return s, ctx.chi2sf(s, R.shape[0])


def chow_ref(ctx, names, b, V, varying, labels, fmt="%s_%s"):
    """per-variable and joint Wald tests of equality over regimes, from the coefficient names"""
    pos = {nm: i for i, nm in enumerate(names)}
    rows, each = [], []
    for v in varying:
        r = []
        for s in labels[1:]:
            row = [0] * len(names)
            row[pos[fmt % (labels[0], v)]] = 1
            row[pos[fmt % (s, v)]] = -1
            r.append(row)
        rows += r
        each.append(wald(ctx, b, V, ctx.A(r)))
    return wald(ctx, b, V, ctx.A(rows)), each


def table_by_name(m):
    """row name -> (coefficient, std error, statistic, probability)"""
    o = m.output
    return {nm: (c, s, z, p) for nm, c, s, z, p in zip(list(o["var_names"]), list(o["coefficients"]), list(o["std_err"]),
                                                     list(o["zt_stat"]), list(o["prob"]))}
