"""reference for systems of equations"""
from common import *


def split(b, ks):
    out, a = [], 0
    for k in ks:
        out.append(b[a:a + k])
        a += k
    return out


def resid(ctx, ys, Zs, bs):
    return np.hstack([y - ctx.dot(Z, b) for y, Z, b in zip(ys, Zs, bs)])


class GLS:
    """(Z' (S^-1 x I) Z)^-1 Z' (S^-1 x I) y with S = E'E/n"""

    def __init__(self, ctx, ys, Zs, E):
        d, N = ctx.dot, len(ys)
        n = E.shape[0]
        self.sig = d(E.T, E) / ctx.num(n)
        Si = self.sigi = ctx.inv(self.sig)
        self.ks = [Z.shape[1] for Z in Zs]
        M = np.vstack([np.hstack([d(Zs[i].T, Zs[j]) * Si[i, j] for j in range(N)]) for i in range(N)])
        v = np.vstack([sum((d(Zs[i].T, ys[j]) * Si[i, j] for j in range(1, N)), d(Zs[i].T, ys[0]) * Si[i, 0]) for i in range(N)])
        self.M, self.v = M, v
        self.V = ctx.inv(M)
        self.b = d(self.V, v)
        self.bs = split(self.b, self.ks)


class Est:
    """results of the system estimator at its i-th call, whose inputs are checked (the estimator itself: P19)"""

    def __init__(self, ctx, i, ys, Zs, E, label=""):
        if len(ctx.est_calls) <= i:
            g = GLS(ctx, ys, Zs, E)
            ctx.prove_true("system estimation %d" % i, False, "not called")
            self.__dict__.update(g.__dict__)
            return
        c, N, d = ctx.est_calls[i], len(ys), ctx.dot
        dn = lambda a: a.toarray() if hasattr(a, "toarray") else a
        for r in range(N):
            for t in range(N):
                ctx.prove_eq("%scross products %d%d" % (label, r, t), [dn(c["XX"][r, t]), dn(c["Xy"][r, t])],
                             [d(Zs[r].T, Zs[t]), d(Zs[r].T, ys[t])])
        ctx.prove_eq(label + "residuals behind the error covariance", c["E"], E, shape=E.shape)
        ctx.prove_true(label + "dimensions", [int(k) for k in np.asarray(c["K"]).reshape(-1)] == [Z.shape[1] for Z in Zs], c["K"])
        b, self.V, self.sig = c["out"]
        self.bs = [b[r] for r in range(N)]
        self.b = np.vstack(self.bs)
        self.ks = [Z.shape[1] for Z in Zs]


def logdet(ctx, S):
    return ctx.log(ctx.det(S))


def corr(ctx, S):
    n = S.shape[0]
    s = [ctx.sqrt(S[i, i]) for i in range(n)]
    return ctx.A([[S[i, j] / (s[i] * s[j]) for j in range(n)] for i in range(n)])


def setp(ctx, label, got, bs, V):
    """per equation: standard errors, z, p"""
    a = 0
    for r, b in enumerate(bs):
        k = b.shape[0]
        se = [ctx.sqrt(V[a + i, a + i]) for i in range(k)]
        z = [b[i, 0] / se[i] for i in range(k)]
        ctx.prove_eq("%s of equation %d" % (label, r), got[r], np.array([[s, t, ctx.p2(t)] for s, t in zip(se, z)], dtype=V.dtype), shape=(k, 3))
        a += k


def equal_coefs(ctx, bs, V):
    """Wald tests that coefficient i is the same in all equations"""
    k, N = bs[0].shape[0], len(bs)
    b = np.vstack(bs)
    out = []
    for i in range(k):
        R = []
        for r in range(1, N):
            row = [0] * (k * N)
            row[i], row[r * k + i] = 1, -1
            R.append(row)
        s, p = wald(ctx, b, V, ctx.A(R))
        out += [s, ctx.num(N - 1), p]
    return out


def triples(t):
    return [v for a in t for v in a]


def regime_chows(ctx, m, bs, V, names, varying, labels):
    """Wald tests of equal coefficients over regimes, equation by equation; names are those in coefficient order"""
    a = 0
    for r, b in enumerate(bs):
        k = b.shape[0]
        j, e = chow_ref(ctx, names[r], b, V[a:a + k, a:a + k], varying[r], labels)
        got = m.chow_regimes[r]
        ctx.prove_eq("Chow tests by variable, equation %d" % r, got[1], pairs(e), shape=(len(varying[r]), 2))
        ctx.prove_eq("joint Chow test, equation %d" % r, list(got[0]), list(j))
        a += k
