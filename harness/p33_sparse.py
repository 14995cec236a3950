"""Sparse / dense helpers: matrices up to 4 x 3 with every stored entry symbolic, sparsity patterns with empty rows and columns,
every combination of dense, CSR and CSC arguments."""
from symx.ctx import add_case
from common import *

PAT = dict(full=[[1, 1, 1], [1, 1, 1], [1, 1, 1]], gaps=[[0, 1, 0], [1, 0, 1], [0, 0, 0]], tri=[[1, 1, 0], [0, 1, 1], [0, 0, 1]],
           wide=[[1, 0, 1, 1], [0, 0, 1, 0]], tall=[[1, 0], [0, 1], [1, 1], [0, 0]], four=[[1, 1, 0, 0], [0, 1, 0, 1], [1, 0, 1, 0], [0, 1, 1, 1]])


def mat(ctx, pat, nm):
    return ctx.A([[ctx.var("%s%d%d" % (nm, i, j), F(4 * i * i - 3 * j + 5 + 7 * (i == j), 2 + j)) if c else ctx.num(0)
                   for j, c in enumerate(r)] for i, r in enumerate(PAT[pat])])


def conv(ctx, spreg, a, kind):
    if kind == "nd":
        return a
    SP = spreg.sputils.SP
    return (SP.csr_matrix if kind == "csr" else SP.csc_matrix)(a)


def dn(a):
    return a.toarray() if hasattr(a, "toarray") else np.asarray(a)


KINDS = ("nd", "csr", "csc")
spname = lambda a: type(a).__name__


def products(ctx, spreg):
    p = ctx.p
    a, b = mat(ctx, p["a"], "a"), mat(ctx, p["b"], "b")
    exp = ctx.dot(a, b)
    S = spreg.sputils
    for ka in KINDS:
        for kb in KINDS:
            A, B = conv(ctx, spreg, a, ka), conv(ctx, spreg, b, kb)
            r = S.spdot(A, B)
            ctx.prove_true("product %s %s is dense" % (ka, kb), isinstance(r, np.ndarray), spname(r))
            ctx.prove_eq("product %s %s" % (ka, kb), dn(r), exp, shape=exp.shape)
            ctx.prove_eq("product %s %s kept sparse" % (ka, kb), dn(S.spdot(A, B, array_out=False)), exp, shape=exp.shape)
            ctx.prove_eq("arguments of %s %s are left alone" % (ka, kb), [dn(A), dn(B)], [a, b])
    for bad in ([1, 2], "x", None):
        ctx.raises("product with %s" % type(bad).__name__, lambda: S.spdot(a, bad))


def elementwise(ctx, spreg):
    p = ctx.p
    a, b = mat(ctx, p["a"], "a"), mat(ctx, p["b"], "b")
    S = spreg.sputils
    for ka in KINDS:
        for kb in KINDS:
            if (ka == "nd") != (kb == "nd"):
                ctx.raises("elementwise product %s %s" % (ka, kb), lambda: S.spmultiply(conv(ctx, spreg, a, ka), conv(ctx, spreg, b, kb)))
                continue
            A, B = conv(ctx, spreg, a, ka), conv(ctx, spreg, b, kb)
            ctx.prove_eq("elementwise product %s %s" % (ka, kb), dn(S.spmultiply(A, B)), a * b, shape=a.shape)
            ctx.prove_eq("elementwise product %s %s kept sparse" % (ka, kb), dn(S.spmultiply(A, B, array_out=False)), a * b, shape=a.shape)


def stack(ctx, spreg):
    p = ctx.p
    a, b = mat(ctx, p["a"], "a"), mat(ctx, p["b"], "b")
    S = spreg.sputils
    exp = np.hstack([a, b])
    for ka in KINDS:
        for kb in KINDS:
            A, B = conv(ctx, spreg, a, ka), conv(ctx, spreg, b, kb)
            if "csr" not in (ka, kb) and (ka, kb) != ("nd", "nd"):
                ctx.raises("stack %s %s" % (ka, kb), lambda: S.sphstack(A, B))
                continue
            ctx.prove_eq("stack %s %s" % (ka, kb), dn(S.sphstack(A, B)), exp, shape=exp.shape)
            r = S.sphstack(A, B, array_out=True)
            ctx.prove_true("stack %s %s as an array" % (ka, kb), isinstance(r, np.ndarray), spname(r))
            ctx.prove_eq("stack %s %s as an array" % (ka, kb), dn(r), exp, shape=exp.shape)


def broadcast(ctx, spreg):
    p = ctx.p
    a = mat(ctx, p["a"], "a")
    n = a.shape[0]
    b = ctx.A([[ctx.var("d%d" % i, F(2 * i - 1, 3))] for i in range(n)])
    S = spreg.sputils
    exp = a * b
    ctx.prove_eq("scaled rows, dense", S.spbroadcast(a, b), exp, shape=a.shape)
    A = conv(ctx, spreg, a, "csr")
    d = b.reshape(-1)
    ctx.prove_eq("scaled rows, sparse", dn(S.spbroadcast(A, d)), exp, shape=a.shape)
    ctx.prove_eq("scaled rows, sparse, as an array", dn(S.spbroadcast(A, d, array_out=True)), exp, shape=a.shape)
    ctx.prove_eq("the argument is left alone", dn(A), a)
    ctx.raises("scaled rows of a list", lambda: S.spbroadcast([1, 2], d))


def extremes(ctx, spreg):
    S = spreg.sputils
    v = [ctx.var("v%d" % i, b) for i, b in enumerate((F(1, 3), F(-2), F(5, 7)))]
    for nm, a in (("dense", ctx.A([[v[0], v[1]], [v[2], ctx.num(F(1, 2))]])), ("with zeros", ctx.A([[v[0], ctx.num(0)], [v[2], v[1]]]))):
        al = list(a.reshape(-1))
        for k in ("nd", "csr"):
            A = conv(ctx, spreg, a, k)
            lo, hi = S.spmin(A), S.spmax(A)
            ctx.prove_ge("minimum, %s %s" % (nm, k), [e - lo for e in al])
            ctx.prove_ge("maximum, %s %s" % (nm, k), [hi - e for e in al])
            pr = lambda t: np.prod(np.array([t - e for e in al], dtype=object if ctx.mode == "sym" else float))
            ctx.prove_eq("extremes are entries, %s %s" % (nm, k), [pr(lo), pr(hi)], [ctx.num(0), ctx.num(0)])


def inverse(ctx, spreg):
    p = ctx.p
    a = mat(ctx, p["a"], "a") + ctx.num(0)
    n = a.shape[0]
    if p.get("swap"):
        a = a[[1, 0] + list(range(2, n))]
    S = spreg.sputils
    det = ctx.det(a)
    if not (det > 0 if p.get("pos") else det != 0):
        return
    for k in ("nd", "csc"):
        A = conv(ctx, spreg, a, k)
        ctx.prove_eq("inverse " + k, ctx.dot(a, dn(S.spinv(A))), ctx.eye(n), shape=(n, n), tol=1e-6)
        ctx.prove_eq("argument of the inverse is left alone", dn(A), a)
        ctx.prove_eq("log determinant " + k, S.splogdet(A), ctx.log(ctx.abs(det)), tol=1e-6)


def diagonal(ctx, spreg):
    S = spreg.sputils
    for pat in ("full", "gaps", "four"):
        a = mat(ctx, pat, "a")
        n = a.shape[0]
        v = ctx.var("v", F(9, 4))
        for k in ("nd", "csr", "csc"):
            A = conv(ctx, spreg, a + ctx.num(0), k)
            r = dn(S.spfill_diagonal(A, v))
            e = a + ctx.num(0)
            for i in range(n):
                e[i, i] = v
            ctx.prove_eq("filled diagonal %s %s" % (pat, k), r, e, shape=a.shape)
            ctx.prove_true("finite", bool(S.spisfinite(A)))


for a, b in (("full", "gaps"), ("gaps", "gaps"), ("wide", "tall"), ("tall", "wide"), ("tri", "full")):
    add_case("P33", "product_%s_%s" % (a, b), products, a=a, b=b)
for a, b in (("full", "gaps"), ("gaps", "tri"), ("wide", "wide"), ("tall", "tall")):
    add_case("P33", "elementwise_%s_%s" % (a, b), elementwise, a=a, b=b)
for a, b in (("full", "gaps"), ("gaps", "full"), ("tall", "four"), ("four", "tall")):
    add_case("P33", "stack_%s_%s" % (a, b), stack, a=a, b=b)
for a in ("full", "gaps", "wide", "tall"):
    add_case("P33", "broadcast_" + a, broadcast, a=a)
add_case("P33", "extremes", extremes)
for a in ("full", "tri", "four"):
    add_case("P33", "inverse_" + a, inverse, a=a)
    add_case("P33", "inverse_swap_" + a, inverse, a=a, swap=True)
add_case("P33", "diagonal", diagonal)
