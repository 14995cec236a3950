"""Exact linear algebra on object arrays of Sym."""
from fractions import Fraction

import numpy as np

from . import poly as P
from . import sym as Y
from .sym import Sym, as_sym, ZERO, ONE, const


def to_obj(a):
    """object ndarray of Sym (nan/inf stay floats)"""
    from .sparse import SpMat
    if isinstance(a, SpMat):
        a = a.dense()
    a = np.asarray(a)
    if a.dtype == object:
        flat = a.reshape(-1)
        if all(type(x) is Sym for x in flat):
            return a
    out = np.empty(a.shape, dtype=object)
    o = out.reshape(-1)
    for i, x in enumerate(a.reshape(-1)):
        s = as_sym(x)
        if s is NotImplemented:
            raise Y.Unsupported("cannot convert %r" % (x,))
        o[i] = float(x) if s is None else s
    return out


def poisoned(a):
    return any(type(x) is not Sym for x in a.reshape(-1))


def nanlike(shape):
    out = np.empty(shape, dtype=object)
    out.reshape(-1)[:] = float("nan")
    return out


def fracs(A):
    if all(x.is_const() for x in A.reshape(-1)):
        n, m = A.shape
        return [[A[i, j].const() for j in range(m)] for i in range(n)]
    return None


def from_fracs(M):
    out = np.empty((len(M), len(M[0]) if M else 0), dtype=object)
    for i, r in enumerate(M):
        for j, x in enumerate(r):
            out[i, j] = const(x)
    return out


def frac_inv(M):
    n = len(M)
    A = [list(r) + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(M)]
    for k in range(n):
        piv = next((i for i in range(k, n) if A[i][k] != 0), None)
        if piv is None:
            raise np.linalg.LinAlgError("Singular matrix")
        A[k], A[piv] = A[piv], A[k]
        p = A[k][k]
        if p != 1:
            A[k] = [x / p for x in A[k]]
        for i in range(n):
            if i != k and A[i][k] != 0:
                f = A[i][k]
                rk = A[k]
                A[i] = [x - f * y if y else x for x, y in zip(A[i], rk)]
    return [r[n:] for r in A]


def frac_det(M):
    n = len(M)
    A = [list(r) for r in M]
    d = Fraction(1)
    for k in range(n):
        piv = next((i for i in range(k, n) if A[i][k] != 0), None)
        if piv is None:
            return Fraction(0)
        if piv != k:
            A[k], A[piv] = A[piv], A[k]
            d = -d
        d *= A[k][k]
        for i in range(k + 1, n):
            if A[i][k] != 0:
                f = A[i][k] / A[k][k]
                A[i] = [x - f * y for x, y in zip(A[i], A[k])]
    return d


def frac_rank(M):
    A = [list(r) for r in M]
    n, m = len(A), len(A[0]) if A else 0
    r = 0
    for c in range(m):
        piv = next((i for i in range(r, n) if A[i][c] != 0), None)
        if piv is None:
            continue
        A[r], A[piv] = A[piv], A[r]
        for i in range(r + 1, n):
            if A[i][c] != 0:
                f = A[i][c] / A[r][c]
                A[i] = [x - f * y for x, y in zip(A[i], A[r])]
        r += 1
        if r == n:
            break
    return r


def charpoly_adj(A):
    """Faddeev-LeVerrier on a matrix of polynomial Syms: (det, adjugate)"""
    n = A.shape[0]
    if n == 0:
        return ONE, A.copy()
    if n == 1:
        o = np.empty((1, 1), dtype=object)
        o[0, 0] = ONE
        return A[0, 0], o
    I = eye(n)
    M = I
    c = None
    for k in range(1, n + 1):
        AM = A.dot(M)
        tr = ZERO
        for i in range(n):
            tr = tr + AM[i, i]
        c = tr * const(Fraction(-1, k))
        if k == n:
            break
        M = AM + I * c
    sgn = -1 if n % 2 else 1
    det = c if sgn > 0 else -c
    adj = M if sgn < 0 else -M      # adj = (-1)^(n-1) M_n
    return det, adj


def eye(n):
    o = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            o[i, j] = ONE if i == j else ZERO
    return o


def small_det(A):
    n = A.shape[0]
    if n == 1:
        return A[0, 0]
    if n == 2:
        return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    # Laplace by column subsets
    memo = {0: ONE}
    cur = {0: ONE}
    for r in range(n):
        nxt = {}
        for mask, v in cur.items():
            if v.is_zero():
                continue
            for c in range(n):
                if mask >> c & 1:
                    continue
                x = A[r, c]
                if x.is_zero():
                    continue
                t = x * v
                if bin(mask >> (c + 1)).count("1") & 1:
                    t = -t
                m2 = mask | 1 << c
                nxt[m2] = nxt[m2] + t if m2 in nxt else t
        cur = nxt
    return cur.get((1 << n) - 1, ZERO)


def _clear_rows(A):
    """A = diag(1/s) * B with B polynomial entries; returns B, list of s (Sym)"""
    n = A.shape[0]
    Bm = np.empty(A.shape, dtype=object)
    ss = []
    for i in range(n):
        l = {}
        d = 1
        for x in A[i]:
            d = d * x.d // P.gcd(d, x.d)
            for k, e in x.f:
                if l.get(k, 0) < e:
                    l[k] = e
        p = {0: d}
        for k, e in l.items():
            p = Y.mul(p, Y.powr(Y.S.factors[k], e))
        s = Sym(p)
        ss.append(s)
        for j in range(A.shape[1]):
            Bm[i, j] = A[i, j] * s
    return Bm, ss


def _block_tri(A):
    return None


def det(A):
    A = to_obj(A)
    if poisoned(A):
        return float("nan")
    n = A.shape[0]
    if A.shape[0] != A.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    if n == 0:
        return ONE
    M = fracs(A)
    if M is not None:
        return const(frac_det(M))
    Bm, ss = _clear_rows(A)
    nz = sum(1 for x in Bm.reshape(-1) if not x.is_zero())
    if n <= 5 or nz <= 4 * n:
        d = small_det(Bm)
    else:
        d, _ = charpoly_adj(Bm)
    for s in ss:
        d = d / s
    return d


def inv(A):
    A = to_obj(A)
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    if poisoned(A):
        return nanlike(A.shape)
    n = A.shape[0]
    if n == 0:
        return A.copy()
    M = fracs(A)
    if M is not None:
        return from_fracs(frac_inv(M))
    # block diagonal split keeps the polynomials small
    comps = _components(A)
    if len(comps) > 1:
        out = np.empty((n, n), dtype=object)
        out.reshape(-1)[:] = ZERO
        for c in comps:
            ix = np.ix_(c, c)
            out[ix] = inv(A[ix])
        return out
    Bm, ss = _clear_rows(A)
    if n == 1:
        d = Bm[0, 0]
        adj = eye(1)
    elif n <= 4:
        d = small_det(Bm)
        adj = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                r = [a for a in range(n) if a != i]
                c = [a for a in range(n) if a != j]
                m = small_det(Bm[np.ix_(r, c)])
                adj[j, i] = -m if (i + j) & 1 else m
    else:
        d, adj = charpoly_adj(Bm)
    if d.is_zero():
        raise np.linalg.LinAlgError("Singular matrix")
    di = Y.inverse(d)
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[i, j] = adj[i, j] * di * ss[j]
    return out


def _components(A):
    n = A.shape[0]
    lab = list(range(n))

    def find(x):
        while lab[x] != x:
            x = lab[x]
        return x
    for i in range(n):
        for j in range(n):
            if i != j and not A[i, j].is_zero():
                lab[find(i)] = find(j)
    d = {}
    for i in range(n):
        d.setdefault(find(i), []).append(i)
    return list(d.values())


def solve(A, b):
    A = to_obj(A)
    b = to_obj(b)
    return inv(A).dot(b)


def rank(A):
    A = to_obj(A)
    if A.ndim < 2:
        A = A.reshape(1, -1)
    M = fracs(A)
    if M is not None:
        return frac_rank(M)
    # generic rank: rank at a random rational point (a lower bound that is generically exact)
    import random
    rng = random.Random(7)
    vals = {}

    def ev(p):
        t = 0
        for k, c in p.items():
            m = c
            for i, e in P.exps(k):
                v = vals.get(i)
                if v is None:
                    v = vals[i] = Fraction(rng.randrange(3, 1000), rng.randrange(3, 1000))
                m *= v ** e
            t += m
        return t
    Y.S.assumptions.add("generic rank: rank-deficient input points form a null set and are excluded")
    return frac_rank([[ev(x.n) / ev(Y.den_poly(x)) for x in r] for r in A])


def pinv(A):
    A = to_obj(A)
    n, m = A.shape
    r = rank(A)
    if n == m and r == n:
        return inv(A)
    if r == m:
        return inv(A.T.dot(A)).dot(A.T)
    if r == n:
        return A.T.dot(inv(A.dot(A.T)))
    raise Y.Unsupported("rank deficient pinv")


def rational_eigvals(M, cplx=False):
    """exact eigenvalues (with multiplicity) of a rational matrix with rational spectrum"""
    F = np.array([[float(x) for x in r] for r in M])
    n = len(M)
    if n == 0:
        return []
    # similarity to symmetric is common (row-standardised); plain eig is fine
    ev = np.linalg.eigvals(F)
    cand = []
    pairs = []
    for e in ev:
        re = Fraction(float(e.real)).limit_denominator(200)
        if abs(e.imag) > 1e-6:
            if e.imag > 0:
                pairs.append((re, Fraction(float(e.imag ** 2)).limit_denominator(1000)))
        else:
            cand.append(re)
    # exact check: charpoly by Faddeev-LeVerrier == prod (x-e)
    c = [Fraction(1)]
    Mk = [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    for k in range(1, n + 1):
        AM = [[sum(M[i][a] * Mk[a][j] for a in range(n) if M[i][a]) for j in range(n)] for i in range(n)]
        ck = -sum(AM[i][i] for i in range(n)) / k
        c.append(ck)
        Mk = [[AM[i][j] + (ck if i == j else 0) for j in range(n)] for i in range(n)]
    q = [Fraction(1)]
    for e in cand:
        q = [a - e * b for a, b in zip(q + [0], [0] + q)]
    for a, b2 in pairs:
        k2 = a * a + b2
        q = [x - 2 * a * y + k2 * z for x, y, z in zip(q + [0, 0], [0] + q + [0], [0, 0] + q)]
    if q != c:
        raise Y.Unsupported("irrational spectrum")
    if pairs:
        if not cplx:
            raise Y.Unsupported("complex spectrum")
        out = [const(e) for e in sorted(cand)]
        for a, b2 in pairs:
            s = Y.sqrt_const(b2)
            out += [Y.CSym(const(a), s), Y.CSym(const(a), -s)]
        return out
    return sorted(cand)


def charpoly(A):
    """coefficients c_0=1, c_1.. of det(xI-A) (Faddeev-LeVerrier)"""
    n = A.shape[0]
    I = eye(n)
    M = I
    c = [ONE]
    for k in range(1, n + 1):
        AM = A.dot(M)
        tr = ZERO
        for i in range(n):
            tr = tr + AM[i, i]
        ck = tr * const(Fraction(-1, k))
        c.append(ck)
        M = AM + I * ck
    return c


EIG = {}


def eigvals(A):
    """eigenvalues in ascending order; irrational ones become atoms keyed by the characteristic polynomial"""
    A = to_obj(A)
    n = A.shape[0]
    if n == 1:
        return A.reshape(-1).copy()
    M = fracs(A)
    out = np.empty(n, dtype=object)
    if M is not None:
        try:
            ev = rational_eigvals(M, True)
            if any(type(e) is Y.CSym for e in ev):
                out = out.view(Y.CArr)
                out[:] = ev
            else:
                out[:] = [const(e) for e in ev]
            return out
        except Y.Unsupported:
            pass
    c = charpoly(A)
    lst = Y.S.fn_atoms.setdefault(("eig", n), [])
    for c0, vals in lst:
        if all(Y.same(a, b) for a, b in zip(c0, c)):
            out[:] = vals
            return out
    Y.S.assumptions.add("spectra requested by the code are real (symmetric or similar to symmetric matrices)")
    vals = []
    prev = None
    for i in range(n):
        v = Y.S.new_var("eig@%d_%d" % (len(Y.S.vars), i), "eig", {"c": c, "i": i, "prev": prev})
        prev = v.idx
        vals.append(Sym(Y.var_poly(v.idx)))
    lst.append((c, vals))
    out[:] = vals
    return out


def eigh(A):
    """rational spectrum, symmetric: eigenvectors by exact null spaces, orthonormalised"""
    A = to_obj(A)
    M = fracs(A)
    if M is None:
        return eigh_known(A)
    ev = rational_eigvals(M)
    n = len(M)
    vecs = []
    for e in sorted(set(ev)):
        K = [[M[i][j] - (e if i == j else 0) for j in range(n)] for i in range(n)]
        basis = nullspace(K)
        orth = []
        for v in basis:
            v = list(v)
            for u in orth:
                f = sum(a * b for a, b in zip(u, v)) / sum(a * a for a in u)
                v = [a - f * b for a, b in zip(v, u)]
            orth.append(v)
        for v in orth:
            nr = Y.sqrt_const(sum(a * a for a in v))
            vecs.append([const(a) / nr for a in v])
    w = np.empty(n, dtype=object)
    w[:] = [const(e) for e in ev]
    V = np.empty((n, n), dtype=object)
    for j, v in enumerate(vecs):
        for i in range(n):
            V[i, j] = v[i]
    Y.S.fn_atoms.setdefault("bases", []).append(V)
    return w, V


def eigh_known(A):
    """symbolic symmetric matrix that shares the eigenvectors of a matrix decomposed before"""
    n = A.shape[0]
    for V in Y.S.fn_atoms.get("bases", []):
        if V.shape[0] != n:
            continue
        D = V.T @ (A @ V)
        if all(as_sym(D[i, j]).is_zero() for i in range(n) for j in range(n) if i != j):
            Y.S.assumptions.add("eigenpairs of a symbolic matrix are taken in an arbitrary order")
            w = np.empty(n, dtype=object)
            w[:] = [as_sym(D[i, i]) for i in range(n)]
            return w, V
    raise Y.Unsupported("symbolic eigh")


def eig(A):
    """rational matrix with a rational spectrum"""
    A = to_obj(A)
    M = fracs(A)
    if M is None:
        raise Y.Unsupported("symbolic eig")
    n = len(M)
    if all(M[i][j] == M[j][i] for i in range(n) for j in range(n)):
        ev = rational_eigvals(M)
        if len(set(ev)) < n:
            raise Y.Unsupported("eig of a symmetric matrix with repeated eigenvalues")
        return eigh(A)
    ev = rational_eigvals(M)
    w = np.empty(n, dtype=object)
    V = np.empty((n, n), dtype=object)
    j = 0
    for e in sorted(set(ev)):
        basis = nullspace([[M[a][b] - (e if a == b else 0) for b in range(n)] for a in range(n)])
        if len(basis) > 1 or ev.count(e) > 1:
            raise Y.Unsupported("eig with repeated eigenvalues")
        v = list(basis[0])
        nr = Y.sqrt_const(sum(a * a for a in v))
        w[j] = const(e)
        for i in range(n):
            V[i, j] = const(v[i]) / nr
        j += 1
    return w, V


def nullspace(K):
    A = [list(r) for r in K]
    n = len(A)
    piv = []
    r = 0
    for c in range(n):
        p = next((i for i in range(r, n) if A[i][c] != 0), None)
        if p is None:
            continue
        A[r], A[p] = A[p], A[r]
        x = A[r][c]
        A[r] = [a / x for a in A[r]]
        for i in range(n):
            if i != r and A[i][c] != 0:
                f = A[i][c]
                A[i] = [a - f * b for a, b in zip(A[i], A[r])]
        piv.append(c)
        r += 1
    out = []
    for c in range(n):
        if c in piv:
            continue
        v = [Fraction(0)] * n
        v[c] = Fraction(1)
        for i, pc in enumerate(piv):
            v[pc] = -A[i][c]
        out.append(v)
    return out


def cholesky(A):
    A = to_obj(A)
    n = A.shape[0]
    L = np.empty((n, n), dtype=object)
    L.reshape(-1)[:] = ZERO
    for j in range(n):
        s = A[j, j]
        for k in range(j):
            s = s - L[j, k] * L[j, k]
        L[j, j] = Y.sqrt(s)
        for i in range(j + 1, n):
            t = A[i, j]
            for k in range(j):
                t = t - L[i, k] * L[j, k]
            L[i, j] = t / L[j, j]
    return L
