"""A small sparse-matrix class over Sym, mirroring scipy.sparse semantics used by spreg."""
import numpy as np

from . import sym as Y
from .sym import Sym, as_sym, ZERO, ONE, const


def _obj(a):
    from .la import to_obj
    return to_obj(a)


def _zeros(shape):
    o = np.empty(shape, dtype=object)
    o.reshape(-1)[:] = ZERO
    return o


class SpMat:
    fmt = "csr"
    is_array = False
    __array_priority__ = 10.1
    ndim = 2

    def __init__(self, arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, SpMat):
            self._set(arg.dense(), arg.mask())
        elif isinstance(arg, tuple) and len(arg) == 2 and all(isinstance(x, (int, np.integer)) for x in arg):
            self._set(_zeros(arg), np.zeros(arg, bool))
        elif isinstance(arg, tuple) and self.fmt == "dia":
            data, offs = arg
            data = np.array(list(data), dtype=object) if not isinstance(data, np.ndarray) else data
            data = np.atleast_2d(_obj(np.asarray(data)))
            offs = np.atleast_1d(offs)
            A = _zeros(shape)
            M = np.zeros(shape, bool)
            for r, o in enumerate(offs):
                for j in range(data.shape[1]):
                    i = j - o
                    if 0 <= i < shape[0] and j < shape[1]:
                        A[i, j] = data[r, j]
                        M[i, j] = not _iszero(data[r, j])
            self._set(A, M)
        elif isinstance(arg, tuple) and len(arg) == 2:
            data, (r, c) = arg
            data = _obj(np.asarray(data)).reshape(-1)
            r = np.asarray(r).astype(int).reshape(-1)
            c = np.asarray(c).astype(int).reshape(-1)
            if shape is None:
                shape = (int(r.max()) + 1, int(c.max()) + 1)
            A = _zeros(shape)
            M = np.zeros(shape, bool)
            for x, i, j in zip(data, r, c):
                A[i, j] = A[i, j] + x
                M[i, j] = True
            self._set(A, M)
        elif isinstance(arg, tuple) and len(arg) == 3:
            data, idx, ptr = arg
            data = _obj(np.asarray(data)).reshape(-1)
            idx = np.asarray(idx).astype(int)
            ptr = np.asarray(ptr).astype(int)
            if shape is None:
                shape = (len(ptr) - 1, int(idx.max()) + 1)
                if self.fmt == "csc":
                    shape = shape[::-1]
            A = _zeros(shape)
            M = np.zeros(shape, bool)
            for i in range(len(ptr) - 1):
                for p in range(ptr[i], ptr[i + 1]):
                    a, b = (i, idx[p]) if self.fmt != "csc" else (idx[p], i)
                    A[a, b] = A[a, b] + data[p]
                    M[a, b] = True
            self._set(A, M)
        else:
            if hasattr(arg, "toarray"):
                arg = arg.toarray()
            A = np.atleast_2d(_obj(np.asarray(arg)))
            self._set(A, np.array([[not _iszero(x) for x in r] for r in A], dtype=bool).reshape(A.shape))

    # ---- storage
    def _set(self, A, M):
        self.shape = A.shape
        if self.fmt == "csc":
            c, r = np.nonzero(M.T)
        else:
            r, c = np.nonzero(M)
        self._r, self._c = r, c
        d = np.empty(len(r), dtype=object)
        for k in range(len(r)):
            d[k] = A[r[k], c[k]]
        self.data = d

    @classmethod
    def of(cls, A, M=None):
        o = cls.__new__(cls)
        if M is None:
            M = np.array([[not _iszero(x) for x in r] for r in A], dtype=bool).reshape(A.shape)
        o._set(A, M)
        return o

    def dense(self):
        A = _zeros(self.shape)
        for i, j, x in zip(self._r, self._c, self.data):
            s = as_sym(x)
            A[i, j] = float(x) if s is None else s
        return A

    def mask(self):
        M = np.zeros(self.shape, bool)
        M[self._r, self._c] = True
        return M

    # ---- attributes
    @property
    def indices(self):
        return (self._r if self.fmt == "csc" else self._c).copy()

    @property
    def indptr(self):
        k, n = (self._c, self.shape[1]) if self.fmt == "csc" else (self._r, self.shape[0])
        return np.concatenate([[0], np.cumsum(np.bincount(k, minlength=n))]).astype(int)

    @property
    def nnz(self):
        return len(self.data)

    @property
    def size(self):
        return len(self.data)

    @property
    def row(self):
        return self._r

    @property
    def col(self):
        return self._c

    @property
    def dtype(self):
        return np.dtype(object)

    @property
    def format(self):
        return self.fmt

    @property
    def T(self):
        return self.transpose()

    def transpose(self, *a, **k):
        f = {"csr": "csc", "csc": "csr"}.get(self.fmt, self.fmt)
        return cls_for(f, self.is_array).of(self.dense().T, self.mask().T)

    def copy(self):
        o = type(self).__new__(type(self))
        o.shape, o._r, o._c, o.data = self.shape, self._r.copy(), self._c.copy(), self.data.copy()
        return o

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, *a, **k):
        return self

    def asformat(self, f, copy=False):
        if f is None or f == self.fmt:
            return self
        return cls_for(f, self.is_array).of(self.dense(), self.mask())

    def tocsr(self, copy=False):
        return self.copy() if copy and self.fmt == "csr" else self.asformat("csr")

    def tocsc(self, copy=False):
        return self.asformat("csc")

    def tocoo(self, copy=False):
        return self.asformat("coo")

    def tolil(self, copy=False):
        return self.asformat("lil")

    def todia(self, copy=False):
        return self.asformat("dia")

    def toarray(self, *a, **k):
        return self.dense()

    @property
    def A(self):
        return self.dense()

    def todense(self, *a, **k):
        return self.dense() if self.is_array else np.matrix(self.dense())

    def nonzero(self):
        k = [i for i, x in enumerate(self.data) if not _iszero(x)]
        return self._r[k], self._c[k]

    def eliminate_zeros(self):
        k = [i for i, x in enumerate(self.data) if not _iszero(x)]
        self._r, self._c, self.data = self._r[k], self._c[k], self.data[k]

    def sort_indices(self):
        pass

    def sum_duplicates(self):
        pass

    def getnnz(self, axis=None):
        return len(self.data) if axis is None else self.mask().sum(axis=axis)

    def count_nonzero(self):
        return len(self.nonzero()[0])

    def diagonal(self, k=0):
        return np.diagonal(self.dense(), k).copy()

    def trace(self):
        return self.diagonal().sum()

    def setdiag(self, v, k=0):
        A, M = self.dense(), self.mask()
        n = min(self.shape)
        v = np.asarray(list(v) if not np.isscalar(v) and not isinstance(v, (Sym, np.ndarray)) else v, dtype=object)
        v = v.reshape(-1)
        for i in range(n if v.size == 1 else min(n, v.size)):
            A[i, i] = as_sym(v[0] if v.size == 1 else v[i])
            M[i, i] = True
        self._set(A, M)

    def _wrapsum(self, v, axis):
        if self.is_array:
            return v
        return np.matrix(v.reshape((1, -1) if axis == 0 else (-1, 1)))

    def sum(self, axis=None, **k):
        A = self.dense()
        if axis is None:
            r = ZERO
            for x in self.data:
                r = r + x
            return r
        axis %= 2
        return self._wrapsum(A.sum(axis=axis), axis)

    def mean(self, axis=None, **k):
        n = self.shape[0] * self.shape[1] if axis is None else self.shape[axis]
        return self.sum(axis) / n

    def max(self, axis=None):
        A = self.dense()
        m = A.max() if axis is None else A.max(axis=axis)
        return m if axis is None else cls_for("coo", self.is_array)(np.atleast_2d(m) if axis == 0 else m.reshape(-1, 1))

    def min(self, axis=None):
        A = self.dense()
        m = A.min() if axis is None else A.min(axis=axis)
        return m if axis is None else cls_for("coo", self.is_array)(np.atleast_2d(m) if axis == 0 else m.reshape(-1, 1))

    # ---- algebra
    def _res(self, A, M):
        f = self.fmt if self.fmt in ("csr", "csc") else "csr"
        return cls_for(f, self.is_array).of(A, M)

    def dot(self, o):
        return self._matmul(o)

    def _matmul(self, o):
        if isinstance(o, (Sym, int, float, np.number)):
            return self._scale(o)
        if isinstance(o, SpMat):
            if self.shape[1] != o.shape[0]:
                raise ValueError("dimension mismatch")
            A = odot(self.dense(), o.dense())
            M = (self.mask().astype(int) @ o.mask().astype(int)) > 0
            return self._res(A, M)
        if hasattr(o, "toarray"):
            return self._matmul(SpMat.of(_obj(o.toarray())))
        b = np.asarray(o)
        if b.shape and b.shape[0] != self.shape[1]:
            raise ValueError("dimension mismatch")
        r = odot(self.dense(), _obj(b))
        if isinstance(o, np.matrix):
            r = np.matrix(r)
        return r

    def _rmatmul(self, o):
        b = np.asarray(o)
        r = odot(_obj(b), self.dense())
        if isinstance(o, np.matrix):
            r = np.matrix(r)
        return r

    def _scale(self, c):
        o = self.copy() if self.fmt in ("csr", "csc", "coo", "dia") else self.tocsr().copy()
        c = as_sym(c)
        d = o.data
        for i in range(len(d)):
            d[i] = d[i] * c if c is not None else float("nan")
        return o

    def multiply(self, o):
        if isinstance(o, (Sym, int, float, np.number)):
            return self._scale(o)
        if isinstance(o, SpMat):
            b, mb = o.dense(), o.mask()
        else:
            b = _obj(np.asarray(o))
            if b.size == 1:
                return self._scale(b.reshape(-1)[0])
            if b.ndim == 1:
                b = b.reshape(1, -1)
            mb = np.ones(b.shape, bool)
        A = self.dense() * b
        M = np.logical_and(self.mask(), mb)
        f = "csr" if isinstance(o, SpMat) else "coo"
        return cls_for(f, self.is_array).of(A, np.broadcast_to(M, A.shape))

    def power(self, n, dtype=None):
        o = self.copy()
        for i in range(len(o.data)):
            o.data[i] = o.data[i] ** n
        return o

    def __pow__(self, n):
        if self.is_array:
            return self.power(n)
        r = identity(self.shape[0], format="csr")
        for _ in range(int(n)):
            r = r @ self
        return r

    def __abs__(self):
        o = self.copy()
        for i in range(len(o.data)):
            o.data[i] = abs(o.data[i])
        return o

    def _map(self, f):
        o = self.copy()
        for i in range(len(o.data)):
            o.data[i] = f(o.data[i])
        return o

    def sqrt(self):
        return self._map(Y.sqrt)

    def __neg__(self):
        return self._scale(-1)

    def __matmul__(self, o):
        return self._matmul(o)

    def __rmatmul__(self, o):
        return self._rmatmul(o)

    def __mul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim == 0:
            o = o.item()
        if isinstance(o, (Sym, int, float, np.number)):
            return self._scale(o)
        if self.is_array:
            return self.multiply(o)
        return self._matmul(o)

    def __rmul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim == 0:
            o = o.item()
        if isinstance(o, (Sym, int, float, np.number)):
            return self._scale(o)
        if self.is_array:
            return self.multiply(o)
        return self._rmatmul(o)

    def __truediv__(self, o):
        if isinstance(o, (Sym, int, float, np.number)):
            return self._scale(ONE / o)
        b = o.dense() if isinstance(o, SpMat) else _obj(np.asarray(o))
        if b.size == 1:
            return self._scale(ONE / b.reshape(-1)[0])
        r = self.dense() / b
        return r if self.is_array else np.matrix(r)

    def _addsub(self, o, s, rev=False):
        if isinstance(o, SpMat):
            if self.shape != o.shape:
                raise ValueError("inconsistent shapes")
            A = self.dense() + o.dense() if s > 0 else self.dense() - o.dense()
            M = self.mask() | o.mask()
            return self._res(-A if rev and s < 0 else A, M)
        if isinstance(o, (int, float, Sym, np.number)):
            if as_sym(o) is not None and as_sym(o).is_zero():
                return self.copy() if not rev or s > 0 else -self
            raise NotImplementedError("adding a nonzero scalar to a sparse array is not supported")
        b = _obj(np.asarray(o))
        A = self.dense()
        r = A + b if s > 0 else (b - A if rev else A - b)
        return r if self.is_array else np.matrix(r)

    def __add__(self, o):
        return self._addsub(o, 1)

    def __radd__(self, o):
        return self._addsub(o, 1, True)

    def __sub__(self, o):
        return self._addsub(o, -1)

    def __rsub__(self, o):
        return self._addsub(o, -1, True)

    def _cmp(self, o, f):
        A = self.dense()
        b = o.dense() if isinstance(o, SpMat) else o
        return cls_for("csr", self.is_array)(np.array(f(A, b), dtype=bool).astype(int))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    __hash__ = None

    def __getitem__(self, ix):
        for i in ix if isinstance(ix, tuple) else (ix,):
            if type(i).__name__ == "Series":
                i.nonzero            # as in scipy: a boolean Series is no index
        A, M = self.dense(), self.mask()
        if isinstance(ix, SpMat):
            ix = np.array(ix.dense().astype(bool))
        if isinstance(ix, tuple) and len(ix) == 2 and all(isinstance(i, (int, np.integer)) for i in ix):
            return A[ix]
        B = A[ix]
        MB = M[ix]
        if isinstance(ix, tuple):
            if self.is_array:
                return B if B.ndim < 2 else self._res(B, MB)
            if B.ndim < 2:
                if isinstance(ix[1], (int, np.integer)):
                    B, MB = B.reshape(-1, 1), MB.reshape(-1, 1)
                else:
                    B, MB = B.reshape(1, -1), MB.reshape(1, -1)
        elif B.ndim < 2:
            if self.is_array:
                return cls_for("coo", True).of(B.reshape(1, -1), MB.reshape(1, -1))
            B, MB = B.reshape(1, -1), MB.reshape(1, -1)
        return self._res(B, MB)

    def __setitem__(self, ix, v):
        A = self.dense()
        M = self.mask()
        b = v.dense() if isinstance(v, SpMat) else (_obj(np.asarray(v)) if not isinstance(v, Sym) else v)
        if isinstance(b, np.ndarray) and b.ndim == 0:
            b = b.item()
        if isinstance(b, np.ndarray) and A[ix].shape != b.shape and b.size == A[ix].size:
            b = b.reshape(A[ix].shape)
        A[ix] = b
        M2 = np.zeros(self.shape, bool)
        M2[ix] = True
        nz = np.array([[not _iszero(x) for x in r] for r in A], dtype=bool).reshape(A.shape)
        self._set(A, np.where(M2, nz, M))

    def reshape(self, *shape, **k):
        if len(shape) == 1:
            shape = shape[0]
        return self._res(self.dense().reshape(shape), self.mask().reshape(shape))

    def __len__(self):
        raise TypeError("sparse array length is ambiguous; use getnnz() or shape[0] or shape[1]")

    def __repr__(self):
        return "<%s %s>" % (type(self).__name__, self.shape)


def _iszero(x):
    return x.is_zero() if type(x) is Sym else x == 0


def odot(a, b):
    """object dot that skips structural zeros"""
    if a.ndim == 1 or b.ndim == 1 or a.ndim == 0 or b.ndim == 0:
        return np.dot(a, b)
    n, m = a.shape[0], b.shape[1]
    out = np.empty((n, m), dtype=object)
    bn = [[(k, b[k, j]) for k in range(b.shape[0]) if not _iszero(b[k, j])] for j in range(m)]
    for i in range(n):
        row = a[i]
        for j in range(m):
            t = ZERO
            for k, x in bn[j]:
                y = row[k]
                if not _iszero(y):
                    t = t + y * x
            out[i, j] = t
    return out


def _mk(name, fmt, arr):
    return type(name, (SpMat,), {"fmt": fmt, "is_array": arr})


_CLS = {}
for _f in ("csr", "csc", "dia", "coo", "lil", "dok", "bsr"):
    for _a in (False, True):
        _n = _f + ("_array" if _a else "_matrix")
        _CLS[(_f, _a)] = globals()[_n] = _mk(_n, _f, _a)


def cls_for(f, arr=False):
    return _CLS[(f, arr)]


def identity(n, dtype=None, format=None):
    from .la import eye as _eye
    f = format or "dia"
    return cls_for(f).of(_eye(int(n)))


def eye(m, n=None, k=0, dtype=None, format=None):
    n = m if n is None else n
    A = _zeros((int(m), int(n)))
    for i in range(int(m)):
        if 0 <= i + k < n:
            A[i, i + k] = ONE
    return cls_for(format or "dia").of(A)


def _d(a):
    if isinstance(a, SpMat):
        return a.dense(), a.mask()
    A = np.atleast_2d(_obj(np.asarray(a)))
    return A, np.array([[not _iszero(x) for x in r] for r in A], dtype=bool).reshape(A.shape)


def kron(a, b, format=None):
    A, MA = _d(a)
    Bm, MB = _d(b)
    arr = getattr(a, "is_array", False) or getattr(b, "is_array", False)
    return cls_for(format or "coo", arr).of(np.kron(A, Bm), np.kron(MA, MB).astype(bool))


def hstack(bl, format=None, dtype=None):
    P = [_d(b) for b in bl]
    return cls_for(format or "coo").of(np.hstack([p[0] for p in P]), np.hstack([p[1] for p in P]))


def vstack(bl, format=None, dtype=None):
    P = [_d(b) for b in bl]
    return cls_for(format or "coo").of(np.vstack([p[0] for p in P]), np.vstack([p[1] for p in P]))


def block_diag(bl, format=None, dtype=None):
    P = [_d(b) for b in bl]
    n = sum(p[0].shape[0] for p in P)
    m = sum(p[0].shape[1] for p in P)
    A = _zeros((n, m))
    M = np.zeros((n, m), bool)
    i = j = 0
    for a, k in P:
        A[i:i + a.shape[0], j:j + a.shape[1]] = a
        M[i:i + a.shape[0], j:j + a.shape[1]] = k
        i += a.shape[0]
        j += a.shape[1]
    return cls_for(format or "coo").of(A, M)


def diags(d, offsets=0, shape=None, format=None, dtype=None):
    v = list(d) if not isinstance(d, np.ndarray) else d
    if np.ndim(offsets) == 0:
        a = np.empty(len(v), dtype=object)
        for i, x in enumerate(v):
            if isinstance(x, (list, np.ndarray)) and np.size(x) == 1:
                x = np.asarray(x).reshape(-1)[0]
            elif isinstance(x, (list, np.ndarray)):
                a = _obj(np.asarray(x)).reshape(-1)
                break
            a[i] = as_sym(x)
    else:
        assert list(offsets) == [0]
        a = _obj(np.asarray(v[0])).reshape(-1)
    n = len(a)
    A = _zeros((n, n))
    for i in range(n):
        A[i, i] = a[i]
    return cls_for(format or "dia").of(A)


def issparse(x):
    return isinstance(x, SpMat)


class SuperLUStub:
    def __init__(self, A):
        self._A = A
        self.shape = A.shape

    @property
    def U(self):
        from . import la
        n = self.shape[0]
        U = _zeros((n, n))
        d = la.det(self._A)
        if d.is_zero():
            raise RuntimeError("Factor is exactly singular")
        for i in range(n):
            U[i, i] = ONE
        U[0, 0] = d
        return cls_for("csc").of(U)

    def solve(self, b, trans="N"):
        from . import la
        A = _obj(self._A.dense() if isinstance(self._A, SpMat) else self._A)
        return odot(la.inv(A.T if trans != "N" else A), _obj(np.asarray(b)))


def splu(A, **k):
    return SuperLUStub(A)


def spinv(A):
    from . import la
    return cls_for("csc", A.is_array).of(la.inv(A.dense()))


def spsolve(A, b, **k):
    from . import la
    r = odot(la.inv(_obj(A)), _obj(b))
    return cls_for("csc").of(r) if isinstance(b, SpMat) else r
