"""Module proxies seen by the symbolically executed spreg source."""
import math as _math
import types

import numpy as _np
import scipy as _scipy
import scipy.linalg
import scipy.optimize
import scipy.sparse
import scipy.sparse.csgraph
import scipy.sparse.linalg
import scipy.spatial
import scipy.stats

from . import la
from . import sparse as sp
from . import sym as Y
from .sym import Sym, as_sym, ZERO, ONE, const

USED = {}


class Proxy(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, k):
        return getattr(self.__dict__["_real"], k)


def is_float_dtype(dt):
    if dt is None:
        return False
    if dt is float or isinstance(dt, _SymFloatMeta):
        return True
    try:
        return _np.issubdtype(_np.dtype(dt), _np.floating) or _np.issubdtype(_np.dtype(dt), _np.complexfloating)
    except TypeError:
        return False


class _SymFloatMeta(type):
    def __call__(cls, x=0.0):
        if type(x) is Sym:
            return x
        if isinstance(x, _np.ndarray) and x.dtype == object and x.size == 1:
            y = x.reshape(-1)[0]
            if type(y) is Sym:
                return y
        if isinstance(x, sp.SpMat):
            raise TypeError("float() argument must be a string or a real number")
        return float(x)

    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)


class symfloat(metaclass=_SymFloatMeta):
    pass


def _frame_astype(real):
    def astype(self, dtype, *a, **k):
        # the package's own 'float' on a table of expressions: leave it as it is
        return self.where(self.notna(), float("nan")) if dtype is symfloat else real(self, dtype, *a, **k)
    return astype


import pandas as _pd
_pd.DataFrame.astype = _frame_astype(_pd.DataFrame.astype)


def _full(shape, v, dtype):
    if dtype is not None and not is_float_dtype(dtype):
        return None
    if isinstance(shape, (int, _np.integer)):
        shape = (int(shape),)
    if isinstance(shape, Sym):
        shape = (int(shape),)
    shape = tuple(int(s) for s in shape)
    o = _np.empty(shape, dtype=object)
    o.reshape(-1)[:] = v
    return o


def zeros(shape, dtype=None, order="C", **k):
    r = _full(shape, ZERO, dtype)
    return _np.zeros(shape, dtype) if r is None else r


def ones(shape, dtype=None, order="C", **k):
    r = _full(shape, ONE, dtype)
    return _np.ones(shape, dtype) if r is None else r


def empty(shape, dtype=None, order="C", **k):
    return zeros(shape, dtype)


def full(shape, v, dtype=None, **k):
    if isinstance(v, Sym) or is_float_dtype(dtype) or isinstance(v, float):
        s = as_sym(v)
        return _full(shape, v if s is None else s, None)
    return _np.full(shape, v, dtype)


def _like(v):
    def f(a, dtype=None, **k):
        if isinstance(a, sp.SpMat):
            a = a.dense()
        a = _np.asarray(a)
        if dtype is None and a.dtype != object and not _np.issubdtype(a.dtype, _np.floating):
            o = _np.empty(a.shape, a.dtype)
            o[...] = 0 if v is ZERO else 1
            return o
        r = _full(a.shape, v, dtype)
        return _np.full(a.shape, 0 if v is ZERO else 1, dtype) if r is None else r
    return f


def eye(n, m=None, k=0, dtype=None, **kw):
    o = zeros((n, n if m is None else m))
    for i in range(o.shape[0]):
        if 0 <= i + k < o.shape[1]:
            o[i, i + k] = ONE
    return o


def hassym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(hassym(i) for i in x)
    return False


def array(x, dtype=None, **k):
    if isinstance(x, Sym):
        o = _np.empty((), dtype=object)
        o[()] = x
        return o
    if isinstance(x, (map, filter, zip)):
        return _np.array(x, dtype=object)
    if is_float_dtype(dtype):
        if hassym(x):
            a = _np.array(x, dtype=object, **k)
            if all(as_sym(v) is not NotImplemented for v in a.reshape(-1)):
                return la.to_obj(a).copy() if isinstance(x, _np.ndarray) else la.to_obj(a)
        if isinstance(dtype, _SymFloatMeta):
            dtype = float
        r = _np.array(x, dtype=dtype, **k)
        return la.to_obj(r)
    if isinstance(x, (list, tuple)) and x and hassym(x):
        k.pop("copy", None)
        return _np.array(x, dtype=dtype, **k)
    r = _np.array(x, dtype=dtype, **k)
    if r.dtype.kind == "f" and r.size and not isinstance(x, _np.ndarray):
        r = la.to_obj(r)
    return r


def asarray(x, dtype=None, **k):
    if isinstance(x, _np.ndarray) and type(x) is _np.ndarray and (dtype is None or x.dtype == dtype or x.dtype == object and is_float_dtype(dtype)):
        return x
    if isinstance(x, _np.matrix):
        return _np.asarray(x)
    if isinstance(x, sp.SpMat):
        o = _np.empty((), dtype=object)
        o[()] = x
        return o
    return array(x, dtype, **k)


def _is_numlike(x):
    return isinstance(x, (Sym, int, float, _np.number, Y.CSym))


def unary(f, npf):
    def g(x, out=None, where=True, **k):
        if isinstance(x, sp.SpMat):
            return x._map(f)
        if _is_numlike(x) and not isinstance(x, bool):
            return f(x)
        if not isinstance(x, _np.ndarray):
            try:
                x = array(x)
            except Exception:
                return npf(x)
        if x.dtype.kind not in "fiuO":
            return npf(x)
        r = _np.empty(x.shape, dtype=object)
        ro = r.reshape(-1)
        mask = None if where is True else _np.broadcast_to(_np.array([bool(v) for v in _np.asarray(where).reshape(-1)]).reshape(_np.shape(where)), x.shape)
        mr = None if mask is None else mask.reshape(-1)
        for i, v in enumerate(_np.asarray(x).reshape(-1)):
            if mr is None or mr[i]:
                ro[i] = f(v)
        if isinstance(x, Y.CArr):
            r = r.view(Y.CArr)
        if isinstance(x, _np.matrix):
            r = _np.matrix(r)
        if out is not None:
            if isinstance(out, tuple):
                out = out[0]
            if where is True:
                out[...] = r
            else:
                _np.copyto(out, r, where=mask)
            return out
        if r.ndim == 0:
            return r.item()
        return r
    return g


def _abs(x):
    if isinstance(x, Sym):
        return Y.absolute(x)
    return abs(x)


def _fn(f, npf):
    def h(x):
        if type(x) is Y.CSym:
            return x.log() if npf is _np.log else abs(x) if npf is _np.abs else f(x)
        if isinstance(x, (float, _np.floating)) and (x != x or abs(x) == _math.inf):
            return float(npf(x))
        return f(x)
    return h


def _sgn(x):
    s = as_sym(x)
    if s is None:
        return x
    if s.is_zero():
        return ZERO
    return ONE if s > 0 else -ONE


sqrt = unary(_fn(Y.sqrt, _np.sqrt), _np.sqrt)
log = unary(_fn(Y.log, _np.log), _np.log)
exp = unary(_fn(Y.exp, _np.exp), _np.exp)
absolute = unary(_fn(lambda x: _abs(as_sym(x)), _np.abs), _np.abs)
square = unary(lambda x: x * x, _np.square)
sign = unary(_sgn, _np.sign)


def _boolfn(name):
    npf = getattr(_np, name)
    symval = name == "isfinite"

    def g(x, *a, **k):
        if isinstance(x, Sym):
            return symval
        if isinstance(x, _np.ndarray) and x.dtype == object:
            r = _np.empty(x.shape, bool)
            ro = r.reshape(-1)
            for i, v in enumerate(x.reshape(-1)):
                ro[i] = symval if isinstance(v, Sym) else bool(npf(v))
            return r
        return npf(x)
    return g


def _mean(a, axis=None, **k):
    if isinstance(a, sp.SpMat):
        return a.mean(axis)
    a = asarray(a)
    if a.dtype == object or a.dtype.kind in "fiu":
        a = la.to_obj(a)
        n = a.size if axis is None else a.shape[axis]
        s = a.sum(axis=axis, keepdims=k.get("keepdims", False))
        return s / const(n)
    return _np.mean(a, axis=axis, **k)


def var(a, axis=None, ddof=0, **k):
    a = la.to_obj(asarray(a))
    n = a.size if axis is None else a.shape[axis]
    m = a.sum(axis=axis, keepdims=True) / const(n)
    d = a - m
    return (d * d).sum(axis=axis, keepdims=k.get("keepdims", False)) / const(n - ddof)


def std(a, axis=None, ddof=0, **k):
    return sqrt(var(a, axis, ddof, **k))


def median(a, axis=None, **k):
    if axis is not None:
        return _np.apply_along_axis(lambda v: median(v), axis, a)
    v = sorted(la.to_obj(asarray(a)).reshape(-1).tolist())
    n = len(v)
    return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2


def dot(a, b, out=None):
    if isinstance(a, sp.SpMat) or isinstance(b, sp.SpMat):
        raise Y.Unsupported("np.dot on sparse")
    a_, b_ = asarray(a), asarray(b)
    if a_.dtype == object or b_.dtype == object or a_.dtype.kind == "f" or b_.dtype.kind == "f":
        if a_.ndim == 2 and b_.ndim == 2:
            if a_.shape[1] != b_.shape[0]:
                raise ValueError("shapes %s and %s not aligned" % (a_.shape, b_.shape))
            r = sp.odot(la.to_obj(a_), la.to_obj(b_))
            return _np.matrix(r) if isinstance(a, _np.matrix) or isinstance(b, _np.matrix) else r
        return _np.dot(la.to_obj(a_), la.to_obj(b_))
    return _np.dot(a, b)


def matmul(a, b, **k):
    if isinstance(a, sp.SpMat) or isinstance(b, sp.SpMat):
        return a @ b
    return la.to_obj(a) @ la.to_obj(b) if asarray(a).dtype.kind in "fO" or asarray(b).dtype.kind in "fO" else _np.matmul(a, b)


def _sum(a, axis=None, **k):
    if isinstance(a, sp.SpMat):
        return a.sum(axis)
    if isinstance(a, types.GeneratorType):
        return sum(a)
    a = asarray(a)
    if a.dtype.kind == "f":
        a = la.to_obj(a)
    return _np.sum(a, axis=axis, **k)


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    a, b = la.to_obj(asarray(a)), la.to_obj(asarray(b))
    return all(Y.same(x, y) for x, y in zip(*[v.reshape(-1) for v in _np.broadcast_arrays(a, b)]))


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = asarray(x)
    if x.dtype != object:
        return _np.nan_to_num(x, nan=nan, posinf=posinf, neginf=neginf)
    r = x.copy()
    ro = r.reshape(-1)
    for i, v in enumerate(x.reshape(-1)):
        if isinstance(v, float) and v != v:
            ro[i] = as_sym(nan)
        elif isinstance(v, float) and v in (_math.inf, -_math.inf):
            to = posinf if v > 0 else neginf
            if to is None:
                raise Y.Unsupported("nan_to_num of infinity")
            ro[i] = as_sym(to)
    return r


def power(a, b):
    return asarray(a) ** b


def convolve(a, b, mode="full"):
    a, b = la.to_obj(a), la.to_obj(b)
    assert mode in ("full", "valid")
    r = zeros(len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] = r[i + j] + x * y
    m = min(len(a), len(b)) - 1
    return r if mode == "full" else r[m:len(r) - m]


def _nosparse(*args):
    """the dense linear algebra routines refuse sparse operands"""
    if any(isinstance(a, sp.SpMat) for a in args):
        raise _np.linalg.LinAlgError("0-dimensional array given. Array must be at least two-dimensional")


def _inv(a):
    _nosparse(a)
    return _wrapm(a, la.inv(_np.asarray(a)))


def _det(a):
    _nosparse(a)
    return la.det(a)


def _solve(a, b):
    _nosparse(a, b)
    return la.solve(a, b)


def _wrapm(a, r):
    return _np.matrix(r) if isinstance(a, _np.matrix) else r


class SlogDet:
    """(sign, log|det|); the sign is decided only when it is looked at"""

    def __init__(self, d):
        self._d = d

    @property
    def sign(self):
        return ONE if self._d > 0 else -ONE

    @property
    def logabsdet(self):
        d = self._d
        return Y.log(-d if Y.sym_sign(d, quick=True) == -1 else d)

    def __getitem__(self, i):
        return (lambda: self.sign, lambda: self.logabsdet)[i]()

    def __iter__(self):
        return iter((self.sign, self.logabsdet))

    def __len__(self):
        return 2


def slogdet(a):
    d = la.det(a)
    if isinstance(d, float):
        return d, d
    if d.is_zero():
        return ZERO, float("-inf")
    return SlogDet(d)


def norm(x, ord=None, axis=None, keepdims=False):
    a = la.to_obj(asarray(x))
    if ord is None or (ord == 2 and a.ndim == 1):
        return sqrt((a * a).sum(axis=axis, keepdims=keepdims))
    if ord == 2 and a.ndim == 2:
        ev = la.eigvals(sp.odot(a.T, a))
        return sqrt(max(ev))
    if ord in (1, _np.inf) and a.ndim == 2:
        return absolute(a).sum(axis=0 if ord == 1 else 1).max()
    raise Y.Unsupported("norm")


def _qr(a, mode="reduced"):
    a = la.to_obj(a)
    m, n = a.shape
    Q = zeros((m, n))
    R = zeros((n, n))
    for j in range(n):
        v = a[:, j].copy()
        for i in range(j):
            R[i, j] = _np.dot(Q[:, i], a[:, j])
            v = v - Q[:, i] * R[i, j]
        R[j, j] = Y.sqrt(_np.dot(v, v))
        Q[:, j] = v / R[j, j]
    return R if mode == "r" else (Q, R)


def _eig(a):
    return la.eig(a)


def cond(a, p=None):
    raise Y.Unsupported("cond")


linalg = Proxy(_np.linalg, dict(
    inv=_inv, det=_det, solve=_solve,
    matrix_rank=lambda a, *x, **k: la.rank(a), pinv=lambda a, *x, **k: _wrapm(a, la.pinv(a)),
    eigvals=lambda a: la.eigvals(a), eigvalsh=lambda a, *x: la.eigvals(a), eigh=lambda a, *x: la.eigh(a),
    eig=_eig, slogdet=slogdet, norm=norm, cholesky=la.cholesky, qr=_qr, cond=cond,
    multi_dot=lambda l: __import__("functools").reduce(dot, l),
))


class _PI:
    pass


def diag(v, k=0):
    if isinstance(v, sp.SpMat):
        return v.diagonal()
    v = asarray(v)
    if v.ndim == 1 and v.dtype.kind in "fO":
        o = zeros((len(v), len(v)))
        for i, x in enumerate(v):
            s = as_sym(x)
            o[i, i] = x if s is None else s
        return o
    return _np.diag(v, k)


def diagflat(v, k=0):
    return diag(la.to_obj(asarray(v)).reshape(-1))


def fill_diagonal(a, v):
    if isinstance(v, _np.ndarray):
        v = v.reshape(-1)
    _np.fill_diagonal(a, v)


def where(c, *a):
    if isinstance(c, sp.SpMat):
        return c.nonzero()
    return _np.where(c, *a)


def linspace(a, b, n=50, **k):
    if isinstance(a, Sym) or isinstance(b, Sym):
        raise Y.Unsupported("linspace")
    return la.to_obj(_np.linspace(a, b, n, **k))


def trace(a, *x, **k):
    if isinstance(a, sp.SpMat):
        return a.trace()
    return _np.trace(_np.asarray(a), *x, **k)


def issubdtype(a, b):
    """symbolic arrays (object dtype) stand for float64 arrays"""
    if a is object or (isinstance(a, _np.dtype) and a == object):
        a = _np.float64
    return _np.issubdtype(a, b)


NP = Proxy(_np, dict(
    issubdtype=issubdtype,
    zeros=zeros, ones=ones, empty=empty, full=full, eye=eye, identity=lambda n, dtype=None: eye(n),
    zeros_like=_like(ZERO), ones_like=_like(ONE), empty_like=_like(ZERO), array=array, asarray=asarray,
    asanyarray=asarray, ascontiguousarray=asarray,
    sqrt=sqrt, log=log, exp=exp, abs=absolute, absolute=absolute, square=square, sign=sign, fabs=absolute,
    isnan=_boolfn("isnan"), isinf=_boolfn("isinf"), isfinite=_boolfn("isfinite"),
    mean=_mean, average=lambda a, axis=None, **k: _mean(a, axis), var=var, std=std, median=median,
    dot=dot, matmul=matmul, sum=_sum, nansum=_sum, allclose=allclose, nan_to_num=nan_to_num, power=power, finfo=lambda t=None: _np.finfo(_np.float64),
    convolve=convolve, linalg=linalg, diag=diag, diagflat=diagflat, fill_diagonal=fill_diagonal, where=where,
    linspace=linspace, trace=trace,
))


def __getattr__(k):
    raise AttributeError(k)


# pi must be created lazily: the symbol table is reset per harness
class _NPProxy(Proxy):
    def __getattribute__(self, k):
        if k == "pi":
            return Y.pi()
        return super().__getattribute__(k)


_tmp = _NPProxy(_np, {k: v for k, v in NP.__dict__.items() if not k.startswith("__") and k != "_real"})
NP = _tmp


# --------------------------------------------------------------------------
# scipy
# --------------------------------------------------------------------------
def _elem(f):
    def g(x, *a, **k):
        a += tuple(k.pop(n) for n in ("df", "dfn", "dfd") if n in k)
        if isinstance(x, _np.ndarray) or isinstance(x, (list, tuple)):
            x = asarray(x)
            r = _np.empty(x.shape, dtype=object)
            ro = r.reshape(-1)
            aa = []
            for v in a:
                if isinstance(v, _np.ndarray) and v.size > 1:
                    aa.append(_np.broadcast_to(v, x.shape).reshape(-1))
                else:
                    aa.append(None)
            for i, v in enumerate(x.reshape(-1)):
                ro[i] = f(v, *[w if b is None else b[i] for w, b in zip(a, aa)], **k)
            return r.item() if r.ndim == 0 else r
        return f(x, *a, **k)
    return g


def _par(*a):
    out = []
    for x in a:
        s = as_sym(x)
        if not s.is_const():
            raise Y.Unsupported("symbolic distribution parameter")
        out.append(s.const())
    return tuple(out)


def norm_sf(x, loc=0, scale=1):
    x = (as_sym(x) - loc) / scale if (loc != 0 or scale != 1) else x
    return Y.sym_tail("norm.sf", x)


def norm_cdf(x, loc=0, scale=1):
    x = (as_sym(x) - loc) / scale if (loc != 0 or scale != 1) else x
    r = Y.sym_tail("norm.sf", x)
    return r if isinstance(r, float) else ONE - r


def norm_pdf(x, loc=0, scale=1):
    x = (as_sym(x) - loc) / scale if (loc != 0 or scale != 1) else x
    return Y.even_fn("norm.pdf", x) / scale


def t_sf(x, df):
    return Y.sym_tail("t.sf", x, _par(df))


def one_sided(name):
    def f(x, *p):
        if isinstance(x, float) and x != x:
            return x
        return Y.fn_atom(name, x, _par(*p))
    return f


class Dist:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, k):
        raise Y.Unsupported("distribution method " + k)


def _compl(f):
    def g(*a):
        r = f(*a)
        return r if isinstance(r, float) else ONE - r
    return g


chi2 = Dist(sf=_elem(one_sided("chi2.sf")), cdf=_elem(_compl(one_sided("chi2.sf"))))
norm_d = Dist(sf=_elem(norm_sf), cdf=_elem(norm_cdf), pdf=_elem(norm_pdf))
t_d = Dist(sf=_elem(t_sf), cdf=_elem(_compl(t_sf)))
f_d = Dist(sf=_elem(one_sided("f.sf")), cdf=_elem(_compl(one_sided("f.sf"))))


def pearsonr(x, y, **k):
    x, y = la.to_obj(asarray(x)).reshape(-1), la.to_obj(asarray(y)).reshape(-1)
    dx, dy = x - x.sum() / const(len(x)), y - y.sum() / const(len(y))
    r = (dx * dy).sum() / Y.sqrt((dx * dx).sum() * (dy * dy).sum())
    return (r, None)


def corrcoef(x, y=None, rowvar=True, **k):
    x = la.to_obj(asarray(x))
    if y is not None:
        x = _np.vstack([x, la.to_obj(asarray(y))])
    elif not rowvar:
        x = x.T
    d = x - x.sum(axis=1, keepdims=True) / const(x.shape[1])
    c = dot(d, d.T)
    o = zeros(c.shape)
    for i in range(c.shape[0]):
        for j in range(c.shape[0]):
            o[i, j] = c[i, j] / Y.sqrt(c[i, i] * c[j, j]) if i != j else ONE
    return o


def cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    x = la.to_obj(asarray(m))
    if x.ndim == 1:
        x = x.reshape(1, -1)
    if y is not None:
        x = _np.vstack([x, la.to_obj(asarray(y)).reshape(-1, x.shape[1])])
    elif not rowvar:
        x = x.T
    d = x - x.sum(axis=1, keepdims=True) / const(x.shape[1])
    dd = (0 if bias else 1) if ddof is None else ddof
    return dot(d, d.T) / const(x.shape[1] - dd)


NP.__dict__.update(corrcoef=corrcoef, cov=cov)
STATS = Proxy(_scipy.stats, dict(chi2=chi2, norm=norm_d, t=t_d, f=f_d, pearsonr=pearsonr))



def expm(A):
    """matrix exponential of a nilpotent matrix (a finite sum)"""
    A = la.to_obj(A)
    n = A.shape[0]
    tot, term = eye(n), eye(n)
    for k in range(1, n + 1):
        term = dot(term, A) / const(k)
        if all(x.is_zero() if hasattr(x, "is_zero") else x == 0 for x in term.reshape(-1)):
            return tot
        tot = tot + term
    raise Y.Unsupported("matrix exponential of a matrix that is not nilpotent")


LINALG_SP = Proxy(_scipy.linalg, dict(
    expm=expm,
    inv=_inv, det=_det, solve=_solve, pinv=la.pinv, cholesky=la.cholesky, norm=norm,
    eigvals=la.eigvals, eigh=la.eigh))

SPLA = Proxy(_scipy.sparse.linalg, dict(splu=sp.splu, inv=sp.spinv, spsolve=sp.spsolve,
                                        factorized=lambda A: sp.splu(A).solve))


def _connected_components(g, directed=True, connection="weak", return_labels=True):
    from scipy.sparse import csgraph
    if isinstance(g, sp.SpMat):
        g = _scipy.sparse.csr_matrix(g.mask().astype(float))
    return csgraph.connected_components(g, directed=directed, connection=connection, return_labels=return_labels)


def _minimum_spanning_tree(g, overwrite=False):
    """Kruskal on the stored entries, in the order of their values, as scipy does"""
    if not isinstance(g, sp.SpMat):
        if not hasattr(g, "tocsr"):
            g = sp.csr_matrix(g)
        else:
            from scipy.sparse import csgraph
            return csgraph.minimum_spanning_tree(g)
    g = g.tocsr()
    order = []
    for e in range(len(g.data)):
        if sp._iszero(g.data[e]):
            continue
        at = len(order)
        while at > 0 and bool(g.data[e] < g.data[order[at - 1]]):
            at -= 1
        order.insert(at, e)
    n = g.shape[0]
    comp = list(range(n))
    M = _np.zeros(g.shape, bool)
    for e in order:
        i, j = int(g._r[e]), int(g._c[e])
        a, b = comp[i], comp[j]
        if a != b:
            comp = [a if c == b else c for c in comp]
            M[i, j] = True
    return sp.csr_matrix.of(g.dense(), M)


CSGRAPH = Proxy(_scipy.sparse.csgraph, dict(connected_components=_connected_components, minimum_spanning_tree=_minimum_spanning_tree))
_spd = {k: getattr(sp, k) for k in dir(sp) if k.endswith("_matrix") or k.endswith("_array")}
SPARSE = Proxy(_scipy.sparse, dict(
    issparse=sp.issparse, isspmatrix=sp.issparse, identity=sp.identity, eye=sp.eye, kron=sp.kron,
    hstack=sp.hstack, vstack=sp.vstack, diags=sp.diags, block_diag=sp.block_diag, linalg=SPLA, csgraph=CSGRAPH,
    spmatrix=sp.SpMat, sparray=type("sparray", (), {}), eye_array=sp.eye, csr=Proxy(_scipy.sparse, dict(csr_matrix=sp.csr_matrix)),
    csc=Proxy(_scipy.sparse, dict(csc_matrix=sp.csc_matrix)), **_spd))


class OptStub:
    """nondeterministic optimiser: returns an arbitrary point of the search box"""

    def __init__(self):
        self.calls = []
        self.ctx = None

    def fresh(self, k, bounds):
        from fractions import Fraction
        i = len(self.calls)
        if getattr(self.ctx, "max_opt", None) is not None and i >= self.ctx.max_opt:
            self.ctx.over_budget()
        out = []
        for j in range(k):
            lo, hi = bounds[j] if bounds is not None and j < len(bounds) else (None, None)
            out.append(self.ctx.opt_value(i, j, lo, hi))
        return out

    def minimize_scalar(self, fun, bracket=None, bounds=None, args=(), method=None, tol=None, options=None):
        v = self.fresh(1, [bounds] if bounds is not None else None)[0]
        if not isinstance(args, tuple):
            args = (args,)
        self.calls.append(dict(kind="minimize_scalar", fun=lambda p: fun(p[0], *args), bounds=[bounds], x=[v],
                               method=method, start=None, tol=tol))
        f = fun(v, *args)
        x = v
        if isinstance(f, _np.ndarray) and f.ndim == 2:
            x = self.ctx.colvec([v])
        return Res(x=x, fun=f, success=True, nit=1, nfev=1)

    def _vec(self, fun, x0, args, bounds, kind, **extra):
        if not isinstance(args, tuple):
            args = (args,)
        x0 = _np.asarray(x0).reshape(-1)
        vals = self.fresh(len(x0), bounds)
        x = _np.empty(len(x0), dtype=object) if self.ctx.mode == "sym" else _np.array(vals, dtype=float)
        if self.ctx.mode == "sym":
            x[:] = vals
        rec = dict(kind=kind, args=args, fun=lambda p: fun(self.ctx.vec1(p), *args), bounds=bounds, x=vals, start=x0, **extra)
        self.calls.append(rec)
        return x, rec

    def minimize(self, fun, x0, args=(), method=None, jac=None, hess=None, bounds=None, constraints=(), tol=None,
                 callback=None, options=None, **k):
        x, rec = self._vec(fun, x0, args, bounds, "minimize", jac=jac, hess=hess)
        return Res(x=x, fun=_np.asarray(fun(x, *(args if isinstance(args, tuple) else (args,)))).reshape(-1)[0], success=True, nit=1, nfev=1,
                   message="stub", status=0, hess_inv=self.ctx.hess_inv)

    def fmin_l_bfgs_b(self, func, x0, fprime=None, args=(), approx_grad=0, bounds=None, **k):
        x, rec = self._vec(func, x0, args, bounds, "fmin_l_bfgs_b")
        return x, rec["fun"](list(rec["x"])), {"warnflag": 0}

    def fmin_bfgs(self, f, x0, fprime=None, args=(), **k):
        x, rec = self._vec(f, x0, args, None, "fmin_bfgs", jac=fprime)
        if k.get("full_output"):
            return x, _np.asarray(f(x, *args)).reshape(-1), 0, 0, 1, 1, 0
        return x

    def fmin_ncg(self, f, x0, fprime, fhess_p=None, fhess=None, args=(), **k):
        x, rec = self._vec(f, x0, args, None, "fmin_ncg", jac=fprime, hess=fhess)
        if k.get("full_output"):
            return x, _np.asarray(f(x, *args)).reshape(-1), 1, 1, 1, 0
        return x

    def fmin(self, f, x0, args=(), **k):
        x, rec = self._vec(f, x0, args, None, "fmin")
        return x


class Res(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)


OPTSTUB = OptStub()
OPTNAMES = ["minimize_scalar", "minimize", "fmin_l_bfgs_b", "fmin_bfgs", "fmin_ncg", "fmin"]
OPTIMIZE = Proxy(_scipy.optimize, {k: getattr(OPTSTUB, k) for k in OPTNAMES})
SPATIAL = _scipy.spatial
SCIPY = Proxy(_scipy, dict(sparse=SPARSE, stats=STATS, linalg=LINALG_SP, optimize=OPTIMIZE))


def _msqrt(x):
    return sqrt(x)


class _MathProxy(Proxy):
    def __getattribute__(self, k):
        if k == "pi":
            return Y.pi()
        return super().__getattribute__(k)


def _m1(f):
    def g(x, *a):
        if isinstance(x, _np.ndarray) and x.size == 1:
            x = x.reshape(-1)[0]
        return f(x)
    return g


MATH = _MathProxy(_math, dict(sqrt=_m1(_fn(Y.sqrt, _math.sqrt)), log=_m1(_fn(Y.log, _math.log)), exp=_m1(_fn(Y.exp, _math.exp)),
                              pow=lambda a, b: as_sym(a) ** b, fabs=_m1(lambda x: abs(as_sym(x)))))


# --------------------------------------------------------------------------
# multiprocessing: synchronous stand-in
# --------------------------------------------------------------------------
class AsyncResult:
    def __init__(self, f, a, k):
        self._v = f(*a, **(k or {}))

    def get(self, timeout=None):
        return self._v


class Pool:
    def __init__(self, *a, **k):
        pass

    def apply_async(self, f, args=(), kwds=None, callback=None):
        r = AsyncResult(f, args, kwds)
        if callback:
            callback(r.get())
        return r

    def map(self, f, it):
        return [f(x) for x in it]

    def apply(self, f, args=(), kwds=None):
        return f(*args, **(kwds or {}))

    def starmap(self, f, it):
        return [f(*x) for x in it]

    def close(self):
        pass

    def join(self):
        pass

    def terminate(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


import multiprocessing as _mp

MP = Proxy(_mp, dict(Pool=Pool))

TABLE = {
    "numpy": NP, "numpy.linalg": linalg, "scipy": SCIPY, "scipy.sparse": SPARSE, "scipy.sparse.linalg": SPLA,
    "scipy.sparse.csgraph": CSGRAPH, "scipy.stats": STATS, "scipy.linalg": LINALG_SP, "scipy.optimize": OPTIMIZE,
    "math": MATH, "multiprocessing": MP,
}
