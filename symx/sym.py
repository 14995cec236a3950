"""Symbolic real scalars: exact rational functions over input variables and atoms.

A Sym is  N / (d * prod f_i^e_i)  with N an integer polynomial, d a positive int
and f_i interned primitive polynomials.  Atoms (sqrt, log, exp, distribution
tails) are extra variables with contracts that are handed to z3.
"""
import itertools
import math
import sys
import random
import time
from fractions import Fraction
from math import gcd

import numpy as np

from . import poly as P
from .poly import pmul, padd, psub, pscale, pneg, ppow, content, pdivint, pdivexact, exps, B, MASK


sys.set_int_max_str_digits(0)

class Unsupported(Exception):
    """the encoder cannot represent this operation"""


class PathBudget(Exception):
    """too many symbolic paths"""


class Infeasible(BaseException):
    pass


# --------------------------------------------------------------------------
# variables
# --------------------------------------------------------------------------
class Var:
    __slots__ = ("idx", "name", "kind", "data", "lo", "hi", "lo_strict", "hi_strict")

    def __init__(self, idx, name, kind, data=None):
        self.idx, self.name, self.kind, self.data = idx, name, kind, data
        self.lo = self.hi = None
        self.lo_strict = self.hi_strict = False


class State:
    def __init__(self):
        self.reset()

    def reset(self):
        self.vars = []
        self.byname = {}
        self.sq2 = 0            # bits flagging an exponent >= 2 of a sqrt atom
        self.sqbits = 0         # all bits of sqrt atoms
        self.factors = []       # fid -> poly
        self.fac_id = {}        # frozenset(items) -> fid
        self.sqrt_atoms = []    # (Sym radicand normalised, Sym root)
        self.const_sqrt = {}
        self.log_atoms = {}     # frozenset -> var idx
        self.exp_atoms = []     # (Sym, Sym)
        self.fn_atoms = {}      # (fn, params) -> [(Sym, Sym)]
        self.tokens = {}        # float -> Sym
        self.ntok = 0
        self.assumptions = set()
        self.pts = None
        self.ptvals = {}
        self.rng = random.Random(12345)
        self.ivals = [{}, {}]   # var idx -> int for the divisibility filter
        self.imono = [{}, {}]
        self.z3vars = {}
        self.facts_cache = {}
        self.engine = None
        self.opaque = None      # above this many terms sqrt and abs become uninterpreted (congruent) functions
        # pi is always variable 0, so that module-level uses survive a reset
        self.new_var("pi", "pi", None, lo=Fraction(314159, 100000), hi=Fraction(314160, 100000))

    def new_var(self, name, kind, data=None, lo=None, hi=None, lo_strict=False, hi_strict=False):
        if name in self.byname:
            return self.byname[name]
        v = Var(len(self.vars), name, kind, data)
        v.lo, v.hi, v.lo_strict, v.hi_strict = lo, hi, lo_strict, hi_strict
        self.vars.append(v)
        self.byname[name] = v
        return v


S = State()


def var_poly(idx):
    return {1 << (B * idx): 1}


def intern_factor(p):
    key = frozenset(p.items())
    fid = S.fac_id.get(key)
    if fid is None:
        fid = len(S.factors)
        S.factors.append(p)
        S.fac_id[key] = fid
    return fid


def reduce_sq(p):
    """rewrite s_i^2 -> P_i"""
    m = S.sq2
    if not m:
        return p
    hit = [k for k in p if k & m]
    if not hit:
        return p
    while hit:
        p = dict(p)
        add = {}
        for k in hit:
            c = p.pop(k)
            for i, e in exps(k & S.sqbits):
                if e >= 2:
                    base = k - ((e - (e & 1)) << (B * i))
                    t = ppow(S.vars[i].data["P"], e >> 1)
                    for kk, cc in t.items():
                        kk += base
                        add[kk] = add.get(kk, 0) + cc * c
                    break
        for k, c in add.items():
            v = p.get(k, 0) + c
            if v:
                p[k] = v
            else:
                p.pop(k, None)
        hit = [k for k in p if k & m]
    return p


def mul(a, b):
    return reduce_sq(pmul(a, b))


def powr(a, n):
    r = P.ONE
    while n:
        if n & 1:
            r = mul(r, a)
        n >>= 1
        if n:
            a = mul(a, a)
    return r


# ---- divisibility filter --------------------------------------------------
def _ieval(p, w):
    vals = S.ivals[w]
    mono = S.imono[w]
    t = 0
    for k, c in p.items():
        mv = mono.get(k)
        if mv is None:
            mv = 1
            for i, e in exps(k):
                x = vals.get(i)
                if x is None:
                    x = vals[i] = S.rng.choice([-1, 1]) * S.rng.randrange(5, 60) + (w * 61)
                mv *= x ** e
            mono[k] = mv
        t += c * mv
    return t


_fev = {}


def try_cancel(n, fid):
    """n / factor if exact"""
    f = S.factors[fid]
    if len(f) > 1:
        if len(n) < 2:
            return None
        key = (id(S), fid)
        for w in (0, 1):
            fv = _ieval(f, w)
            if fv == 0:
                continue
            if _ieval(n, w) % fv:
                return None
        if max(n) < max(f):
            return None
    return pdivexact(n, f)


class CSym(complex):
    """complex number with exact parts (eigenvalues of directed weights); imaginary part None: not tracked"""

    def __new__(cls, re, im):
        o = complex.__new__(cls, float("nan"))
        o.re, o.im = re, im
        return o

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        if self.im is None:
            raise Unsupported("imaginary part of a complex logarithm")
        return self.im

    def conjugate(self):
        return CSym(self.re, -self.imag)

    conj = conjugate

    @staticmethod
    def parts(o):
        if type(o) is CSym:
            return o.re, o.im
        s = as_sym(o)
        if s is None or s is NotImplemented:
            raise Unsupported("complex arithmetic")
        return s, const(0)

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        a, b = CSym.parts(o)
        return CSym(self.re + a, None if b is None or self.im is None else self.im + b)

    __radd__ = __add__

    def __neg__(self):
        return CSym(-self.re, None if self.im is None else -self.im)

    def __sub__(self, o):
        return NotImplemented if isinstance(o, np.ndarray) else self + (-o if type(o) is CSym else -CSym.parts(o)[0])

    def __rsub__(self, o):
        return NotImplemented if isinstance(o, np.ndarray) else -self + o

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if type(o) is not CSym and self.im is None:
            return CSym(self.re * CSym.parts(o)[0], None)
        a, b = CSym.parts(o)
        if b is None or self.im is None:
            raise Unsupported("product of complex logarithms")
        return CSym(self.re * a - self.im * b, self.re * b + self.im * a)

    __rmul__ = __mul__

    def inv(self):
        d = self.re * self.re + self.imag * self.imag
        return CSym(self.re / d, -self.im / d)

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return self * (o.inv() if type(o) is CSym else 1 / CSym.parts(o)[0])

    def __rtruediv__(self, o):
        return NotImplemented if isinstance(o, np.ndarray) else self.inv() * o

    def __pow__(self, e):
        e = int(e)
        r = CSym(const(1), const(0))
        for _ in range(abs(e)):
            r = r * self
        return r if e >= 0 else r.inv()

    def __abs__(self):
        return sqrt(self.re * self.re + self.imag * self.imag)

    def log(self):
        return CSym(log(self.re * self.re + self.imag * self.imag) * const(Fraction(1, 2)), None)

    def __eq__(self, o):
        raise Unsupported("comparison of complex numbers")

    __hash__ = None

    def __bool__(self):
        raise Unsupported("comparison of complex numbers")

    def __repr__(self):
        return "CSym(%r, %r)" % (self.re, self.im)


class CArr(np.ndarray):
    """object array that may hold CSym"""

    def __array_wrap__(self, a, context=None, return_scalar=False):
        return np.asarray(a)[()] if return_scalar or a.ndim == 0 else np.asarray(a).view(CArr)

    def _part(self, f):
        r = np.empty(self.shape, dtype=object)
        for i, v in np.ndenumerate(np.asarray(self)):
            r[i] = f(v) if type(v) is CSym else v if f is _re else const(0)
        return r

    @property
    def real(self):
        return self._part(_re)

    @property
    def imag(self):
        return self._part(_im)


def _re(v):
    return v.real


def _im(v):
    return v.imag


def as_sym(x):
    t = type(x)
    if t is Sym:
        return x
    if t is int or t is bool:
        return const(int(x))
    if t is CSym:
        return NotImplemented
    if isinstance(x, Sym):
        return x
    if isinstance(x, (np.integer, np.bool_)):
        return const(int(x))
    if isinstance(x, Fraction):
        return const(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        s = S.tokens.get(x)
        if s is not None:
            return s
        if x != x or x in (math.inf, -math.inf):
            return None
        return const(rat(x))
    if isinstance(x, (complex, np.complexfloating)):
        if x.imag == 0:
            return as_sym(x.real)
        raise Unsupported("complex constant")
    if isinstance(x, np.ndarray) and x.size == 1:
        return as_sym(x.reshape(-1)[0])
    return NotImplemented


def rat(x):
    """the simplest rational that rounds to the float x"""
    if x == int(x) if abs(x) < 1e15 else False:
        return Fraction(int(x))
    f = Fraction(x)
    for m in (1000, 100000, 10 ** 7):
        g = f.limit_denominator(m)
        if abs(float(g) - x) <= 2e-16 * abs(x):
            return g
    return f


class Sym:
    __slots__ = ("n", "d", "f")
    ndim = 0
    shape = ()
    size = 1
    imag = 0

    def __init__(self, n, d=1, f=()):
        self.n = n
        self.d = d
        self.f = f

    # ---- basic predicates
    def is_const(self):
        return not self.f and (not self.n or (len(self.n) == 1 and 0 in self.n))

    def const(self):
        return Fraction(self.n.get(0, 0), self.d)

    def is_zero(self):
        return not self.n

    # ---- arithmetic
    def __add__(self, o):
        if type(o) is not Sym:
            if isinstance(o, np.ndarray):
                return NotImplemented
            s = as_sym(o)
            if s is None:
                return float(o)
            if s is NotImplemented:
                return s
            o = s
        return add(self, o)

    __radd__ = __add__

    def __neg__(self):
        return Sym(pneg(self.n), self.d, self.f)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if type(o) is not Sym:
            if isinstance(o, np.ndarray):
                return NotImplemented
            s = as_sym(o)
            if s is None:
                return -float(o)
            if s is NotImplemented:
                return s
            o = s
        return add(self, -o)

    def __rsub__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        s = as_sym(o)
        if s is None:
            return float(o)
        if s is NotImplemented:
            return s
        return add(s, -self)

    def __mul__(self, o):
        if type(o) is not Sym:
            if isinstance(o, np.ndarray):
                return NotImplemented
            s = as_sym(o)
            if s is None:
                return float("nan")
            if s is NotImplemented:
                return s
            o = s
        return mulsym(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if type(o) is not Sym:
            if isinstance(o, np.ndarray):
                return NotImplemented
            s = as_sym(o)
            if s is None:
                return ZERO if o == o else float("nan")
            if s is NotImplemented:
                return s
            o = s
        if not o.n:
            return float("nan") if not self.n else float("inf")
        return mulsym(self, inverse(o))

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        s = as_sym(o)
        if s is None:
            return float(o)
        if s is NotImplemented:
            return s
        return s / self

    def __floordiv__(self, o):
        o = as_sym(o)
        if self.is_const() and isinstance(o, Sym) and o.is_const():
            return const(self.const() // o.const())
        raise Unsupported("floordiv")

    def __rfloordiv__(self, o):
        return as_sym(o) // self

    def __mod__(self, o):
        o = as_sym(o)
        if self.is_const() and o.is_const():
            return const(self.const() % o.const())
        raise Unsupported("mod")

    def __pow__(self, e, m=None):
        if isinstance(e, np.ndarray) and e.ndim:
            return NotImplemented
        e = as_sym(e)
        if e is NotImplemented or e is None:
            return NotImplemented
        if not e.is_const():
            if not self.n:
                if e > 0:
                    return self
                raise Unsupported("nonpositive power of zero")
            return exp(e * log(self))
        e = e.const()
        if e.denominator == 1:
            e = int(e)
            if e >= 0:
                return powsym(self, e)
            if not self.n:
                return float("inf")
            return powsym(inverse(self), -e)
        if e.denominator == 2:
            r = sqrt(self)
            if type(r) is not Sym:
                return r
            return r ** int(2 * e)
        raise Unsupported("power %s" % e)

    def __rpow__(self, o):
        return as_sym(o) ** self

    def __abs__(self):
        return absolute(self)

    # ---- numpy-ish methods
    def sqrt(self):
        return sqrt(self)

    def log(self):
        return log(self)

    def exp(self):
        return exp(self)

    def conjugate(self):
        return self

    conj = conjugate

    def item(self):
        return self

    def copy(self):
        return self

    def square(self):
        return self * self

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def isinf(self):
        return False

    def sum(self, *a, **k):
        return self

    def mean(self, *a, **k):
        return self

    def tolist(self):
        return self

    def dot(self, o):
        return self * o

    def flatten(self):
        a = np.empty(1, dtype=object)
        a[0] = self
        return a

    ravel = flatten

    def reshape(self, *s):
        return self.flatten().reshape(*s)

    def astype(self, t):
        return self

    def round(self, n=0):
        return self

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    @property
    def dtype(self):
        return np.dtype(object)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickle")

    # ---- comparisons
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        s = as_sym(o)
        if s is None:
            o = float(o)
            if o != o:
                return op == "!="
            if op in ("==",):
                return False
            if op == "!=":
                return True
            return (o > 0) == (op in ("<", "<="))
        if s is NotImplemented:
            return s
        return compare(self, s, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        if o is self:
            return True
        r = self._cmp(o, "==")
        return False if r is NotImplemented and not isinstance(o, np.ndarray) else r

    def __ne__(self, o):
        if o is self:
            return False
        r = self._cmp(o, "!=")
        return True if r is NotImplemented and not isinstance(o, np.ndarray) else r

    def __hash__(self):
        return hash((frozenset(self.n.items()), self.d, self.f))

    def __bool__(self):
        return bool(compare(self, ZERO, "!="))

    # ---- concretisation
    def __float__(self):
        if self.is_const():
            return float(self.const())
        for t, s in S.tokens.items():
            if s is self:
                return t
        S.ntok += 1
        t = 100000.0 + S.ntok
        S.tokens[t] = self
        return t

    def __int__(self):
        if self.is_const():
            return int(self.const())
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        if self.is_const() and self.const().denominator == 1:
            return int(self.const())
        raise TypeError("symbolic index")

    def __round__(self, n=None):
        if self.is_const():
            r = round(self.const(), n) if n is not None else round(self.const())
            return const(r) if n is not None else r
        return self

    def __format__(self, spec):
        if spec and spec[-1] == "d":
            return format(int(self), spec)
        return format(float(self), spec)

    def __repr__(self):
        if self.is_const():
            return repr(float(self.const()))
        return repr(float(self))

    __str__ = __repr__


def const(c):
    if isinstance(c, Fraction):
        n, d = c.numerator, c.denominator
        return Sym({0: n} if n else {}, d)
    return Sym({0: c} if c else {}, 1)


ZERO = const(0)
ONE = const(1)


def make(n, d, f):
    """normalise"""
    if not n:
        return ZERO
    if d != 1:
        g = d
        for v in n.values():
            g = gcd(g, v)
            if g == 1:
                break
        if g != 1:
            n = {k: v // g for k, v in n.items()}
            d //= g
    if f:
        nf = []
        for fid, e in f:
            while e:
                q = try_cancel(n, fid)
                if q is None:
                    break
                n = q
                e -= 1
            if e:
                nf.append((fid, e))
        f = tuple(nf)
    return Sym(n, d, f)


def add(a, b):
    if not a.n:
        return b
    if not b.n:
        return a
    if a.f == b.f:
        if a.d == b.d:
            n = padd(a.n, b.n)
            if not n:
                return ZERO
            if a.d == 1 and not a.f:
                return Sym(n, 1, ())
            return make(n, a.d, a.f)
        g = gcd(a.d, b.d)
        n = padd(pscale(a.n, b.d // g), pscale(b.n, a.d // g))
        return make(n, a.d // g * b.d, a.f)
    fa, fb = dict(a.f), dict(b.f)
    l = dict(fa)
    for k, e in fb.items():
        if l.get(k, 0) < e:
            l[k] = e
    na, nb = a.n, b.n
    for k, e in l.items():
        da = e - fa.get(k, 0)
        if da:
            na = mul(na, powr(S.factors[k], da))
        db = e - fb.get(k, 0)
        if db:
            nb = mul(nb, powr(S.factors[k], db))
    g = gcd(a.d, b.d)
    n = padd(pscale(na, b.d // g), pscale(nb, a.d // g))
    return make(n, a.d // g * b.d, tuple(sorted(l.items())))


def mulsym(a, b):
    if not a.n or not b.n:
        return ZERO
    if not a.f and not b.f:
        n = mul(a.n, b.n)
        d = a.d * b.d
        if d == 1:
            return Sym(n, 1, ())
        return make(n, d, ())
    fa = dict(a.f)
    an, bn = a.n, b.n
    if b.f:
        # cross cancellation
        for k, e in b.f:
            while e:
                q = try_cancel(an, k)
                if q is None:
                    break
                an = q
                e -= 1
            if e:
                fa[k] = fa.get(k, 0) + e
    if a.f:
        for k, e in a.f:
            while e:
                q = try_cancel(bn, k)
                if q is None:
                    break
                bn = q
                e -= 1
                fa[k] -= 1
                if not fa[k]:
                    del fa[k]
    n = mul(an, bn)
    if not n:
        return ZERO
    d = a.d * b.d
    if d != 1:
        g = gcd(d, content(n))
        if g != 1:
            n = pdivint(n, g)
            d //= g
    return Sym(n, d, tuple(sorted(fa.items())))


def _opaque_root(i):
    v = S.vars[i]
    return v.kind == "fn" and v.data["fn"] == "opaque.sqrt"


def _square_opaque(a, e):
    """even power of an expression with opaque square roots as factors: their squares are the arguments"""
    num = [i for i, x in exps(P.monogcd(a.n)) if x == 1 and _opaque_root(i)]
    den = []
    for k, x in a.f:
        p = S.factors[k]
        if x == 1 and len(p) == 1:
            (m, c), = p.items()
            ee = exps(m)
            if c == 1 and len(ee) == 1 and ee[0][1] == 1 and _opaque_root(ee[0][0]):
                den.append((k, ee[0][0]))
    if not num and not den:
        return None
    g = 0
    for i in num:
        g += 1 << (B * i)
    dk = {k for k, _ in den}
    r = powsym(Sym({k - g: c for k, c in a.n.items()}, a.d, tuple(t for t in a.f if t[0] not in dk)), e)
    for i in num:
        r = mulsym(r, powsym(S.vars[i].data["arg"], e // 2))
    for _, i in den:
        r = mulsym(r, powsym(inverse(S.vars[i].data["arg"]), e // 2))
    return r


def powsym(a, e):
    if e == 0:
        return ONE
    if e == 1:
        return a
    n = powr(a.n, e)
    f = tuple((k, x * e) for k, x in a.f)
    if S.opaque is not None and e % 2 == 0:
        r = _square_opaque(a, e)
        if r is not None:
            return r
    if S.sqbits:
        return make(n, a.d ** e, f)
    return Sym(n, a.d ** e, f)


def inverse(o):
    """1/o"""
    n, d, f = o.n, o.d, o.f
    # numerator of the result: d * prod f^e
    num = {0: d}
    for k, e in f:
        num = mul(num, powr(S.factors[k], e))
    # rationalise sqrt atoms in n
    while S.sqbits:
        allb = 0
        for k in n:
            allb |= k & S.sqbits
        if not allb:
            break
        # monomial common factor first
        i = exps(allb)[-1][0]
        bit = 1 << (B * i)
        A = {k: c for k, c in n.items() if not k & bit}
        Bp = {k - bit: c for k, c in n.items() if k & bit}
        Pi = S.vars[i].data["P"]
        if not A:
            num = mul(num, {bit: 1})
            n = mul(Bp, Pi)
        else:
            conj = psub(A, {k + bit: c for k, c in Bp.items()})
            num = mul(num, conj)
            n = psub(mul(A, A), mul(mul(Bp, Bp), Pi))
        if not n:
            raise Unsupported("zero denominator after rationalising")
    c = content(n)
    if n[max(n)] < 0:
        c = -c
    n = pdivint(n, c)
    if c < 0:
        num = pneg(num)
        c = -c
    ff = []
    g = P.monogcd(n)
    if g:
        n = {k - g: v for k, v in n.items()}
        for i, e in exps(g):
            ff.append((intern_factor(var_poly(i)), e))
    if len(n) > 1 or 0 not in n:
        fl = split_known(n)
        ff.extend(fl)
    r = make(num, c, tuple(sorted(_merge(ff))))
    return r


def _merge(ff):
    d = {}
    for k, e in ff:
        d[k] = d.get(k, 0) + e
    return d.items()


def split_known(n):
    """split the primitive polynomial n over already interned factors"""
    out = {}
    key = frozenset(n.items())
    fid = S.fac_id.get(key)
    if fid is not None:
        return [(fid, 1)]
    for fid in range(len(S.factors)):
        f = S.factors[fid]
        if len(f) < 2:
            continue
        while len(n) > 1:
            q = try_cancel(n, fid)
            if q is None:
                break
            out[fid] = out.get(fid, 0) + 1
            n = q
    if len(n) > 1 or 0 not in n:
        if n[max(n)] < 0:
            raise AssertionError("sign")
        fid = intern_factor(n)
        out[fid] = out.get(fid, 0) + 1
    else:
        assert n == {0: 1}, n
    return list(out.items())


def var(name, lo=None, hi=None, lo_strict=False, hi_strict=False, kind="input"):
    v = S.new_var(name, kind, None, lo, hi, lo_strict, hi_strict)
    return Sym(var_poly(v.idx))


def den_poly(x):
    p = {0: x.d}
    for k, e in x.f:
        p = mul(p, powr(S.factors[k], e))
    return p


def diff_numer(a, b):
    """numerator polynomial of a-b"""
    return add(a, -b).n


def same(a, b):
    if a is b:
        return True
    return not diff_numer(a, b)


# ---- hash filter for equality of sqrt-free values ---------------------------
_MP = (1 << 61) - 1


def mhash(x):
    """value mod a prime at a fixed random point; None if sqrt atoms occur"""
    pt = S.ptvals

    def ev(p):
        t = 0
        for k, c in p.items():
            if k & S.sqbits:
                return None
            m = 1
            for i, e in exps(k):
                v = pt.get(i)
                if v is None:
                    v = pt[i] = S.rng.randrange(1, _MP)
                m = m * pow(v, e, _MP) % _MP
            t += c * m
        return t % _MP
    a = ev(x.n)
    if a is None:
        return None
    d = x.d % _MP
    for k, e in x.f:
        q = ev(S.factors[k])
        if q is None:
            return None
        d = d * pow(q, e, _MP) % _MP
    return a * pow(d, -1, _MP) % _MP


def lookup(lst, x):
    h = mhash(x)
    for (y, r, hy) in lst:
        if h is not None and hy is not None:
            if h != hy:
                continue
            return r
        if (h is None) != (hy is None):
            # one has sqrt atoms: could still be equal only after reduction
            pass
        if same(x, y):
            return r
    return None


# --------------------------------------------------------------------------
# atoms
# --------------------------------------------------------------------------
def _sqfree(m):
    """m = r^2 * q with q square-free (trial division)"""
    r = 1
    q = 1
    p = 2
    while p * p <= m and p < 2000:
        e = 0
        while m % p == 0:
            m //= p
            e += 1
        r *= p ** (e // 2)
        if e & 1:
            q *= p
        p += 1 if p == 2 else 2
    s = math.isqrt(m)
    if s * s == m:
        r *= s
    else:
        q *= m
    return r, q


def _primes(m):
    out = {}
    p = 2
    while p * p <= m and p < 2000:
        while m % p == 0:
            m //= p
            out[p] = out.get(p, 0) + 1
        p += 1 if p == 2 else 2
    if m > 1:
        out[m] = out.get(m, 0) + 1
    return out


def sqrt_const(c):
    if c < 0:
        return float("nan")
    if c == 0:
        return ZERO
    r, q = _sqfree(c.numerator * c.denominator)
    res = const(Fraction(r, c.denominator))
    if q == 1:
        return res
    # product over primes keeps sqrt(2)*sqrt(3) == sqrt(6)
    for p in _primes(q):
        v = S.new_var("sqrt#%d" % p, "sqrt", {"P": {0: p}}, lo=0)
        if "reg" not in v.data:
            v.data["reg"] = 1
            S.sq2 |= (MASK & ~1) << (B * v.idx)
            S.sqbits |= MASK << (B * v.idx)
        res = mulsym(res, Sym(var_poly(v.idx)))
    return res


def split_const(x):
    """x = c * y with c > 0 rational and y having a primitive numerator"""
    c = content(x.n)
    return Fraction(c, x.d), Sym(pdivint(x.n, c), 1, x.f)


def sqrt(x):
    x = as_sym(x)
    if x is None:
        return float("nan")
    if x.is_const():
        return sqrt_const(x.const())
    c, y = split_const(x)
    rc = sqrt_const(c)
    if S.opaque is not None and len(y.n) + sum(len(S.factors[k]) for k, e in y.f) > S.opaque:
        return mulsym(rc, fn_atom("opaque.sqrt", y))
    r = lookup(S.sqrt_atoms, y)
    if r is None:
        if quick_sign(y.n) == -1 and all(quick_sign(S.factors[k]) == 1 for k, e in y.f if e & 1):
            return float("nan")
        n = y.n
        coef = ONE
        # pull out even monomial powers of known-sign variables
        g = P.monogcd(n)
        for i, e in exps(g):
            v = S.vars[i]
            if e >= 2 and v.kind != "sqrt":
                h = e // 2
                sg = var_sign(v)
                if sg is None or sg == 0:
                    if h % 2:
                        h -= 1      # only |v|^even is sign free
                    sg = 1
                if h:
                    n = {k - ((2 * h) << (B * i)): cc for k, cc in n.items()}
                    t = powsym(Sym(var_poly(i)), h)
                    coef = mulsym(coef, t if (sg > 0 or h % 2 == 0) else -t)
        den = []
        for k, e in y.f:
            f = S.factors[k]
            sg = quick_sign(f)
            if sg:
                if e & 1:
                    n = mul(n, f if sg > 0 else pneg(f))
                    # 1/sqrt(f^e) = |f| / |f|^{(e+1)}... keep |f| = sg*f
                    den.append((k, (e + 1) // 2, sg))
                    if sg < 0:
                        n = n
                else:
                    den.append((k, e // 2, sg))
            else:
                j = (-e) % 4
                if j:
                    n = mul(n, powr(f, j))
                den.append((k, (e + j) // 2, 1))
        # for e odd and sg<0: sqrt(n / f^e) = sqrt(-n*|f|) / |f|^((e+1)/2)
        neg = sum(1 for k, e in y.f if e & 1 and quick_sign(S.factors[k]) == -1)
        if neg & 1:
            n = pneg(n)
        # n now is the radicand polynomial
        if not n:
            return ZERO
        cc = content(n)
        extra = sqrt_const(Fraction(cc))
        n = pdivint(n, cc)
        if n == {0: 1}:
            root = extra
        elif n == {0: -1}:
            return float("nan")
        else:
            root = None
            key = frozenset(n.items())
            name = "sqrt@%d" % len(S.vars)
            for v in S.vars:
                if v.kind == "sqrt" and v.data["P"] == n:
                    root = Sym(var_poly(v.idx))
            if root is None:
                sq = poly_sqrt(n)
                if sq is not None and quick_sign(sq):
                    root = Sym(sq if quick_sign(sq) > 0 else pneg(sq))
                else:
                    v = S.new_var(name, "sqrt", {"P": n, "reg": 1}, lo=0)
                    S.sq2 |= (MASK & ~1) << (B * v.idx)
                    S.sqbits |= MASK << (B * v.idx)
                    root = Sym(var_poly(v.idx))
            root = mulsym(root, extra)
        root = mulsym(root, coef)
        for k, e, sg in den:
            inv = Sym({0: 1}, 1, ((k, e),)) if not (set(P.pvars(S.factors[k])) & set(i for i, _ in exps(S.sqbits))) else inverse(Sym(powr(S.factors[k], e)))
            if sg < 0 and e & 1:
                inv = -inv
            root = mulsym(root, inv)
        r = root
        S.sqrt_atoms.append((y, r, mhash(y)))
    return mulsym(rc, r)


def poly_sqrt(n):
    """exact square root polynomial of n, or None"""
    if not n:
        return {}
    lt = max(n)
    c = n[lt]
    if c <= 0 or any(e & 1 for _, e in exps(lt)):
        return None
    r = math.isqrt(c)
    if r * r != c:
        return None
    if len(n) > 400:
        return None
    h = 0
    for i, e in exps(lt):
        h |= (e // 2) << (B * i)
    q = {h: r}
    rem = psub(n, {lt: c})
    steps = 0
    while rem:
        steps += 1
        if steps > 200:
            return None
        k = max(rem)
        v = rem[k]
        if not P.divides_mono(h, k) or v % (2 * r):
            return None
        m = k - h
        t = v // (2 * r)
        if m >= h or m in q:
            return None
        # rem -= 2*t*m*q + t^2 m^2
        rem = psub(rem, pmul({m: 2 * t}, q))
        rem = psub(rem, {2 * m: t * t})
        q[m] = t
    return q


def absolute(x):
    x = as_sym(x)
    if x.is_const():
        return const(abs(x.const()))
    s = sym_sign(x, quick=True)
    if s == 1:
        return x
    if s == -1:
        return -x
    if S.opaque is not None and len(x.n) + sum(len(S.factors[k]) for k, e in x.f) > S.opaque:
        c, y = split_const(x)
        return mulsym(const(c), even_fn("opaque.abs", y))
    # |x| = sqrt(x^2), with denominators of unknown sign squared away
    return sqrt(mulsym(x, x))


def log(x):
    x = as_sym(x)
    if x is None:
        return float("nan")
    if not x.n:
        return float("-inf")
    if x.is_const():
        c = x.const()
        if c < 0:
            return float("nan")
        r = ZERO
        for p, e in _primes(c.numerator).items():
            r = r + e * _log_atom({0: p})
        for p, e in _primes(c.denominator).items():
            r = r - e * _log_atom({0: p})
        return r
    if sym_sign(x, quick=True) == -1:
        return float("nan")
    c, y = split_const(x)
    r = log(const(c))
    r = r + _log_poly(y.n)
    for k, e in y.f:
        r = r - e * _log_poly(S.factors[k])
    return r


def _log_poly(p):
    """log|p| for a primitive polynomial"""
    if len(p) == 1:
        (k, c), = p.items()
        r = ZERO
        for i, e in exps(k):
            v = S.vars[i]
            if v.kind == "sqrt":
                c2, y = split_const(Sym(v.data["P"]))
                t = log(const(c2)) + _log_poly(y.n) if y.n != {0: 1} else log(const(c2))
                r = r + t * const(Fraction(e, 2))
            elif v.kind == "exp":
                r = r + e * v.data["arg"]
            else:
                r = r + e * _log_atom(var_poly(i))
        return r
    if p[max(p)] < 0:
        p = pneg(p)
    g = P.monogcd(p)
    r = ZERO
    if g:
        r = _log_poly({g: 1})
        p = {k - g: c for k, c in p.items()}
        if len(p) == 1:
            return r
    sq = poly_sqrt(p)
    if sq is not None:
        return r + 2 * _log_poly(sq if sq[max(sq)] > 0 else pneg(sq))
    # split over factors already seen in logs (gives a stable log base)
    for key in list(S.log_atoms):
        f = S.log_atoms[key][1]
        if len(f) > 1:
            while len(p) > 1:
                q = pdivexact(p, f)
                if q is None:
                    break
                r = r + _log_atom(f)
                p = q
    if p == {0: 1}:
        return r
    if len(p) == 1:
        return r + _log_poly(p)
    return r + _log_atom(p)


def _log_atom(p):
    key = frozenset(p.items())
    e = S.log_atoms.get(key)
    if e is None:
        v = S.new_var("log@%d" % len(S.vars), "log", {"poly": p})
        S.log_atoms[key] = e = (v.idx, p)
    return Sym(var_poly(e[0]))


def log_parts(x):
    """x as  rest + sum c_i * log|p_i|  with constant c_i, or None"""
    if any(S.vars[i].kind == "log" for k, _ in x.f for i in P.pvars(S.factors[k])):
        return None
    logs = {}
    rest = {}
    for k, c in x.n.items():
        lv = [(i, e) for i, e in exps(k) if S.vars[i].kind == "log"]
        if not lv:
            rest[k] = c
        elif len(lv) == 1 and lv[0][1] == 1 and k == (1 << (B * lv[0][0])) and not x.f:
            logs[lv[0][0]] = Fraction(c, x.d)
        else:
            return None
    return make(rest, x.d, x.f), logs


def exp(x):
    x = as_sym(x)
    if x is None:
        return float("nan")
    if not x.n:
        return ONE
    lp = log_parts(x)
    if lp is not None and lp[1]:
        rest, logs = lp
        if all(c.denominator in (1, 2) for c in logs.values()):
            r = exp(rest) if rest.n else ONE
            for i, c in logs.items():
                b = absolute(Sym(S.vars[i].data["poly"]))
                r = r * (b ** c if c.denominator == 1 else sqrt(b) ** int(2 * c))
            return r
    neg = x.n[max(x.n)] < 0
    y = -x if neg else x
    r = lookup(S.exp_atoms, y)
    if r is None:
        v = S.new_var("exp@%d" % len(S.vars), "exp", {"arg": y}, lo=0, lo_strict=True)
        r = Sym(var_poly(v.idx))
        S.exp_atoms.append((y, r, mhash(y)))
    return inverse(r) if neg else r


def fn_atom(fn, x, params=()):
    """uninterpreted real function with congruence; fn in the FN table"""
    x = as_sym(x)
    if x is None:
        return float("nan")
    key = (fn, tuple(params))
    lst = S.fn_atoms.setdefault(key, [])
    r = lookup(lst, x)
    if r is None:
        prob = fn.endswith("sf") or fn.endswith("cdf")
        v = S.new_var("%s@%d" % (fn, len(S.vars)), "fn", {"fn": fn, "params": tuple(params), "arg": x},
                      lo=0 if (prob or fn.endswith("pdf") or fn.startswith("opaque")) else None, hi=1 if prob else None)
        r = Sym(var_poly(v.idx))
        lst.append((x, r, mhash(x)))
    return r


def sym_tail(fn, x, params=()):
    """survival function of a distribution symmetric about 0"""
    x = as_sym(x)
    if x is None:
        return float("nan")
    if not x.n:
        return const(Fraction(1, 2))
    if x.n[max(x.n)] < 0:
        return ONE - fn_atom(fn, -x, params)
    return fn_atom(fn, x, params)


def even_fn(fn, x, params=()):
    x = as_sym(x)
    if x is None:
        return float("nan")
    if x.n and x.n[max(x.n)] < 0:
        x = -x
    return fn_atom(fn, x, params)


def pi():
    return Sym(var_poly(0))


# --------------------------------------------------------------------------
# signs, comparison, path engine
# --------------------------------------------------------------------------
def var_sign(v):
    if v.lo is not None and (v.lo > 0 or (v.lo == 0)):
        return 1
    if v.hi is not None and (v.hi < 0 or (v.hi == 0)):
        return -1
    return None


_qs_cache = {}


def quick_sign(p):
    """sign of the polynomial p where it is non-zero, if easily known; else None (0 if p==0)"""
    if not p:
        return 0
    if len(p) == 1 and 0 in p:
        return 1 if p[0] > 0 else -1
    eng = S.engine
    key = frozenset(p.items())
    if eng is not None:
        s = eng.known.get(key)
        if s is not None:
            return s
    s = S.facts_cache.get(key, 7)
    if s == 7:
        s = _struct_sign(p)
        S.facts_cache[key] = s
    return s


def _struct_sign(p):
    sg = None
    ok = True
    for k, c in p.items():
        t = 1 if c > 0 else -1
        for i, e in exps(k):
            if e & 1:
                vs = var_sign(S.vars[i])
                if vs is None:
                    ok = False
                    break
                if vs < 0:
                    t = -t
        if not ok:
            break
        if sg is None:
            sg = t
        elif sg != t:
            ok = False
            break
    if ok:
        return sg
    # univariate affine over a bounded variable
    vs = P.pvars(p)
    if len(vs) == 1 and P.deg(p) <= 12:
        v = S.vars[vs[0]]
        if v.lo is not None and v.hi is not None:
            r = _interval_sign(p, v)
            if r:
                return r
    if len(p) > 1 and all(S.vars[i].kind == "input" for i in vs):
        s = _quad_sign(p, vs)
        if s:
            return s
    return None


def _interval_sign(p, v):
    """sign of a univariate polynomial on (lo,hi) via Bernstein coefficients"""
    i = v.idx
    co = {}
    for k, c in p.items():
        co[k >> (B * i)] = c
    n = max(co)
    lo, hi = Fraction(v.lo), Fraction(v.hi)
    w = hi - lo
    # q(t)=p(lo+w t)
    a = [Fraction(0)] * (n + 1)
    for e, c in co.items():
        for j in range(e + 1):
            a[j] += c * math.comb(e, j) * lo ** (e - j) * w ** j
    b = [sum(Fraction(math.comb(m, j), math.comb(n, j)) * a[j] for j in range(m + 1)) for m in range(n + 1)]
    if all(x >= 0 for x in b) and any(x > 0 for x in b):
        return 1
    if all(x <= 0 for x in b) and any(x < 0 for x in b):
        return -1
    return None


def _quad_sign(p, vs):
    """exact definiteness of a polynomial of degree <= 2 (LDL' of its Gram matrix)"""
    if len(vs) > 14 or P.deg(p) != 2:
        return None
    pos = {i: j + 1 for j, i in enumerate(vs)}
    m = len(vs) + 1
    G = [[Fraction(0)] * m for _ in range(m)]
    for k, c in p.items():
        t = []
        for i, e in exps(k):
            t += [pos[i]] * e
        while len(t) < 2:
            t.append(0)
        i, j = t
        if i == j:
            G[i][i] += c
        else:
            G[i][j] += Fraction(c, 2)
            G[j][i] += Fraction(c, 2)
    for sg in (1, -1):
        if _psd([[sg * x for x in r] for r in G]):
            return sg
    return None


def _psd(A):
    n = len(A)
    A = [r[:] for r in A]
    for k in range(n):
        # pivot on a positive diagonal
        piv = None
        for i in range(k, n):
            if A[i][i] < 0:
                return False
            if A[i][i] > 0:
                piv = i
                break
        if piv is None:
            return all(A[i][j] == 0 for i in range(k, n) for j in range(k, n))
        if any(A[i][i] < 0 for i in range(k, n)):
            return False
        A[k], A[piv] = A[piv], A[k]
        for r in A:
            r[k], r[piv] = r[piv], r[k]
        d = A[k][k]
        for i in range(k + 1, n):
            if A[i][k]:
                f = A[i][k] / d
                for j in range(k + 1, n):
                    A[i][j] -= f * A[k][j]
                A[i][k] = Fraction(0)
    return True


def sym_sign(x, quick=False):
    """sign of a Sym where non-zero, or None"""
    if not x.n:
        return 0
    s = quick_sign(x.n)
    if s is None:
        return None
    for k, e in x.f:
        if e & 1:
            t = quick_sign(S.factors[k])
            if not t:
                return None
            s *= t
    return s


class SymBool:
    """an undecided comparison: poly (op) 0"""
    __slots__ = ("p", "op")

    def __init__(self, p, op):
        self.p, self.op = p, op

    def __bool__(self):
        return S.engine.decide(self.p, self.op)

    def __and__(self, o):
        return bool(self) and bool(o)

    __rand__ = __and__

    def __or__(self, o):
        return bool(self) or bool(o)

    __ror__ = __or__

    def __invert__(self):
        return not bool(self)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return id(self)

    def any(self):
        return bool(self)

    all = any


NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}


def compare(a, b, op):
    d = add(a, -b)
    if not d.n:
        return op in ("==", "<=", ">=")
    if d.is_const():
        c = d.const()
        return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": False, "!=": True}[op]
    # numerator times the odd-power denominators of unknown sign
    p = d.n
    if op in ("==", "!="):
        return SymBool(_norm(p), op)
    flip = False
    for k, e in d.f:
        if e & 1:
            s = quick_sign(S.factors[k])
            if s == -1:
                flip = not flip
            elif s is None:
                p = mul(p, S.factors[k])
    if flip:
        p = pneg(p)
    z = _half_tail(p)
    if z is not None:
        return compare(z, const(0), op)
    return SymBool(_normpos(p), op)


def _half_tail(p):
    """p = c*(1 - 2*sf(z)) for a distribution symmetric about 0: an argument with the same sign as p, else None"""
    if len(p) != 2 or 0 not in p:
        return None
    k = max(p)
    c = p[0]
    if p[k] != -2 * c or k & (k - 1):
        return None
    i, r = divmod(k.bit_length() - 1, B)
    v = S.vars[i]
    if r or v.kind != "fn" or v.data.get("fn") not in ("norm.sf", "t.sf"):
        return None
    z = v.data["arg"]
    return z if c > 0 else -z


def _normpos(p):
    c = content(p)
    return pdivint(p, c)


def _norm(p):
    p = _normpos(p)
    if p[max(p)] < 0:
        p = pneg(p)
    return p
