"""Harness context: the same harness runs symbolically (mode 'sym') and on the real float code (mode 'num')."""
import math
import time
import traceback
from fractions import Fraction

import numpy as np

REG = {}


class Case:
    def __init__(self, prop, name, fn, tier, params, max_paths, timeout):
        self.prop, self.name, self.fn, self.tier = prop, name, fn, tier
        self.params, self.max_paths, self.timeout = params, max_paths, timeout


def case(prop, name, tier="quick", max_paths=64, timeout=200, **params):
    def deco(fn):
        c = Case(prop, name, fn, tier, params, max_paths, timeout)
        d = REG.setdefault(prop, {})
        assert name not in d, (prop, name)
        d[name] = c
        return fn
    return deco


def add_case(prop, name, fn, tier="quick", max_paths=64, timeout=200, **params):
    case(prop, name, tier, max_paths, timeout, **params)(fn)


class Stop(BaseException):
    pass


PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97]


class Ctx:
    def __init__(self, mode, assign=None, tier="quick", seed=1):
        self.mode = mode
        self.assign = dict(assign or {})
        self.tier = tier
        self.seed = seed
        self.base = {}
        self.obs = []          # obligations
        self.opt_seq = 0
        self.functions = set()
        self.notes = []
        self.assumptions = set()
        self.cuts = set()
        self.hess_inv = None
        self.opt_link = None
        self.opt_box = {}
        self.pin = None         # calls of the optimiser whose point is fixed
        self.moment_calls = []
        self.est_calls = []
        self.labels = {}
        self.closed = False
        self.stop_at = None
        if mode == "sym":
            from . import proxies as PX
            self.PX = PX
            self.opt = PX.OPTSTUB
        else:
            from . import numstub
            self.opt = numstub.OPTSTUB
        self.opt.calls = []
        self.opt.ctx = self

    def until_moments(self, k, fn):
        """run fn up to its k-th moment minimisation (to completion if it has fewer)"""
        self.stop_at = k
        try:
            return fn()
        except Stop:
            return None
        finally:
            self.stop_at = None

    def limited(self, k, fn):
        """run fn with at most k optimiser calls: executions that make more lie outside the bounds (None)"""
        self.max_opt = k
        try:
            return fn()
        except Stop:
            return None
        finally:
            self.max_opt = None

    def over_budget(self):
        if self.mode == "sym":
            from . import sym as Y
            raise Y.Infeasible()
        raise Stop()

    def approx(self, v):
        """number at the base point (to follow the branches a fixed computation takes)"""
        if self.mode == "sym":
            from . import decide as D
            from . import sym as Y
            if type(v) is Y.Sym:
                names = [x.name for x in Y.S.vars if x.kind == "input"]
                return float(D.evaluate(v, {x: self.base.get(x, Fraction(3, 7)) for x in names}))
        return float(v)

    def closed_box(self):
        """let the optimiser also return points on the boundary of its box"""
        self.closed = True

    def opaque(self, n=40):
        """treat square roots and absolute values of large expressions as uninterpreted functions"""
        if self.mode == "sym":
            from . import sym as Y
            Y.S.opaque = n

    def cut(self, name):
        """replace a separately verified helper by its contract (symbolic mode)"""
        self.cuts.add(name)

    # ---- inputs -----------------------------------------------------------
    def var(self, name, base, lo=None, hi=None, strict=True):
        base = Fraction(base)
        self.base[name] = base
        if self.mode == "sym":
            from . import sym as Y
            return Y.var(name, None if lo is None else Fraction(lo), None if hi is None else Fraction(hi),
                         lo_strict=strict, hi_strict=strict)
        return float(self.assign.get(name, base))

    def num(self, x):
        """a constant"""
        if self.mode == "sym":
            from . import sym as Y
            return Y.const(Fraction(x))
        return float(Fraction(x))

    def A(self, rows):
        """array from nested lists of numbers / symbols"""
        a = np.array(rows, dtype=object)
        if self.mode == "sym":
            from . import la
            o = np.empty(a.shape, dtype=object)
            f = o.reshape(-1)
            from . import sym as Y
            for i, v in enumerate(a.reshape(-1)):
                f[i] = Y.const(Fraction(v)) if isinstance(v, (str, Fraction)) else Y.as_sym(v)
            return o
        return np.array([float(Fraction(v)) if isinstance(v, (str, Fraction)) else float(v)
                         for v in a.reshape(-1)]).reshape(a.shape)

    def col(self, xs):
        return self.A([[x] for x in xs])

    def colvec(self, xs):
        o = np.empty((len(xs), 1), dtype=object if self.mode == "sym" else float)
        for i, x in enumerate(xs):
            o[i, 0] = x
        return o

    def vec1(self, xs):
        o = np.empty(len(xs), dtype=object if self.mode == "sym" else float)
        for i, x in enumerate(xs):
            o[i] = x
        return o

    def freevec(self, name, bases):
        return self.colvec([self.var("%s%d" % (name, i), b) for i, b in enumerate(bases)])

    def linevec(self, names, bases, *dirs):
        """base + s1*dir1 + s2*dir2 ... with symbolic s_j (base point s_j as given)"""
        out = self.col(bases)
        for (nm, b), d in zip(names, dirs):
            s = self.var(nm, b)
            out = out + self.col(d) * s
        return out

    def same_opt(self, start=0, scale=None):
        """from here on the optimiser's calls return the points of call number start and the following ones (scale: factor per
        parameter)"""
        self.opt_link = (len(self.opt.calls), start, scale)
        self.est_link = len(self.est_calls)

    def opt_value(self, i, j, lo, hi):
        if self.opt_link is not None:
            m, s, scale = self.opt_link
            v = self.opt.calls[s + i - m]["x"][j]
            return v if scale is None or scale[j] is None else v * scale[j]

        def fr(x):
            if x is None:
                return None
            if self.mode == "sym":
                from . import sym as Y
                s = Y.as_sym(x)
                if s is None:
                    return None
                return s.const() if s.is_const() else None
            x = float(np.asarray(x).reshape(-1)[0])
            return None if x in (math.inf, -math.inf) else Fraction(x).limit_denominator(10 ** 6)
        lo, hi = self.opt_box.get((i, j), (lo, hi))
        lo, hi = fr(lo), fr(hi)
        name = "opt%d_%d" % (i, j)
        t = Fraction(PRIMES[(3 * i + 2 * j) % 12] + 7, 41)      # generic point in (0,1)
        if name in self.base:
            b = self.base[name]
        elif lo is not None and hi is not None:
            b = lo + (hi - lo if hi - lo < 1000 else 2) * t
            b = b.limit_denominator(50) if (hi - lo) > Fraction(1, 5) else b
            if not lo < b < hi:
                b = (lo + hi) / 2
        elif lo is not None:
            b = lo + t
        elif hi is not None:
            b = hi - t
        else:
            b = t
        if self.pin is not None and self.pin(i):
            return self.num(b)
        if self.mode == "sym":
            return self.var(name, b, lo, hi, strict=not self.closed)
        self.base[name] = b
        return float(self.assign.get(name, b))

    # ---- math --------------------------------------------------------------
    def _np(self):
        return self.PX.NP if self.mode == "sym" else np

    def sqrt(self, x):
        if self.mode == "sym":
            return self.PX.sqrt(x)
        return np.sqrt(x)

    def log(self, x):
        return self.PX.log(x) if self.mode == "sym" else np.log(x)

    def exp(self, x):
        return self.PX.exp(x) if self.mode == "sym" else np.exp(x)

    def abs(self, x):
        return self.PX.absolute(x) if self.mode == "sym" else np.abs(x)

    def inv(self, A):
        if self.mode == "sym":
            from . import la
            return la.inv(np.asarray(A))
        return np.linalg.inv(np.asarray(A, dtype=float))

    def det(self, A):
        if self.mode == "sym":
            from . import la
            return la.det(A)
        return np.linalg.det(np.asarray(A, dtype=float))

    def dot(self, *ms):
        r = ms[0]
        for m in ms[1:]:
            r = self.PX.dot(r, m) if self.mode == "sym" else np.dot(r, m)
        return r

    def eye(self, n):
        return self.PX.eye(n) if self.mode == "sym" else np.eye(n)

    def zeros(self, shape):
        return self.PX.zeros(shape) if self.mode == "sym" else np.zeros(shape)

    def ones(self, shape):
        return self.PX.ones(shape) if self.mode == "sym" else np.ones(shape)

    def diag(self, v):
        v = np.asarray(v).reshape(-1)
        return self.PX.diag(v) if self.mode == "sym" else np.diag(v)

    def eigvals(self, A):
        if self.mode == "sym":
            from . import la
            return la.eigvals(A)
        return np.sort(np.linalg.eigvals(np.asarray(A, float)).real)

    @property
    def pi(self):
        if self.mode == "sym":
            from . import sym as Y
            return Y.pi()
        return math.pi

    def _stat(self, dist, fn, *a):
        if self.mode == "sym":
            return getattr(getattr(self.PX.STATS, dist), fn)(*a)
        import scipy.stats
        return getattr(getattr(scipy.stats, dist), fn)(*[np.asarray(x, float) if not np.isscalar(x) else x for x in a])

    def chi2sf(self, x, df):
        return self._stat("chi2", "sf", x, df)

    def normsf(self, x):
        return self._stat("norm", "sf", x)

    def normcdf(self, x):
        return self._stat("norm", "cdf", x)

    def normpdf(self, x):
        return self._stat("norm", "pdf", x)

    def tsf(self, x, df):
        return self._stat("t", "sf", x, df)

    def fsf(self, x, a, b):
        return self._stat("f", "sf", x, a, b)

    def p2(self, z):
        """two-sided normal p-value"""
        return 2 * self.normsf(self.abs(z))

    # ---- weights -----------------------------------------------------------
    def W(self, nb, weights=None, transform="r", **k):
        import libpysal
        nb = {i: list(v) for i, v in (nb.items() if isinstance(nb, dict) else enumerate(nb))}
        if weights is not None:
            weights = {i: list(v) for i, v in (weights.items() if isinstance(weights, dict) else enumerate(weights))}
            w = libpysal.weights.W(nb, weights, silence_warnings=True, **k)
        else:
            w = libpysal.weights.W(nb, silence_warnings=True, **k)
        if transform:
            w.transform = transform
        return w

    def kernel(self, nb, weights):
        """a libpysal Kernel weights object with the given (possibly symbolic) weights"""
        import libpysal

        class K(libpysal.weights.Kernel):
            def __init__(self, nb, wt):
                libpysal.weights.W.__init__(self, nb, wt, silence_warnings=True)
                self.kernel = {i: list(v) for i, v in wt.items()}
        return K({i: list(v) for i, v in nb.items()}, {i: list(v) for i, v in weights.items()})

    def dense(self, w):
        """independent dense reading of a W object"""
        n = w.n
        pos = {k: i for i, k in enumerate(w.id_order)}
        o = self.zeros((n, n))
        for k in w.id_order:
            for j, v in zip(w.neighbors[k], w.weights[k]):
                o[pos[k], pos[j]] = o[pos[k], pos[j]] + self.num_any(v)
        return o

    def num_any(self, v):
        if self.mode == "sym":
            from . import sym as Y
            return Y.as_sym(v)
        return float(v)

    # ---- obligations ---------------------------------------------------------
    def _flat(self, x):
        if self.mode == "sym":
            from . import la, sym as Y
            from .sparse import SpMat
            if x is None:
                return None
            if hasattr(x, "to_numpy"):
                x = x.to_numpy()
            if isinstance(x, SpMat):
                x = x.dense()
            if isinstance(x, (list, tuple)):
                parts = [self._flat(v) for v in x]
                if any(p is None for p in parts):
                    return None
                o = np.empty(sum(len(p) for p in parts), dtype=object)
                i = 0
                for p in parts:
                    o[i:i + len(p)] = p
                    i += len(p)
                return o
            return la.to_obj(np.asarray(x)).reshape(-1)
        if x is None:
            return None
        if hasattr(x, "to_numpy"):
            x = x.to_numpy()
        if hasattr(x, "toarray"):
            x = x.toarray()
        if isinstance(x, (list, tuple)):
            parts = [self._flat(v) for v in x]
            if any(p is None for p in parts):
                return None
            return np.concatenate(parts) if parts else np.zeros(0)
        return np.asarray(x).astype(float).reshape(-1)

    def prove_eq(self, label, got, exp, known=(), shape=None, tol=1e-9):
        """obligation: got == exp for all inputs in scope.  known: [(finding id, alternative expected)]; tol: absolute tolerance
        of the comparison when the obligation is replayed in floating point (products of ill-conditioned inverses)"""
        try:
            g, e = self._flat(got), self._flat(exp)
        except (TypeError, ValueError) as ex:
            self.obs.append(dict(label=label, kind="eq", bad="not numeric: %s" % ex))
            return
        bad = None
        if g is None or e is None:
            bad = "missing value (got %s)" % ("None" if g is None else "value")
        elif len(g) != len(e):
            bad = "size %d, expected %d" % (len(g), len(e))
        if shape is not None and bad is None:
            if tuple(np.shape(got)) != tuple(shape):
                bad = "shape %s, expected %s" % (np.shape(got), shape)
        ob = dict(label=label, kind="eq", got=g, exp=e, bad=bad, known=[], tol=tol)
        for kid, alt in known:
            ob["known"].append((kid, self._flat(alt)))
        self.add(ob)

    def shown(self, text):
        """the number behind a printed figure: in the symbolic run every printed expression carries its own mark"""
        t = float(text)
        if self.mode == "sym":
            from . import sym as Y
            return Y.S.tokens.get(t)
        return t

    def prove_shown(self, label, texts, values, dec, known=()):
        """printed figures (strings) show the given values up to dec decimals"""
        texts, vals = list(texts), list(self._flat(values))
        if len(texts) != len(vals):
            self.prove_true(label, False, "%d figures, expected %d" % (len(texts), len(vals)))
            return
        got, exp = [], []
        for t, v in zip(texts, vals):
            try:
                g = self.shown(t)
            except ValueError:
                self.prove_true(label, False, "no figure: %r" % t)
                return
            if self.mode == "sym" and g is None:
                c = float(v) if not hasattr(v, "is_const") or v.is_const() else None
                self.prove_true(label, c is not None and abs(float(t) - c) <= 0.51 * 10.0 ** -dec, "shows %s" % t)
            else:
                got.append(g)
                exp.append(v)
        if got:
            self.prove_eq(label, got, exp, tol=0.6 * 10.0 ** -dec)

    def prove_true(self, label, cond, msg="", known=None):
        self.add(dict(label=label, kind="true", cond=bool(cond), msg=str(msg)[:300], knownid=known))

    def prove_ge(self, label, a, b=0):
        """obligation: a >= b"""
        d = self._flat(a)
        e = self._flat(b)
        if len(e) == 1 and len(d) > 1:
            e = np.array([e[0]] * len(d), dtype=d.dtype)
        self.add(dict(label=label, kind="ge", got=d, exp=e, bad=None))

    def raises(self, label, fn, exc=Exception, known=None):
        try:
            fn()
        except exc as e:
            self.add(dict(label=label, kind="true", cond=True, msg="", knownid=known))
            return e
        except Exception as e:
            self.add(dict(label=label, kind="true", cond=False, msg="raised %r" % (e,), knownid=known))
            return e
        self.add(dict(label=label, kind="true", cond=False, msg="no exception", knownid=known))

    def runs(self, label, fn, known=None):
        """obligation: fn() completes; returns its value or None"""
        from . import sym as Y
        try:
            r = fn()
        except (Y.Unsupported, Y.PathBudget):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = "%s:%s" % (tb[-1].filename.split("/")[-1], tb[-1].name)
            self.add(dict(label=label, kind="true", cond=False, msg="%s: %s at %s" % (type(e).__name__, e, where), knownid=known))
            return None
        self.add(dict(label=label, kind="true", cond=True, msg="", knownid=known))
        return r

    def add(self, ob):
        c = self.labels.get(ob["label"], 0) + 1
        self.labels[ob["label"]] = c
        if c > 1:
            ob["label"] += " #%d" % c
        self.obs.append(ob)
        if self.mode == "sym":
            self.decide(ob)

    # ---- deciding (sym mode) --------------------------------------------------
    def decide(self, ob):
        from . import decide as D
        D.decide(self, ob)
