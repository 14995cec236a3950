"""Replay mode: real numpy/scipy/spreg; only the numerical optimisers are replaced by the values of the model."""
import numpy as np
import scipy.optimize


class Res(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)


class OptStub:
    def __init__(self):
        self.calls = []
        self.ctx = None
        self.mode = "num"

    def fresh(self, k, bounds):
        i = len(self.calls)
        if getattr(self.ctx, "max_opt", None) is not None and i >= self.ctx.max_opt:
            self.ctx.over_budget()
        out = []
        for j in range(k):
            lo, hi = bounds[j] if bounds is not None and j < len(bounds) else (None, None)
            out.append(self.ctx.opt_value(i, j, lo, hi))
        return out

    def minimize_scalar(self, fun, bracket=None, bounds=None, args=(), method=None, tol=None, options=None):
        v = self.fresh(1, [bounds] if bounds is not None else None)[0]
        if not isinstance(args, tuple):
            args = (args,)
        self.calls.append(dict(kind="minimize_scalar", fun=lambda p: fun(p[0], *args), bounds=[bounds], x=[v],
                               method=method, start=None, tol=tol))
        f = fun(v, *args)
        x = v
        if isinstance(f, np.ndarray) and f.ndim == 2:
            x = np.array([[v]])
        return Res(x=x, fun=f, success=True, nit=1, nfev=1)

    def _vec(self, fun, x0, args, bounds, kind, **extra):
        if not isinstance(args, tuple):
            args = (args,)
        x0 = np.asarray(x0).reshape(-1)
        vals = self.fresh(len(x0), bounds)
        x = np.array(vals, dtype=float)
        rec = dict(kind=kind, args=args, fun=lambda p: fun(np.array(p, dtype=float), *args), bounds=bounds, x=vals, start=x0, **extra)
        self.calls.append(rec)
        return x, rec

    def minimize(self, fun, x0, args=(), method=None, jac=None, hess=None, bounds=None, constraints=(), tol=None,
                 callback=None, options=None, **k):
        x, rec = self._vec(fun, x0, args, bounds, "minimize", jac=jac, hess=hess)
        return Res(x=x, fun=np.asarray(fun(x, *(args if isinstance(args, tuple) else (args,)))).reshape(-1)[0], success=True, nit=1, nfev=1,
                   message="stub", status=0, hess_inv=self.ctx.hess_inv)

    def fmin_l_bfgs_b(self, func, x0, fprime=None, args=(), approx_grad=0, bounds=None, **k):
        x, rec = self._vec(func, x0, args, bounds, "fmin_l_bfgs_b")
        return x, rec["fun"](list(rec["x"])), {"warnflag": 0}

    def fmin_bfgs(self, f, x0, fprime=None, args=(), **k):
        x, rec = self._vec(f, x0, args, None, "fmin_bfgs", jac=fprime)
        if k.get("full_output"):
            return x, np.asarray(f(x, *args)).reshape(-1), 0, 0, 1, 1, 0
        return x

    def fmin_ncg(self, f, x0, fprime, fhess_p=None, fhess=None, args=(), **k):
        x, rec = self._vec(f, x0, args, None, "fmin_ncg", jac=fprime, hess=fhess)
        if k.get("full_output"):
            return x, np.asarray(f(x, *args)).reshape(-1), 1, 1, 1, 0
        return x

    def fmin(self, f, x0, args=(), **k):
        x, rec = self._vec(f, x0, args, None, "fmin")
        return x


OPTSTUB = OptStub()


class Pool:
    def __init__(self, *a, **k):
        pass

    def apply_async(self, f, args=(), kwds=None, callback=None):
        v = f(*args, **(kwds or {}))
        return type("R", (), {"get": lambda self, timeout=None: v})()

    def map(self, f, it):
        return [f(x) for x in it]

    def close(self):
        pass

    def join(self):
        pass

    def terminate(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def install():
    for k in ("minimize_scalar", "minimize", "fmin_l_bfgs_b", "fmin_bfgs", "fmin_ncg", "fmin"):
        setattr(scipy.optimize, k, getattr(OPTSTUB, k))
    import multiprocessing
    multiprocessing.Pool = Pool
