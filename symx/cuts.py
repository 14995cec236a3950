"""Modular cuts: in harnesses that ask for it (ctx.cut(name)) the symbolic run replaces a helper that is verified on its own by its
contract, recording the arguments it was called with.  The replay run always executes the real helper (and records the same)."""
import sys


def fields(a, kw, names, defaults):
    d = dict(defaults)
    d.update(zip(names, a))
    d.update(kw)
    return d


def chow(mode, optstub):
    r = sys.modules.get("spreg.regimes")
    orig = getattr(r, "_chow_run", None)
    if orig is None or mode == "num":
        return

    def _chow_run(kr, kf, kryd, nr, betas, vm):
        ctx = optstub.ctx
        if ctx is None or "chow" not in ctx.cuts:
            return orig(kr, kf, kryd, nr, betas, vm)
        from . import sym as Y
        Y.S.assumptions.add("the Chow tests are not looked at in these cases (they are in P13 and P14)")
        z = ctx.zeros((kr, 2))
        return (ctx.num(0), ctx.num(1)), z
    r._chow_run = _chow_run


def sur_est(mode, optstub):
    """generalised least squares of a system (P19): in the cut its results are a generic line through the values at the base point"""
    u = sys.modules.get("spreg.sur_utils")
    orig = getattr(u, "sur_est", None)
    if orig is None:
        return

    def cut_(bigXX, bigXy, bigE, bigK, where):
        ctx = optstub.ctx
        if ctx is None or "sur_est:" + where not in ctx.cuts:
            return orig(bigXX, bigXy, bigE, bigK)
        import numpy as np
        i = len(ctx.est_calls)
        rec = dict(XX=bigXX, Xy=bigXy, E=bigE, K=bigK)
        ctx.est_calls.append(rec)
        if ctx.opt_link is not None:
            old = ctx.est_calls[i - ctx.est_link]
            flat = lambda c: [np.asarray(v.toarray() if hasattr(v, "toarray") else v) for k in ("XX", "Xy") for _, v in sorted(c[k].items())]
            for u, v in zip(flat(old) + [np.asarray(old["E"])], flat(rec) + [np.asarray(bigE)]):
                ctx.prove_eq("system estimator is given the same", v, u)
            if mode != "num":
                rec["out"] = old["out"]
                return tuple(dict(o) if isinstance(o, dict) else o.copy() for o in rec["out"])
        if mode == "num":
            rec["out"] = orig(bigXX, bigXy, bigE, bigK)
            return rec["out"]
        from fractions import Fraction as F
        from . import sym as Y
        Y.S.assumptions.add("the system estimator sur_est (checked in P19) returns values on a generic line in these cases")

        def fr(v):
            return ctx.num(F(ctx.approx(v)).limit_denominator(10 ** 6))

        def fix(a):
            a = np.asarray(a.toarray() if hasattr(a, "toarray") else a)
            return np.array([fr(v) for v in a.reshape(-1)], dtype=object).reshape(a.shape)
        b, V, sig = orig({k: fix(v) for k, v in bigXX.items()}, {k: fix(v) for k, v in bigXy.items()}, fix(bigE), bigK)
        t = ctx.var("est%d" % i, F(0), F(-1, 50), F(1, 50))
        out = {}
        for r in sorted(b):
            d = np.array([ctx.num(F(1 + (3 * j + 2 * r) % 5, 7) * (-1) ** j) for j in range(len(b[r]))], dtype=object).reshape(-1, 1)
            out[r] = fix(b[r]) + d * t

        def bent(S):
            S = fix(S)
            for p in range(S.shape[0]):
                for q in range(p, S.shape[1]):
                    v = S[p, p] * ctx.num(F(2 + p, 3)) if p == q else S[p, q] * ctx.num(F(1 + (p + 2 * q) % 4, 5))
                    S[p, q] = S[p, q] + v * t
                    S[q, p] = S[p, q]
            return S
        rec["out"] = (out, bent(V), bent(sig))
        return rec["out"]
    for n, m in list(sys.modules.items()):
        if (n == "spreg" or n.startswith("spreg.")) and n != "spreg.sur_utils" and getattr(m, "sur_est", None) is orig:
            m.sur_est = lambda XX, Xy, E, K, w=n.split(".")[-1]: cut_(XX, Xy, E, K, w)


def probit(mode, optstub):
    """likelihood and information of the probit model: in the cut their values lie on a generic line through those at the base point"""
    import functools
    m = sys.modules.get("spreg.probit")
    cls = getattr(m, "BaseProbit", None)
    if cls is None:
        return

    def wrap(name):
        orig = getattr(cls, name)

        @functools.wraps(orig)
        def f(self, par):
            ctx = optstub.ctx
            if ctx is None or "probit" not in ctx.cuts:
                return orig(self, par)
            rec = dict(what=name, at=par, y=self.y, x=self.x)
            ctx.est_calls.append(rec)
            v = orig(self, par)
            if mode != "num":
                from fractions import Fraction as F
                import numpy as np
                from . import sym as Y
                Y.S.assumptions.add("likelihood and information of the probit model (checked in the objective cases) lie on a generic "
                                    "line in these cases")
                v = np.asarray(v)
                v = np.array([ctx.num(F(ctx.approx(e)).limit_denominator(10 ** 6)) for e in v.reshape(-1)], dtype=object).reshape(v.shape)
                if name == "ll":
                    v = v * (1 + ctx.var("estll", F(0), F(-1, 20), F(1, 20)))
                else:
                    t = ctx.var("esth", F(0), F(-1, 20), F(1, 20))
                    for p in range(v.shape[0]):
                        for q in range(p, v.shape[0]):
                            v[p, q] = v[p, q] * (1 + t * ctx.num(F(2 + p, 3) if p == q else F(1 + (p + 2 * q) % 4, 5)))
                            v[q, p] = v[p, q]
            rec["out"] = v
            return v
        setattr(cls, name, f)
    if hasattr(cls, "ll") and hasattr(cls, "hessian"):
        wrap("ll")
        wrap("hessian")


def install(mode, optstub):
    probit(mode, optstub)
    chow(mode, optstub)
    sur_est(mode, optstub)
    u = sys.modules.get("spreg.utils")
    orig = getattr(u, "optim_moments", None)
    if orig is None:
        return

    def optim_moments(*a, **kw):
        ctx = optstub.ctx
        if ctx is None or "optim_moments" not in ctx.cuts:
            return orig(*a, **kw)
        d = fields(a, kw, ("moments_in", "vcX", "all_par", "start", "hard_bound"),
                   dict(vcX=None, all_par=False, start=None, hard_bound=False))
        G, g = d["moments_in"][0], d["moments_in"][1]
        vc = d["vcX"]
        if vc is not None and not getattr(vc, "any", lambda: True)():
            vc = None
        ctx.moment_calls.append(dict(G=G, g=g, vc=vc, hard_bound=d["hard_bound"]))
        if ctx.stop_at is not None and len(ctx.moment_calls) >= ctx.stop_at:
            from .ctx import Stop
            raise Stop()
        if mode == "num":
            return orig(*a, **kw)
        from . import sym as Y
        Y.S.assumptions.add("optim_moments returns an arbitrary point of its box (its objective is checked in the case named "
                            "optim_moments)")
        k = G.shape[1] - 1
        if G.shape[0] == 2:
            bounds = [(-0.99, 0.99)]
        elif G.shape[1] == 4:
            bounds = [(-0.99, 0.99), (0.0, None), (0.0, None)]
        else:
            bounds = [(-0.99, 0.99), (0.0, None)]
        vals = optstub.fresh(len(bounds), bounds)
        optstub.calls.append(dict(kind="cut", x=vals))
        if d["all_par"]:
            return ctx.vec1(vals)
        return vals[0]
    optim_moments._orig = orig
    for n, m in list(sys.modules.items()):
        if (n == "spreg" or n.startswith("spreg.")) and getattr(m, "optim_moments", None) is orig:
            m.optim_moments = optim_moments
