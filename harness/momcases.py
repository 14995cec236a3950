"""The common moment minimiser on symbolic moment matrices, registered for every property that relies on it."""
from symx.ctx import add_case
from common import *


def solver(ctx, spreg):
    from spreg.utils import optim_moments
    p = ctx.p
    r, c = p["shape"]
    neg = p.get("neg", True)

    def v(nm, b, small=False):
        if small:
            return ctx.var(nm, F(-7, 3) if neg else F(1, 4), -3 if neg else F(1, 8), -2 if neg else F(1, 2))
        return ctx.var(nm, F(3 * b + 8, 7), 1, None)
    few = r * (c + 1) > 6
    G = ctx.A([[v("g%d%d" % (i, j), i + 2 * j, (i, j) == (0, 1)) if (i, j) in ((0, 0), (0, 1), (1, 1), (r - 1, 2)) or not few
                else ctx.num(F(3 * i + 5 * j + 9, 7)) for j in range(c)] for i in range(r)])
    g = ctx.colvec([v("h%d" % i, 2 + i) if i < 2 else ctx.num(F(3 * i + 11, 5)) for i in range(r)])
    kw, vc = {}, None
    if p.get("vc"):
        a, b, o = ctx.var("va", F(5, 3), 1, 2), ctx.var("vb", F(7, 3), 2, 3), ctx.var("vo", F(1, 4), 0, 1)
        if r == 2:
            vc = ctx.A([[a, o], [o, b]])
        elif r == 6:      # the inverse has a rational Cholesky factor
            L = ctx.A([[F(1 + i, 2) if i == j else (F((-1) ** i, 2 + j) if 0 < i - j < 3 else 0) for j in range(r)] for i in range(r)])
            vc = ctx.inv(ctx.dot(L, L.T))
        else:
            vc = ctx.A([[ctx.num(F(1, 3 + abs(i - j)) if i != j else 2 + i) for j in range(r)] for i in range(r)])
        kw["vcX"] = vc
    npar = c - 1
    if p.get("all"):
        kw["all_par"] = True
    out = optim_moments([G, g], **kw)
    call = ctx.opt.calls[0]
    bnds = [(ctx.num(F(-99, 100)), ctx.num(F(99, 100)))] + [(0, None)] * (npar - 1)
    ctx.prove_eq("box of the spatial parameter", list(call["bounds"][0]), bnds[0])
    for b in call["bounds"][1:]:
        ctx.prove_true("variance parameters are bounded below by zero", float(b[0]) == 0 and (b[1] is None or float(b[1]) == float("inf")), b)
    ctx.prove_true("number of parameters", len(call["bounds"]) == len(call["x"]) == npar, call["bounds"])
    q = [ctx.var("q%d" % j, F(2 + 3 * j, 7), F(-99, 100) if j == 0 else 0, F(99, 100) if j == 0 else None) for j in range(npar)]
    q0 = [ctx.num(F(1, 3 + j)) for j in range(npar)]

    def obj(p):
        z = g - ctx.dot(G, ctx.colvec([p[0], p[0] * p[0]] + list(p[1:])))
        return sc(ctx.dot(z.T, z) if vc is None else ctx.dot(z.T, ctx.inv(vc), z))
    f, f0 = sc(call["fun"](q)), sc(call["fun"](q0))
    ctx.prove_eq("a constant multiple of the weighted squared moment residuals", f * obj(q0), f0 * obj(q))
    ctx.prove_ge("the multiple is positive", f0 * obj(q0))
    ctx.prove_eq("returns the minimiser", out, list(call["x"]) if p.get("all") else call["x"][0])


def bound(ctx, spreg):
    """hard_bound refuses a solution on the boundary and accepts an interior one"""
    from spreg.utils import optim_moments
    ctx.closed_box()
    t = ctx.var("t", F(1, 3), F(-99, 100), F(99, 100))
    G = ctx.A([[1, 0], [0, 1]])
    g = ctx.colvec([t, t * t])
    msg = None
    try:
        out = optim_moments([G, g], hard_bound=True)
    except Exception as e:
        msg = str(e)
    lam = ctx.opt.calls[0]["x"][0]
    edge = bool(abs(lam) >= ctx.num(F(99, 100)))
    ctx.prove_true("refused exactly on the boundary", edge == (msg is not None), (edge, msg))
    if msg:
        ctx.prove_true("refused because of the bounds", "outside the bounds" in msg, msg)
    ctx.runs("never refused without the option", lambda: optim_moments([G, g]))


def register(P):
    add_case(P, "optim_moments_2x2", solver, shape=(2, 2))
    add_case(P, "optim_moments_2x2_vc", solver, shape=(2, 2), vc=True, neg=False)
    add_case(P, "optim_moments_3x3", solver, shape=(3, 3))
    add_case(P, "optim_moments_3x3_all", solver, shape=(3, 3), all=True, neg=False)
    add_case(P, "optim_moments_hard_bound", bound)


def register_panel(P):
    add_case(P, "optim_moments_3x3_all", solver, shape=(3, 3), all=True)
    add_case(P, "optim_moments_6x4_all", solver, shape=(6, 4), all=True)
    add_case(P, "optim_moments_6x4_vc", solver, shape=(6, 4), all=True, vc=True)
