"""spatial SUR: GM error (n = 6..8, responses on a symbolic line, every lambda per equation in (-0.99,0.99) or unbounded), ML error (fixed
responses, symbolic lambdas per equation, one or two steps of the alternating scheme), lag by 3SLS (responses on a symbolic line,
instruments of order 1 and 2); 2 and 3 equations; regimes."""
from symx.ctx import add_case
from common import *
from surref import *
from p19_sur import YS, DS
from p21_3sls import ref, estimates, d_, c_
from p14_tslsreg import G10, G12, G14


def graph(p, n):
    return {6: D6 if p.get("asym", True) else G6, 7: G7, 8: D8, 10: G10, 12: G12, 14: G14}[n]


def base(ctx, p, line=True):
    n, N = p.get("n", 6), p.get("N", 2)
    if line:
        s = ctx.var("s", F(3, 7))
        ys = [ctx.col(YS[r][:n]) + ctx.col(DS[r][:n]) * s for r in range(N)]
    elif p.get("regs") or not p.get("xs"):
        ys = [ctx.col(YS[r][:n]) for r in range(N)]
    else:
        ys = uncorrelated(ctx, n, N, p["xs"])
    xs = [const(ctx, cols(ctx, *v, n=n)) for v in p.get("xs", ([X1], [X2], [X3]) if line else ([X1],) * 3)[:N]]
    nx = {r: ["c%d" % r] + ["x%d_%d" % (i, r) for i in range(1, xs[r].shape[1])] for r in range(N)}
    w = ctx.W(graph(p, n))
    return n, N, ys, xs, nx, w, ctx.dense(w)


def uncorrelated(ctx, n, N, xs):
    """responses whose least squares residuals are uncorrelated over the equations"""
    out, es = [], []
    for r in range(N):
        cs = [[F(1)] * n] + [[F(v) for v in x[:n]] for x in xs[r]] + es
        q = []
        dot = lambda a, b: sum(u * v for u, v in zip(a, b))
        for c in cs + [[F(v) for v in YS[r][:n]]]:
            for u in q:
                f = dot(c, u) / dot(u, u)
                c = [a - f * b for a, b in zip(c, u)]
            q.append(c)
        e = q[-1]
        es.append(e)
        out.append(ctx.col([a + 3 + 2 * v for a, v in zip(e, xs[r][0])]))
    return out


def filtered(ctx, lams, Wd, mats):
    return [m - l * ctx.dot(Wd, m) for m, l in zip(mats, lams)]


def gm(ctx, spreg):
    p = ctx.p
    ctx.cut("optim_moments")
    ctx.opaque()
    if p.get("cut"):
        ctx.cut("sur_est:sur_error")
    n, N, ys, Xs, nx, w, Wd = base(ctx, p, not p.get("regs"))
    regs = list(p["regs"])[:n] if p.get("regs") else None
    call = lambda: spreg.SURerrorGM(d_(ys), d_(Xs), w, nonspat_diag=False, name_bigy={r: "y%d" % r for r in range(N)}, name_bigX=c_(nx),
                                    **(dict(regimes=list(regs)) if regs else {}))
    Zs, names = Xs, nx
    if regs:
        b = [block(ctx, Xs[r], regs, [True] * len(nx[r]), nx[r]) for r in range(N)]
        Zs, names = [v[0] for v in b], {r: b[r][1] for r in range(N)}
    E = [OLSRef(ctx, y, X).e for y, X in zip(ys, Zs)]
    if p["what"] == "moments":
        try:
            ctx.until_moments(N, call)
        except Exception:
            if len(ctx.moment_calls) < N:
                raise
        for r in range(N):
            G, g = kp98(ctx, E[r], Wd)
            moments(ctx, r, G, g, label="moment equations %d" % r)
        return
    m = call()
    lams = [ctx.opt.calls[r]["x"][0] for r in range(N)]
    args = filtered(ctx, lams, Wd, ys), filtered(ctx, lams, Wd, Zs), np.hstack(filtered(ctx, lams, Wd, E))
    g = Est(ctx, 0, *args) if p.get("cut") else GLS(ctx, *args)
    for r in range(N):
        ctx.prove_eq("coefficients of equation %d" % r, m.bSUR[r], g.bs[r], shape=g.bs[r].shape)
        ctx.prove_true("names of equation %d" % r, list(m.name_bigX[r]) == list(names[r]), m.name_bigX[r])
    ctx.prove_eq("lambda", m.lamsur, ctx.colvec(lams), shape=(N, 1))
    ctx.prove_eq("variance", m.varb, g.V, shape=g.V.shape)
    ctx.prove_eq("error covariance", m.sig, g.sig, shape=(N, N))
    ctx.prove_eq("error correlation", m.corr, corr(ctx, g.sig), shape=(N, N))
    ctx.prove_eq("residuals", m.bigE, resid(ctx, ys, Zs, g.bs), shape=(n, N))
    setp(ctx, "inference", m.sur_inf, g.bs, g.V)
    if len(set(Z.shape[1] for Z in Zs)) == 1:
        ctx.prove_eq("equality of coefficients over equations", triples(m.surchow), equal_coefs(ctx, g.bs, g.V))
    else:
        ctx.prove_true("no test of equality", m.surchow is None)
    if regs:
        regime_chows(ctx, m, g.bs, g.V, names, [nx[r] for r in range(N)], regset(regs))


def conc(ctx, S, lams, Wd, n):
    """log likelihood of the filtered system, up to a constant"""
    v = -ctx.num(F(n, 2)) * logdet(ctx, S)
    for l in lams:
        v = v + ctx.log(ctx.abs(ctx.det(ctx.eye(n) - l * Wd)))
    return v


def ml(ctx, spreg):
    p = ctx.p
    ctx.opaque()
    ctx.cut("sur_est:sur_error")
    n, N, ys, Xs, nx, w, Wd = base(ctx, p, False)
    regs = list(p["regs"])[:n] if p.get("regs") else None
    steps = p.get("steps", 1)
    kw = dict(regimes=list(regs)) if regs else {}
    fit = lambda: spreg.SURerrorML(d_(ys), d_(Xs), w, epsilon=p.get("eps", 4.0), nonspat_diag=True, spat_diag=True,
                                                        vm=p.get("vm", False), name_bigy={r: "y%d" % r for r in range(N)}, name_bigX=c_(nx), **kw)
    try:
        m = ctx.limited(N + steps, fit)
    except UnboundLocalError:
        m = None    # settled before the first step: no estimate
    if m is None:
        return
    calls = ctx.opt.calls
    d = ctx.dot
    Zs, names = Xs, nx
    if regs:
        b = [block(ctx, Xs[r], regs, [True] * len(nx[r]), nx[r]) for r in range(N)]
        Zs, names = [v[0] for v in b], {r: b[r][1] for r in range(N)}
    lams = [calls[r]["x"][0] for r in range(N)]
    # equation by equation objective
    tot = ctx.num(0)
    for r in range(N):
        ctx.prove_true("search box of equation %d" % r, tuple(float(v) for v in calls[r]["bounds"][0]) == (-1.0, 1.0), calls[r]["bounds"])
        o = OLSRef(ctx, filtered(ctx, lams[r:r + 1], Wd, [ys[r]])[0], filtered(ctx, lams[r:r + 1], Wd, [Zs[r]])[0])
        cl = -ctx.num(F(n, 2)) * ctx.log(o.s2n) + ctx.log(ctx.abs(ctx.det(ctx.eye(n) - lams[r] * Wd)))
        tot = tot + cl
    K = -ctx.num(F(n, 2)) * ctx.num(N) * (1 + ctx.log(2 * ctx.pi))
    ctx.prove_eq("likelihood of the equations", m.errllik, K + tot)
    # alternating scheme
    E0 = m_sur(ctx, ys, Zs, m)
    E = E0
    done = len(calls) - N
    for i in range(done):
        if i:
            lams = list(calls[N + i - 1]["x"])
        g = Est(ctx, i, filtered(ctx, lams, Wd, ys), filtered(ctx, lams, Wd, Zs),
                np.hstack(filtered(ctx, lams, Wd, [E[:, [r]] for r in range(N)])), "step %d: " % i)
        E = resid(ctx, ys, Zs, g.bs)
        c = calls[N + i]
        ctx.prove_true("search box %d" % i, [tuple(float(v) for v in b) for b in c["bounds"]] == [(-1.0, 1.0)] * N, c["bounds"])
        lx = list(c["x"])
        fe = np.hstack(filtered(ctx, lx, Wd, [E[:, [r]] for r in range(N)]))
        obj = conc(ctx, d(fe.T, fe) / ctx.num(n), lx, Wd, n)
        ctx.prove_eq("objective %d" % i, c["fun"](lx), -obj)
    lf = list(calls[-1]["x"])
    for r in range(N):
        ctx.prove_eq("coefficients of equation %d" % r, m.bSUR[r], g.bs[r], shape=g.bs[r].shape)
    ctx.prove_eq("lambda", m.lamsur, ctx.colvec(lf), shape=(N, 1))
    ctx.prove_eq("variance", m.varb, g.V, shape=g.V.shape)
    ctx.prove_eq("error covariance", m.sig, g.sig, shape=(N, N))
    ctx.prove_eq("residuals", m.bigE, E, shape=(n, N))
    ctx.prove_eq("likelihood", m.surerrllik, K + obj)
    df = N * (N - 1) // 2
    lr = 2 * (K + obj - K - tot)
    ctx.prove_eq("likelihood ratio test of diagonality", list(m.lrtest), [lr, ctx.num(df), ctx.chi2sf(lr, df)])
    lr = 2 * (K + obj - m.llik)
    ctx.prove_eq("likelihood ratio test of no spatial errors", list(m.likrlambda), [lr, ctx.num(N), ctx.chi2sf(lr, N)])
    setp(ctx, "inference", m.sur_inf, g.bs, g.V)
    if len(set(Z.shape[1] for Z in Zs)) == 1:
        ctx.prove_eq("equality of coefficients over equations", triples(m.surchow), equal_coefs(ctx, g.bs, g.V))
    if regs:
        regime_chows(ctx, m, g.bs, g.V, names, [nx[r] for r in range(N)], regset(regs))
    if p.get("vm"):
        vl = m.vm[:N, :N]
        se = [ctx.sqrt(vl[i, i]) for i in range(N)]
        z = [lf[i] / se[i] for i in range(N)]
        ctx.prove_eq("inference about lambda", flat(*m.lamsetp), se + z + [ctx.p2(v) for v in z])


def m_sur(ctx, ys, Zs, m):
    """residuals of the iterated SUR without spatial dependence: six steps unless the covariance settles"""
    E = np.hstack([OLSRef(ctx, y, Z).e for y, Z in zip(ys, Zs)])
    N, n = len(ys), E.shape[0]
    g = GLS(ctx, ys, Zs, E)
    d0 = sum((ctx.log(g.sig[i, i]) for i in range(1, N)), ctx.log(g.sig[0, 0]))
    d1 = logdet(ctx, g.sig)
    E, k = resid(ctx, ys, Zs, g.bs), 0
    while abs(ctx.approx(d1 - d0)) > 1e-5 and k <= 5:
        k += 1
        d0 = d1
        g = GLS(ctx, ys, Zs, E)
        E = resid(ctx, ys, Zs, g.bs)
        d1 = logdet(ctx, g.sig)
    ctx.prove_eq("likelihood of the SUR without spatial errors", m.llik, -ctx.num(F(n, 2)) * (ctx.num(N) * (1 + ctx.log(2 * ctx.pi)) + d1))
    return E


def information(ctx, spreg):
    """variance of lambda and the error covariance: inverse of the information matrix"""
    p = ctx.p
    from spreg.sur_error import surerrvm
    n, N = p.get("n", 4), p.get("N", 2)
    w = ctx.W({4: G4, 5: G5, 6: D6}[n])
    Wd = ctx.dense(w)
    lams = [ctx.var("l%d" % i, F(1 + i, 4) * (-1) ** i, -1, 1) if i < p.get("sym", 1) else ctx.num(F(2, 5) * (-1) ** i) for i in range(N)]
    S = ctx.zeros((N, N))
    vals = {(0, 0): F(5, 2), (1, 1): F(3), (0, 1): F(3, 4), (2, 2): F(2), (0, 2): F(1, 3), (1, 2): F(-1, 2)}
    for i in range(N):
        for j in range(i, N):
            v = ctx.var("s%d%d" % (i, j), vals[i, j]) if p.get("ssym") and (i, j) == (0, 1) else ctx.num(vals[i, j])
            S[i, j] = S[j, i] = v
    vm = surerrvm(n, N, w, ctx.colvec(lams), S)
    d = ctx.dot
    Si = ctx.inv(S)
    D = [d(Wd, ctx.inv(ctx.eye(n) - l * Wd)) for l in lams]
    tl = [(i, j) for i in range(N) for j in range(i, N)]
    P = len(tl)
    I = ctx.zeros((N + P, N + P))
    for i in range(N):
        for j in range(N):
            v = Si[i, j] * S[i, j] * trace(d(D[i].T, D[j]))
            if i == j:
                v = v + trace(d(D[i], D[i]))
            I[i, j] = v
    def e(i, j):
        m = ctx.zeros((N, N))
        m[i, j] = m[j, i] = ctx.num(1)
        return m
    for a, (i, j) in enumerate(tl):
        Q = d(Si, e(i, j))
        for r in range(N):
            I[r, N + a] = I[N + a, r] = Q[r, r] * trace(D[r])
        for b, (h, k) in enumerate(tl):
            I[N + a, N + b] = trace(d(Q, d(Si, e(h, k)))) * ctx.num(F(n, 2))
    ctx.prove_eq("inverse of the information matrix", d(vm, I), ctx.eye(N + P), shape=(N + P, N + P))


def lag(ctx, spreg):
    p = ctx.p
    if p.get("cut"):
        ctx.opaque()
        ctx.cut("sur_est:sur")
    n, N, ys, Xs, nx, w, Wd = base(ctx, p)
    d = ctx.dot
    regs = list(p["regs"])[:n] if p.get("regs") else None
    wl, lq = p.get("w_lags", 1), p.get("lag_q", True)
    ends = [cols(ctx, *v, n=n) for v in p["es"]] if p.get("es") else None
    ins = [cols(ctx, *v, n=n) for v in p["qs"]] if p.get("es") else None
    kw = {}
    if ends:
        kw.update(bigyend=d_(ends), bigq=d_(ins), name_bigyend={r: ["e%d" % r] for r in range(N)}, name_bigq={r: ["q%d" % r] for r in range(N)})
    if regs:
        kw.update(regimes=list(regs), regime_lag_sep=p.get("sep", False))
    m = spreg.SURlagIV(d_(ys), d_(Xs), w=w, w_lags=wl, lag_q=lq, spat_diag=True, nonspat_diag=False, name_bigy={r: "y%d" % r for r in range(N)},
                       name_bigX=c_(nx), **dict(kw))
    Es, Qs, nz, vary = [], [], {}, []
    Zx = []
    for r in range(N):
        Wy = d(Wd, ys[r])
        e = ends[r] if ends else None
        q = ins[r] if ends else None
        X = Xs[r]
        ne = list(m_names(r, ends))
        if regs:
            X, a = block(ctx, X, regs, [True] * len(nx[r]), nx[r])
            if q is not None:
                q = block(ctx, q, regs, [True])[0]
            if p.get("sep"):
                e = Wy if e is None else np.hstack([e, Wy])
                ne = ne + ["W_y%d" % r]
                vary.append(nx[r] + ne)
                e, b = block(ctx, e, regs, [True] * e.shape[1], ne)
                nz[r] = a + b
            else:
                vary.append(nx[r] + ne)
                b = []
                if e is not None:
                    e, b = block(ctx, e, regs, [True] * e.shape[1], ne)
                e = Wy if e is None else np.hstack([e, Wy])
                nz[r] = a + b + ["W_y%d" % r]
        else:
            e = Wy if e is None else np.hstack([e, Wy])
            nz[r] = nx[r] + ne + ["W_y%d" % r]
        out, wx = [] if q is None else [q], X[:, 1:]
        for _ in range(wl):
            wx = d(Wd, wx)
            out.append(wx)
        if q is not None and lq:
            wq = q
            for _ in range(wl):
                wq = d(Wd, wq)
                out.append(wq)
        Es.append(e)
        Qs.append(np.hstack(out))
        Zx.append(X)
    Zs, Zh, E, g = ref(ctx, ys, Zx, Es, Qs, p.get("cut"))
    estimates(ctx, m, ys, Zs, E, g)
    setp(ctx, "inference", m.tsls_inf, g.bs, g.V)
    if not regs:
        for r in range(N):
            lag = lambda v: ["%s%s" % ("W" * (o + 1), "_" + i) for o in range(wl) for i in v]
            q = ["q%d" % r] if ends else []
            want = q + lag(nx[r][1:]) + (lag(q) if lq else [])
            ctx.prove_true("names of the instruments of equation %d" % r, sorted(m.name_bigq[r]) == sorted(want), (m.name_bigq[r], want))
    for r in range(N):
        ctx.prove_true("names of equation %d" % r, list(m.name_bigX[r]) + list(m.name_bigyend[r]) == nz[r], (m.name_bigX[r], m.name_bigyend[r], nz[r]))
    if not (regs and p.get("sep")):
        R, a = [], 0
        tot = sum(Z.shape[1] for Z in Zs)
        for Z in Zs:
            a += Z.shape[1]
            R.append([1 if i == a - 1 else 0 for i in range(tot)])
        s, pv = wald(ctx, g.b, g.V, ctx.A(R))
        ctx.prove_eq("joint test of the spatial lags", list(m.joinrho), [s, ctx.num(N), pv])
    if len(set(Z.shape[1] for Z in Zs)) == 1:
        ctx.prove_eq("equality of coefficients over equations", triples(m.surchow), equal_coefs(ctx, g.bs, g.V))
    if regs:
        regime_chows(ctx, m, g.bs, g.V, nz, vary, regset(regs))


def m_names(r, ends):
    return ["e%d" % r] if ends else []


for what in ("moments", "second"):
    A = lambda nm, **q: add_case("P20", "gm_%s_%s" % (what, nm), gm, what=what, **q)
    A("two")
    A("two_unequal", xs=([X1, X2], [X3]))
    A("three", N=3, cut=True)
    A("regimes", n=8, regs="abbaabba", cut=True)
add_case("P20", "information_4", information)
add_case("P20", "information_sigma", information, sym=0, ssym=True)
add_case("P20", "information_two", information, sym=2)
add_case("P20", "information_three", information, N=3)
add_case("P20", "information_D6", information, n=6, sym=1)
add_case("P20", "ml_two", ml)
add_case("P20", "ml_two_vm", ml, vm=True)
add_case("P20", "ml_steps", ml, steps=2, eps=0.5)
add_case("P20", "ml_unequal", ml, xs=([X1, X2], [X3]), n=7)
add_case("P20", "ml_three", ml, N=3, n=7)
add_case("P20", "ml_regimes", ml, n=8, regs="abbaabba")
add_case("P20", "lag_two", lag, n=7)
add_case("P20", "lag_two_unequal", lag, n=8, xs=([X1, X2], [X3]))
add_case("P20", "lag_two_2", lag, n=8, w_lags=2)
add_case("P20", "lag_three", lag, cut=True, n=7, N=3)
add_case("P20", "lag_endog", lag, n=8, es=([YE], [Q2]), qs=([Q1], [RES]))
add_case("P20", "lag_endog_noq", lag, n=8, es=([YE], [Q2]), qs=([Q1], [RES]), lag_q=False)
add_case("P20", "lag_endog_2", lag, cut=True, n=10, es=([YE], [Q2]), qs=([Q1], [RES]), w_lags=2)
add_case("P20", "lag_endog_2_noq", lag, cut=True, n=10, es=([YE], [Q2]), qs=([Q1], [RES]), w_lags=2, lag_q=False)
add_case("P20", "lag_regimes", lag, cut=True, n=12, regs="abbaabbaabab")
add_case("P20", "lag_regimes_2", lag, cut=True, n=14, regs="abbaabbaababba", w_lags=2)
add_case("P20", "lag_regimes_sep", lag, cut=True, n=12, regs="abbaabbaabab", sep=True)
add_case("P20", "lag_regimes_endog", lag, cut=True, n=14, regs="abbaabbaababba", es=([YE], [Q2]), qs=([Q1], [RES]))
add_case("P20", "lag_regimes_endog_sep", lag, cut=True, n=14, regs="abbaabbaababba", es=([YE], [Q2]), qs=([Q1], [RES]), sep=True, lag_q=False)
