"""Reference expressions of the two-equation GM error estimators (Drukker, Egger & Prucha 2013; Arraiz et al. 2010; Anselin 2011)."""
from common import *


def A_hom(ctx, Wd, kind):
    n = Wd.shape[0]
    d = ctx.dot
    WW = d(Wd.T, Wd)
    if kind == "het":
        A1 = WW - ctx.diag(diagvec(WW))
    else:
        t = trace(WW) / ctx.num(n)
        A1 = WW - t * ctx.eye(n)
        if kind == "hom_sc":
            A1 = A1 / (1 + t * t)
    return A1, (Wd + Wd.T) / ctx.num(2)


def moments2(ctx, Wd, A1, A2, u):
    d = ctx.dot
    n = ctx.num(u.shape[0])
    wu = d(Wd, u)
    S1, S2 = A1 + A1.T, A2 + A2.T
    G = ctx.A([[sc(d(u.T, S1, wu)) / n, -sc(d(wu.T, A1, wu)) / n], [sc(d(u.T, S2, wu)) / n, -sc(d(wu.T, A2, wu)) / n]])
    g = ctx.colvec([sc(d(u.T, A1, u)) / n, sc(d(u.T, A2, u)) / n])
    return G, g


def P_mat(ctx, H, zs):
    d = ctx.dot
    n = ctx.num(H.shape[0])
    S = ctx.inv(d(H.T, H) / n)
    hz = d(H.T, zs) / n
    P = d(S, hz)
    return d(P, ctx.inv(d(hz.T, P)))


def avecs(ctx, As, us, zs, H, P):
    """the two linear parts a_r = H P alpha_r"""
    n = ctx.num(us.shape[0])
    return [ctx.dot(H, P, -(ctx.dot(zs.T, A + A.T, us)) / n) for A in As]


def psi_hom(ctx, As, us, a=None):
    d = ctx.dot
    n = us.shape[0]
    N = ctx.num(n)
    s2 = (us * us).sum() / N
    m3 = (us * us * us).sum() / N
    m4 = (us * us * us * us).sum() / N
    v = [ctx.colvec(list(diagvec(A))) for A in As]
    psi = ctx.zeros((2, 2))
    for r in range(2):
        for s in range(2):
            t = s2 * s2 / 2 * trace(d(As[r] + As[r].T, As[s] + As[s].T)) + (m4 - 3 * s2 * s2) * sc(d(v[r].T, v[s]))
            if a is not None:
                t = t + s2 * sc(d(a[r].T, a[s])) + m3 * (sc(d(a[r].T, v[s])) + sc(d(a[s].T, v[r])))
            psi[r, s] = t / N
    return psi


def omega_hom(ctx, As, us, psi, G, lam, base, P, oDD, a=None):
    """joint variance; base: matrix whose columns enter the linear part (H, or X for least squares)"""
    d = ctx.dot
    N = ctx.num(us.shape[0])
    s2 = (us * us).sum() / N
    m3 = (us * us * us).sum() / N
    V = np.hstack([ctx.colvec(list(diagvec(A))) for A in As])
    psiDL = m3 * d(base.T, V) / N
    if a is not None:
        psiDL = psiDL + s2 * d(base.T, np.hstack(a)) / N
    J = d(G, ctx.colvec([ctx.num(1), 2 * lam]))
    pi = ctx.inv(psi)
    oLL = ctx.inv(d(J.T, pi, J)) / N
    oDL = d(P.T, psiDL, pi, J, oLL)
    return np.vstack([np.hstack([oDD, oDL]), np.hstack([oDL.T, oLL])])


def psi_het(ctx, As, e, a=None):
    """e: filtered residuals"""
    d = ctx.dot
    n = e.shape[0]
    N = ctx.num(n)
    E = ctx.diag([v * v for v in e.reshape(-1)])
    psi = ctx.zeros((2, 2))
    for r in range(2):
        for s in range(2):
            t = trace(d(As[r] + As[r].T, E, As[s] + As[s].T, E)) / 2
            if a is not None:
                t = t + sc(d(a[r].T, E, a[s]))
            psi[r, s] = t / N
    return psi
