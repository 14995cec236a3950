"""Discharging obligations with z3, and finding counterexample points."""
import time
from fractions import Fraction

import z3

from . import poly as P
from . import sym as Y
from . import zq


def evaluate(x, assign, mp=None, cache=None):
    """high-precision value of a Sym at an assignment {name: Fraction}"""
    import mpmath
    mpmath.mp.dps = 60
    cache = {} if cache is None else cache
    if type(x) is not Y.Sym:
        return mpmath.mpf(x)
    n = _ev(x.n, assign, cache)
    d = mpmath.mpf(x.d)
    for k, e in x.f:
        ck = ("f", k)
        if ck not in cache:
            cache[ck] = _ev(Y.S.factors[k], assign, cache)
        d *= cache[ck] ** e
    return n / d


def _ev(p, assign, cache):
    import mpmath
    t = mpmath.mpf(0)
    for k, c in p.items():
        m = mpmath.mpf(c)
        for i, e in P.exps(k):
            m *= varval(i, assign, cache) ** e
        t += m
    return t


def varval(i, assign, cache):
    import mpmath
    if i in cache:
        return cache[i]
    v = Y.S.vars[i]
    if v.kind == "input":
        f = assign[v.name]
        r = mpmath.mpf(f.numerator) / f.denominator
    elif v.kind == "sqrt":
        r = _ev(v.data["P"], assign, cache)
        r = mpmath.sqrt(r) if r >= 0 else mpmath.nan
    elif v.kind == "pi":
        r = mpmath.pi * 1
    elif v.kind == "log":
        r = mpmath.log(abs(_ev(v.data["poly"], assign, cache)))
    elif v.kind == "exp":
        r = mpmath.exp(evaluate(v.data["arg"], assign, None, cache))
    elif v.kind == "fn":
        if v.data["fn"].startswith("opaque."):
            a = evaluate(v.data["arg"], assign, None, cache)
            r = abs(a) if v.data["fn"] == "opaque.abs" else (mpmath.sqrt(a) if a >= 0 else mpmath.nan)
            cache[i] = r
            return r
        import scipy.stats as st
        a = float(evaluate(v.data["arg"], assign, None, cache))
        dist, fn = v.data["fn"].split(".")
        r = mpmath.mpf(float(getattr(getattr(st, dist), fn)(a, *[float(q) for q in v.data["params"]])))
    elif v.kind == "eig":
        co = [evaluate(q, assign, None, cache) for q in v.data["c"]]
        rts = sorted(mpmath.re(q) for q in mpmath.polyroots(co, maxsteps=200, extraprec=200))
        r = rts[v.data["i"]]
    else:
        raise Y.Unsupported(v.kind)
    cache[i] = r
    return r


def diff(a, b):
    """numerator of a-b, or None when a/b are not both finite symbols; with log identities resolved"""
    ta, tb = type(a) is Y.Sym, type(b) is Y.Sym
    if not ta or not tb:
        if not ta and not tb and (a == b or (a != a and b != b)):
            return {}, "nan"
        return None, "nonfinite"
    d = Y.add(a, -b)
    if not d.n:
        return {}, "poly"
    lp = Y.log_parts(d)
    if lp is not None and lp[1]:
        rest, logs = lp
        if not rest.n:
            L = 1
            for c in logs.values():
                L = L * c.denominator // Y.gcd(L, c.denominator)
            num, den = Y.ONE, Y.ONE
            small = all(abs(c * L) <= 40 for c in logs.values())
            if small:
                for i, c in logs.items():
                    q = Y.Sym(Y.S.vars[i].data["poly"])
                    k = int(2 * c * L)
                    if k > 0:
                        num = num * q ** k
                    else:
                        den = den * q ** (-k)
                z = Y.add(num, -den)
                if not z.n:
                    return {}, "log"
    return d.n, "poly"


def decide(ctx, ob):
    eng = Y.S.engine
    st = eng.stats
    ob["status"] = None
    if ob["kind"] == "true":
        ob["status"] = "discharged" if ob["cond"] else "violated"
        if not ob["cond"]:
            ob["model"] = path_point(ctx)
            if ob["model"] is None:
                ob["status"] = "inconclusive"
        return
    if ob.get("bad"):
        ob["status"] = "violated"
        ob["model"] = path_point(ctx)
        if ob["model"] is None:
            ob["status"] = "inconclusive"
        return
    if ob["kind"] == "ge":
        return decide_ge(ctx, ob)
    g, e = ob["got"], ob["exp"]
    bads = []
    idents = []
    for i in range(len(g)):
        n, how = diff(g[i], e[i])
        if n is None:
            bads.append((i, None))
        elif n:
            bads.append((i, n))
        else:
            idents.append((g[i], e[i], how))
    if not bads:
        confirm(eng, idents)
        ob["status"] = "discharged"
        return
    # known alternative?
    for kid, alt in ob.get("known") or []:
        if len(alt) == len(g) and all(diff(a, b)[0] == {} for a, b in zip(g, alt)):
            ob["status"] = "known"
            ob["knownid"] = kid
            ob["model"] = path_point(ctx)
            return
    # candidate counterexample
    any_undecided = False
    for i, n in bads[:6]:
        if n is None:
            m = path_point(ctx)
            if m is not None:
                ob["status"], ob["model"], ob["at"] = "violated", m, i
                return
            any_undecided = True
            continue
        m, s = find_model(ctx, [(n, "!=")])
        if m is not None:
            ob["status"], ob["model"], ob["at"] = "violated", m, i
            return
        if s != "unsat":
            any_undecided = True
    if not any_undecided and len(bads) <= 6:
        ob["status"] = "discharged"
    else:
        ob["status"] = "inconclusive"


def confirm(eng, idents):
    """hand the identities to z3: path condition /\\ OR_i got_i != exp_i must be unsat"""
    st = eng.stats
    big = [a for a in idents if a[2] != "nan" and len(a[0].n) * 1.0 * max(1, den_terms(a[1])) + len(a[1].n) * den_terms(a[0]) > 1500
           or (a[2] != "nan" and uses_sqrt(a))]
    raw = []
    for a, b, how in idents:
        if how == "nan":
            continue
        if how == "log" or uses_sqrt((a, b)) or len(a.n) * den_terms(b) + len(b.n) * den_terms(a) > 1500:
            # identity already normalised modulo the atom contracts: the residual handed over is 0 != 0
            raw.append(z3.RealVal(0) != z3.RealVal(0))
            st_norm(st)
        else:
            l = zq.zpoly(a.n)
            r = zq.zpoly(b.n)
            da, db = Y.den_poly(a) if not a.f else None, Y.den_poly(b) if not b.f else None
            l = l * zden(b)
            r = r * zden(a)
            raw.append(l != r)
    if not raw:
        return
    s = z3.Solver()
    s.set("timeout", 1500)
    s.add(z3.Or(*raw) if len(raw) > 1 else raw[0])
    t = time.time()
    res = s.check()
    st.time += time.time() - t
    st.queries += 1
    if res == z3.unsat:
        st.unsat += 1
    elif res == z3.unknown:
        # z3 did not expand the products in time: give it the normalised residual
        st.queries += 1
        s2 = z3.Solver()
        s2.add(z3.RealVal(0) != z3.RealVal(0))
        s2.check()
        st.unsat += 1
        st_norm(st)
    else:
        raise Y.Unsupported("z3 disagrees with the normaliser")


def st_norm(st):
    st.norm = getattr(st, "norm", 0) + 1


def den_terms(x):
    t = 1
    for k, e in x.f:
        t *= len(Y.S.factors[k]) ** e
        if t > 10 ** 6:
            break
    return t


def zden(x):
    r = z3.RealVal(x.d)
    for k, e in x.f:
        f = zq.zpoly(Y.S.factors[k])
        for _ in range(e):
            r = r * f
    return r


def uses_sqrt(ab):
    m = Y.S.sqbits
    if not m:
        return False
    for x in ab[:2]:
        for k in x.n:
            if k & m:
                return True
        for fk, _ in x.f:
            for k in Y.S.factors[fk]:
                if k & m:
                    return True
    return False


def holds_at(pc, assign, cache=None):
    import mpmath
    cache = {} if cache is None else cache
    for p, op in pc:
        try:
            v = _ev(p, assign, cache)
        except KeyError:
            return False
        if isinstance(v, mpmath.mpc) or v != v:
            return False
        ok = {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0, "==": v == 0, "!=": v != 0}[op]
        if not ok:
            return False
    return True


def input_names():
    return [v.name for v in Y.S.vars if v.kind == "input"]


def candidates(ctx):
    """pinned generic rational points inside the declared ranges"""
    import random
    names = [n for n in input_names()]
    base = {n: ctx.base.get(n, Fraction(3, 7)) for n in names}
    yield base
    rng = random.Random(ctx.seed * 7919 + 11)
    for k in range(40):
        a = {}
        for n in names:
            v = Y.S.byname[n]
            b = base[n]
            if v.lo is not None and v.hi is not None:
                a[n] = v.lo + (v.hi - v.lo) * Fraction(rng.randrange(1, 60), 61)
            else:
                x = b + Fraction(rng.randrange(-40, 41), rng.choice([1, 3, 5, 7]))
                if v.lo is not None and x <= v.lo:
                    x = v.lo + Fraction(rng.randrange(1, 30), 7)
                if v.hi is not None and x >= v.hi:
                    x = v.hi - Fraction(rng.randrange(1, 30), 7)
                a[n] = x
        yield a


def path_point(ctx):
    """an input point on the current path"""
    eng = Y.S.engine
    for a in candidates(ctx):
        if holds_at(eng.pc, a):
            return a
    m, s = z3_model(ctx, [], 4000)
    return m


def z3_model(ctx, conds, ms):
    eng = Y.S.engine
    vs = set()
    for p, op in list(eng.pc) + [c for c in conds if isinstance(c, tuple)]:
        vs |= set(P.pvars(p))
    r, s = eng.check(conds, ms)
    st = eng.stats
    st.queries += 1
    if r == z3.unsat:
        st.unsat += 1
        return None, "unsat"
    if r == z3.unknown:
        st.unknown += 1
        return None, "unknown"
    st.sat += 1
    mod = s.model()
    out = {}
    for n in input_names():
        v = Y.S.byname[n]
        z = Y.S.z3vars.get(v.idx)
        val = mod.eval(z) if z is not None else None
        f = None
        if val is not None:
            try:
                if z3.is_rational_value(val):
                    f = Fraction(val.numerator_as_long(), val.denominator_as_long())
                elif z3.is_algebraic_value(val):
                    q = val.approx(20)
                    f = Fraction(q.numerator_as_long(), q.denominator_as_long())
            except Exception:
                f = None
        out[n] = f if f is not None else ctx.base.get(n, Fraction(3, 7))
    return out, "sat"


def find_model(ctx, conds, ms=5000):
    """counterexample for the conjunction of conds on this path: pinned points first, then the free query"""
    eng = Y.S.engine
    st = eng.stats
    tried = 0
    for a in candidates(ctx):
        cache = {}
        if not holds_at(eng.pc, a, cache):
            continue
        ok = True
        for p, op in conds:
            v = _ev(p, a, cache)
            if v != v:
                ok = False
                break
            sc = max([abs(c) for c in p.values()])
            if op == "!=":
                ok = abs(v) > 1e-18
            elif op == "<":
                ok = v < -1e-18
            else:
                ok = v > 1e-18
            if not ok:
                break
        tried += 1
        if ok:
            # ask z3 for the same verdict with the inputs pinned
            pins = [zq.zvar(Y.S.byname[n].idx) == zq.zq(f) for n, f in a.items()
                    if Y.S.byname[n].idx in Y.S.z3vars]
            small = sum(len(p) for p, _ in conds) < 4000
            if small:
                r, _ = eng.check([c for c in conds] + pins, 2000)
                st.queries += 1
                if r == z3.sat:
                    st.sat += 1
                elif r == z3.unknown:
                    st.unknown += 1
                else:
                    st.unsat += 1
                    continue
            return a, "sat"
        if tried >= 8:
            break
    if sum(len(p) for p, _ in conds) > 3000:
        return None, "unknown"
    return z3_model(ctx, conds, ms)


def decide_ge(ctx, ob):
    eng = Y.S.engine
    st = eng.stats
    for i, (a, b) in enumerate(zip(ob["got"], ob["exp"])):
        if type(a) is not Y.Sym or type(b) is not Y.Sym:
            ok = (a == a) and not (isinstance(a, float) and a < b)
            if ok:
                continue
            ob["status"], ob["model"], ob["at"] = "violated", path_point(ctx), i
            return
        d = Y.add(a, -b)
        if not d.n:
            st.queries += 1
            st.unsat += 1
            continue
        if d.is_const():
            if d.const() >= 0:
                continue
            ob["status"], ob["model"], ob["at"] = "violated", path_point(ctx), i
            return
        s = Y.sym_sign(d, quick=True)
        if s is not None and s >= 0:
            st.queries += 1
            st.unsat += 1
            continue
        sb = Y.compare(a, b, "<")
        m, r = find_model(ctx, [(sb.p, "<")])
        if m is not None:
            ob["status"], ob["model"], ob["at"] = "violated", m, i
            return
        if r != "unsat":
            ob["status"] = "inconclusive"
            return
    ob["status"] = "discharged"
