"""every estimator of the package at one small size (6..14 observations, two regimes, two equations, panels of 3..4 units over 2 periods) with
the options that change the printed text; responses on a symbolic line (fixed for the moment and likelihood estimators, whose spatial
parameter is symbolic instead).  Printed expressions carry marks, so that every figure of a summary is compared as an expression with
the attribute it has to show; Wald statistics in the summaries are compared with their definition from the printed table's own model."""
import re
from symx.ctx import add_case
from common import *
import zoo

FIG = r"-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+(?:e[+-]?\d+)?|nan|-?inf"
ROW = re.compile(r"^ *(\S.*?) +(%s)(?: +(%s) +(%s) +(%s))? *$" % (FIG, FIG, FIG, FIG))


# ---- reading a summary ---------------------------------------------------------------------------------------------------------
def sections(text):
    """the parts of a summary, one per model, and what follows them"""
    body, _, last = text.partition("\nGLOBAL DIAGNOSTICS\n")
    parts = re.split(r"\nSUMMARY OF (?:OUTPUT|EQUATION)[^\n]*\n", body)
    return parts[1:], last


def pair(text, label):
    """figures after 'label :'"""
    return re.findall(r"(?:^|\n| {3,}|\d )%s *: *(\S+)" % re.escape(label), text)


def test(text, label):
    """(df, value, probability) on the lines of a test"""
    return re.findall(r"(?:^|\n) *%s +(%s) +(%s)(?: +(%s))? *(?=\n|$)" % (re.escape(label), FIG, FIG, FIG), text)


def table(text):
    """rows of the coefficient table: {name: figures}; None when the layout is not that of one table"""
    head = re.search(r"\n-{80,}\n +Variable +Coefficient +Std.Error +(\w)-Statistic +Probability\n-{80,}\n", text)
    if head is None:
        return None, None
    out = []
    for line in text[head.end():].split("\n"):
        if line.startswith("-----"):
            break
        m = ROW.match(line)
        out.append((m.group(1), [g for g in m.groups()[1:] if g is not None]) if m else (line, []))
    return out, head.group(1)


def latex_table(text):
    out = []
    for line in text.split("\n"):
        c = [e.strip().rstrip("\\").strip() for e in line.split(" & ")]
        if len(c) == 5 and c[0] != "Variable":
            out.append((c[0].replace("\\_", "_").replace("\\%", "%"), c[1:]))
    return out


# ---- what has to be there -------------------------------------------------------------------------------------------------------
def val(v):
    return v.item() if hasattr(v, "item") else v


PAIRS = {
    "Mean dependent var": ("mean_y", 4), "S.D. dependent var": ("std_y", 4), "R-squared": ("r2", 4), "Adjusted R-squared": ("ar2", 4),
    "Pseudo R-squared": ("pr2", 4), "Spatial Pseudo R-squared": ("pr2_e", 4)}
OLS_TOP = {"Sum squared residual": (lambda m: m.utu, 3), "Sigma-square": (lambda m: m.sig2, 3), "S.E. of regression": (lambda m: ("sqrt", m.sig2), 3),
           "Sigma-square ML": (lambda m: m.sig2n, 3), "S.E of regression ML": (lambda m: ("sqrt", m.sig2n), 4), "F-statistic": (lambda m: m.f_stat[0], 4),
           "Prob(F-statistic)": (lambda m: m.f_stat[1], None), "Log likelihood": (lambda m: m.logll, 3), "Akaike info criterion": (lambda m: m.aic, 3),
           "Schwarz criterion": (lambda m: m.schwarz, 3)}
ML_TOP = {"Log likelihood": (lambda m: m.logll, 3), "Sigma-square ML": (lambda m: m.sig2, 3), "S.E of regression": (lambda m: ("sqrt", m.sig2), 3),
          "Akaike info criterion": (lambda m: m.aic, 3), "Schwarz criterion": (lambda m: m.schwarz, 3)}
LM = {"Lagrange Multiplier (lag)": (1, "lm_lag"), "Robust LM (lag)": (1, "rlm_lag"), "Lagrange Multiplier (error)": (1, "lm_error"),
      "Robust LM (error)": (1, "rlm_error"), "Lagrange Multiplier (SARMA)": (2, "lm_sarma")}
SDM = {"LM test for WX": (-1, "lm_wx"), "Robust LM WX test": (-1, "rlm_wx"), "Robust LM Lag - SDM": (1, "rlm_durlag"), "Joint test for SDM": (0, "lm_spdurbin")}


def show(ctx, label, texts, values, dec):
    """figures show the values; ('sqrt', v) stands for the square root of v"""
    got, exp = [], []
    for t, v in zip(texts, values):
        if isinstance(v, tuple):
            g = ctx.shown(t)
            if g is None:
                exp.append(ctx.sqrt(val(v[1])))
                got.append(t)
                continue
            ctx.prove_eq(label + " (square)", [g * g], [val(v[1])], tol=10.0 ** -dec * max(2.0, 2 * abs(float(g))) if ctx.mode == "num" else None)
        else:
            got.append(t)
            exp.append(val(v))
    ctx.prove_true(label + ": figures", len(texts) == len(values), (texts, len(values)))
    if got:
        ctx.prove_shown(label, got, exp, dec)


def one(ctx, label, found, value, dec, n=1):
    """a figure that is there n times and shows the value"""
    ctx.prove_true(label + " is printed", len(found) == n, found)
    for f in found[:n]:
        show(ctx, label, [f], [value], dec)


def tested(ctx, label, found, df, value, prob, dec=(3, 4), n=1):
    ctx.prove_true(label + " is printed", len(found) == n, found)
    for f in found[:n]:
        ctx.prove_true(label + ": degrees of freedom", df is None or f[0] == str(df), (f[0], df))
        show(ctx, label, [f[1]], [value], dec[0])
        show(ctx, label + ": probability", [f[2]], [prob], dec[1])


# ---- one model or one equation ---------------------------------------------------------------------------------------------------
def rows_of(m, reg, eq):
    """[(name, coefficient, standard error, statistic, probability)] of the model's own attributes"""
    stat = m.t_stat if "OLS" in type(m).__name__ else m.z_stat
    if eq is None:
        names = list(reg.output.sort_index()["var_names"])
    else:
        o = reg.output.sort_index()
        names = [v for v in o["var_names"] if v.startswith("%s_" % eq)]
    out = []
    for i, nm in enumerate(names):
        c = [val(m.betas[i].reshape(-1)[0])]
        if i < len(m.std_err) and i < len(stat):
            c += [m.std_err[i], stat[i][0], stat[i][1]]
        out.append((nm, c))
    return out


def coefficients(ctx, what, text, rows, letter, latex=False, dec=5):
    shown, zt = (latex_table(text), letter) if latex else table(text)
    ctx.prove_true(what + "there is one table of coefficients", shown is not None and zt == letter, (zt, letter))
    if shown is None:
        return
    ctx.prove_true(what + "one row per coefficient", sorted(n for n, c in shown) == sorted(n.strip() for n, c in rows), ([n for n, c in shown], [n for n, c in rows]))
    d = dict(shown)
    for n, c in rows:
        n = n.strip()
        if n not in d:
            continue
        ctx.prove_true(what + n + ": figures in its row", len([t for t in d[n] if t != "nan"]) == len(c), (n, d[n], len(c)))
        g = [(t, v) for t, v in zip(d[n], c) if t not in ("nan", "inf", "-inf")]
        ctx.prove_shown(what + n + ": figures", [t for t, v in g], [v for t, v in g], dec)


def header(ctx, what, text, m, o, z):
    for lab, v in (("Data set", m.name_ds), ("Dependent Variable", m.name_y), ("Weights matrix", getattr(m, "name_w", None))):
        f = pair(text, lab)
        if v is not None:
            ctx.prove_true(what + lab, f == [str(v)], (f, v))
    for lab, v in (("Number of Observations", m.n), ("Number of Variables", m.k), ("Degrees of Freedom", m.n - m.k)):
        f = pair(text, lab)
        ctx.prove_true(what + lab, f == [str(int(v))], (f, v))
    ols = "OLS" in type(m).__name__
    want = ["Mean dependent var", "S.D. dependent var"] + (["R-squared", "Adjusted R-squared"] if ols else ["Pseudo R-squared"])
    lag = any(c in z.name for c in ("Lag", "Combo")) and hasattr(m, "rho") and z.name not in zoo.PANELS
    if lag:
        f = pair(text, "Spatial Pseudo R-squared")
        if "omitted" in "".join(f):
            ctx.prove_true(what + "omitted only outside (-1, 1)", bool(abs(val(m.rho)) >= 1))
        else:
            ctx.prove_true(what + "shown only inside (-1, 1)", bool(abs(val(m.rho)) < 1))
            want.append("Spatial Pseudo R-squared")
    for lab in want:
        at, dec = PAIRS[lab]
        one(ctx, what + lab, pair(text, lab), getattr(m, at), dec)
    top = None
    if o.get("diag") and ols:
        top = OLS_TOP
    elif z.name.startswith("ML_") and z.name not in ("ML_ErrorRE", "ML_LagRE"):
        top = ML_TOP
    for lab in top or ():
        get, dec = top[lab]
        if dec is None:      # four significant figures: no mark, only its presence
            ctx.prove_true(what + lab + " is printed", len(pair(text, lab)) == 1)
            continue
        one(ctx, what + lab, pair(text, lab), get(m), dec)
    if zoo.twostage(z.name):
        f = pair(text, "N. of iterations")
        ctx.prove_true(what + "iterations", f == [str(m.iteration if not hasattr(m, "niter") else m.niter)], f)
        if hasattr(m, "step1c"):
            ctx.prove_true(what + "step 1c", pair(text, "Step1c computed") == ["Yes" if m.step1c else "No"])
        if hasattr(m, "A1"):
            ctx.prove_true(what + "type of A1", re.findall(r"A1 type: *: *(\S+)", text) == [str(m.A1)])
    if getattr(m, "name_yend", None) and hasattr(m, "name_q"):
        flat_ = re.sub(r"\s+", " ", text)
        ctx.prove_true(what + "instrumented variables", ("Instrumented: %s Instruments: %s" % (", ".join(sorted(m.name_yend)), ", ".join(sorted(m.name_q)))) in flat_, flat_[-300:])
    if o.get("robust"):
        t = {"white": "White Standard Errors", "hac": "HAC Standard Errors; Kernel Weights: kern"}[o["robust"]]
        ctx.prove_true(what + "kind of standard errors", text.count(t) == 1)
    else:
        ctx.prove_true(what + "kind of standard errors", "White Standard Errors" not in text and "HAC Standard Errors" not in text)
    if getattr(m, "warning", None):
        ctx.prove_true(what + "warnings are printed", m.warning in text, m.warning)


def diagnostics(ctx, spreg, what, text, m, o, z, w):
    ols = "OLS" in type(m).__name__
    if o.get("diag") and ols:
        dg = spreg
        if hasattr(m, "mulColli"):
            one(ctx, what + "condition number", re.findall(r"MULTICOLLINEARITY CONDITION NUMBER +(%s)" % FIG, text), m.mulColli, 3)
        jb, bp, kb = dg.jarque_bera(m), dg.breusch_pagan(m), dg.koenker_bassett(m)
        for lab, at, own, key in (("Jarque-Bera", m.jarque_bera, jb, "jb"), ("Breusch-Pagan test", m.breusch_pagan, bp, "bp"),
                                  ("Koenker-Bassett test", m.koenker_bassett, kb, "kb")):
            ctx.prove_eq(what + lab + ": attribute", [at[key], at["pvalue"]], [own[key], own["pvalue"]])
            tested(ctx, what + lab, test(text, lab), at["df"], at[key], at["pvalue"])
        f = dg.f_stat(m)
        ctx.prove_eq(what + "F, likelihood and criteria", list(m.f_stat) + [val(m.logll), val(m.aic), val(m.schwarz)],
                     list(f) + [val(dg.log_likelihood(m)), val(dg.akaike(m)), val(dg.schwarz(m))])
        if o.get("white_test") and isinstance(m.white, str):
            ctx.prove_true(what + "White test left out", bool(dg.condition_index(m) > 30) and m.white in text)
        elif o.get("white_test"):
            own = dg.white(m)
            ctx.prove_eq(what + "White test: attribute", [m.white["wh"], m.white["pvalue"]], [own["wh"], own["pvalue"]])
            tested(ctx, what + "White test", test(text, "White"), m.white["df"], m.white["wh"], m.white["pvalue"])
    if o.get("vif"):
        v = spreg.vif(m)
        for i, nm in enumerate(m.name_x):
            if i:
                f = re.findall(r"\n +%s +(%s) +(%s)\n" % (re.escape(nm), FIG, FIG), text)
                ctx.prove_true(what + "variance inflation of " + nm, len(f) == 1, f)
                for t in f[:1]:
                    ctx.prove_shown(what + "variance inflation of " + nm, t, list(v[i]), 4)
    if z.name == "TSLS":
        f = test(text, "Durbin-Wu-Hausman test")
        ctx.prove_true(what + "Durbin-Wu-Hausman test only when asked for", bool(f) == bool(o.get("diag")), f)
        if o.get("diag"):
            tested(ctx, what + "Durbin-Wu-Hausman test", f, m.yend.shape[1], m.dwh[0], m.dwh[1])
    if not o.get("sdiag"):
        ctx.prove_true(what + "no spatial diagnostics", "DIAGNOSTICS FOR SPATIAL DEPENDENCE" not in text)
        return
    if ols:
        lm = spreg.LMtests(m, w, tests=["lme", "lml", "rlme", "rlml", "sarma"])
        for d, own in ((LM, dict(lm_lag=lm.lml, rlm_lag=lm.rlml, lm_error=lm.lme, rlm_error=lm.rlme, lm_sarma=lm.sarma)), (SDM, None)):
            if own is None:
                if o.get("slx") or not hasattr(m, "lm_wx"):
                    continue
                l2 = spreg.LMtests(m, w, tests=["lmwx", "lmspdurbin", "rlmdurlag", "rlmwx", "lmslxerr"])
                own = dict(lm_wx=l2.lmwx, rlm_wx=l2.rlmwx, rlm_durlag=l2.rlmdurlag, lm_spdurbin=l2.lmspdurbin)
            for lab, (df, at) in d.items():
                v = getattr(m, at)
                ctx.prove_eq(what + lab + ": attribute", [val(v[0]), val(v[1])], [val(own[at][0]), val(own[at][1])])
                tested(ctx, what + lab, test(text, lab), df if df > 0 else m.k + df, v[0], v[1],
                       n=2 if at == "lm_lag" and not o.get("slx") and hasattr(m, "lm_wx") else 1)
        if o.get("moran"):
            mi = spreg.MoranRes(m, w, z=True)
            ctx.prove_eq(what + "Moran's I: attribute", [val(v) for v in m.moran_res], [val(mi.I), val(mi.zI), val(mi.p_norm)])
            f = test(text, "Moran's I (error)")
            ctx.prove_true(what + "Moran's I is printed", len(f) == 1, f)
            for t in f[:1]:
                ctx.prove_shown(what + "Moran's I", t[:1], [val(m.moran_res[0])], 4)
                ctx.prove_shown(what + "Moran's I", t[1:2], [val(m.moran_res[1])], 3)
                ctx.prove_shown(what + "Moran's I", t[2:], [val(m.moran_res[2])], 4)
        else:
            ctx.prove_true(what + "no Moran's I", "Moran" not in text)
        return
    if not z.name.startswith("ML"):
        ak = spreg.AKtest(m, w, case="gen")
        ctx.prove_eq(what + "Anselin-Kelejian test: attribute", [val(m.ak_test[0]), val(m.ak_test[1])], [val(ak.ak), val(ak.p)])
        tested(ctx, what + "Anselin-Kelejian test", test(text, "Anselin-Kelejian Test"), 1, m.ak_test[0], m.ak_test[1])
    cf = test(text, "Common Factor Hypothesis Test")
    if "Lag" in z.name and o.get("slx") and not o.get("vars") and not o.get("endo"):
        ctx.prove_true(what + "common factor test is printed", len(cf) == 1, cf)
        if cf and hasattr(m, "cfh_test"):
            tested(ctx, what + "common factor test", cf, None, m.cfh_test[0], m.cfh_test[1])
    else:
        ctx.prove_true(what + "no common factor test", not cf, cf)


def chow(ctx, what, text, m, rows, labels):
    """the block of Chow tests against Wald statistics of the model's coefficients by name"""
    block_ = text.split("- CHOW TEST -")
    ctx.prove_true(what + "one block of Chow tests", len(block_) == 2, len(block_))
    if len(block_) != 2:
        return
    names = [n for n, c in rows]
    if m.vm.shape[0] < len(m.betas):        # no inference on the spatial error parameters
        names = [n for n in names if not n.endswith("lambda")]
    pos = {n: i for i, n in enumerate(names)}
    groups = {}
    for n in names:
        for r in labels:
            if n.startswith("%s_" % r):
                groups.setdefault(n[len(str(r)) + 1:], []).append(pos[n])
    groups = {k: v for k, v in groups.items() if len(v) == len(labels)}
    keep = [i for i, (n, c) in enumerate(rows) if n in pos]
    lines = {}
    for line in block_[1].split("\n")[2:]:
        r = ROW.match(line)
        q = re.match(r"^ *(\S.*?) +(\d+) +(%s) +(%s) *$" % (FIG, FIG), line)
        if not q:
            break
        if q.group(3) != "nan" or not q.group(1).endswith("lambda"):
            lines.setdefault(q.group(1), []).append(q.groups()[1:])
    ctx.prove_true(what + "Chow tests of every coefficient that varies, and the joint test", sorted(lines) == sorted(list(groups) + ["Global test"]) and
                   all(len(v) == 1 for v in lines.values()), (sorted(lines), sorted(groups)))
    if not groups:
        return
    b = np.array([val(m.betas.reshape(-1)[i]) for i in keep], dtype=object)
    V = m.vm

    def stat(ixs):
        R = np.zeros((sum(len(i) - 1 for i in ixs), V.shape[0]), dtype=object)
        t = 0
        for i in ixs:
            for j in i[1:]:
                R[t, i[0]], R[t, j] = 1, -1
                t += 1
        R = R.astype(float) if ctx.mode == "num" else R
        d = R @ b.reshape(-1, 1)
        if ctx.mode == "num":
            d = d.astype(float)
        return val((d.T @ ctx.inv(R @ V @ R.T) @ d)[0, 0]), len(R)
    for k, ix in list(groups.items()) + [("Global test", None)]:
        if k not in lines:
            continue
        df = (len(labels) - 1) * (1 if ix is not None else len(groups))
        v = lines[k][0]
        ctx.prove_true(what + "Chow test of %s: degrees of freedom" % k, v[0] == str(df), (v, df))
        s, q = stat([ix] if ix is not None else list(groups.values()))
        ctx.prove_shown(what + "Chow test of " + k, [v[1]], [s], 3)
        ctx.prove_shown(what + "Chow test of %s: probability" % k, [v[2]], [ctx.chi2sf(s, q)], 4)


def variance(ctx, text, m):
    b = text.split("COEFFICIENTS VARIANCE MATRIX\n")
    ctx.prove_true("one variance matrix", len(b) == 2)
    if len(b) != 2:
        return
    t = re.sub(r"(\.\d{6})(?=[-\d])", r"\1 ", b[1])
    lines = t.split("\n")[2:]
    V = m.vm
    for i in range(V.shape[0]):
        f = lines[i].split() if i < len(lines) else []
        ctx.prove_true("variance matrix: row %d" % i, len(f) == V.shape[1], f)
        if len(f) == V.shape[1]:
            ctx.prove_shown("variance matrix: row %d" % i, f, list(V[i]), 6)


def stored(ctx, what, m, rows):
    """the output table"""
    o = m.output.sort_index()
    ctx.prove_true(what + "rows of the table", list(o["var_names"]) == [n for n, c in rows], (list(o["var_names"]), [n for n, c in rows]))
    if len(o) != len(rows):
        return
    for col, j in (("coefficients", 0), ("std_err", 1), ("zt_stat", 2), ("prob", 3)):
        g, e = [], []
        for v, (n, c) in zip(o[col], rows):
            if j < len(c) and not (isinstance(c[j], float) and c[j] != c[j]):
                g.append(v)
                e.append(c[j])
        ctx.prove_eq(what + "table, " + col, g, e)


def model(ctx, spreg):
    p = dict(ctx.p)
    name = p.pop("cls")
    expect = p.pop("names", None)
    kw = dict(p.get("kw") or {})
    for k in ("moran", "white_test", "vif", "vm", "latex"):
        if k in p:
            kw[k] = p[k]
    z = zoo.make(ctx, spreg, name, **dict(p, kw=kw))
    m = z.fit(ctx)
    if m is None:
        return
    text = m.summary
    parts, last = sections(text)
    letter = "t" if "OLS" in name else "z"
    if hasattr(m, "multi"):
        eqs = {}
        for r in m.multi:
            eqs[m.multi[r].name_y] = r
        ctx.prove_true("one part per regime", len(parts) == len(eqs), len(parts))
        allrows = []
        for t in parts:
            r = eqs.get((pair(t, "Dependent Variable") or [None])[0])
            ctx.prove_true("part of a regime", r is not None)
            if r is None:
                continue
            mm = m.multi[r]
            rows = rows_of(mm, m, r)
            what = "regime %s: " % r
            coefficients(ctx, what, t, rows, letter, p.get("latex"))
            header(ctx, what, t, mm, p, z)
            if not ("OLS" in name and p.get("sdiag")) and not name.startswith("TSLS"):
                q = dict(p, sdiag=p.get("sdiag"))
                diagnostics(ctx, spreg, what, t, mm, q, z, getattr(mm, "w", None))
        for r in m.multi:
            allrows += rows_of(m.multi[r], m, r)
        left = [n for n in m.output.sort_index()["var_names"] if n not in [a for a, c in allrows]]
        ctx.prove_true("every coefficient belongs to a regime", not left, left)
        o = m.output.sort_index()
        by = dict(allrows)
        stored(ctx, "", m, [(n, by[n]) for n in o["var_names"] if n in by])
        allrows = [(n, by[n]) for n in o["var_names"] if n in by]
        # the coefficients of the whole model are those of its parts
        ctx.prove_eq("coefficients of the whole", [val(v) for v in m.betas.reshape(-1)], [c[0] for n, c in allrows])
        if "chow" not in z.skip:
            chow(ctx, "", last, m, allrows, sorted(m.multi))
    else:
        ctx.prove_true("one part", len(parts) == 1, len(parts))
        rows = rows_of(m, m, None)
        if expect is not None:
            ctx.prove_true("names in the order of the coefficients", [n for n, c in rows] == expect, ([n for n, c in rows], expect))
        for t in parts[:1]:
            whole = t + last
            coefficients(ctx, "", t, rows, letter, p.get("latex"))
            header(ctx, "", t, m, p, z)
            if not name.startswith(("ML_LagFE", "ML_LagRE", "ML_ErrorFE", "ML_ErrorRE", "Pooled", "Panel", "GM_ErrorP", "GM_ErrorR", "ML_ErrorP")):
                diagnostics(ctx, spreg, "", t, m, p, z, z.w)
            if "Regimes" in name and "chow" not in z.skip:
                ctx.prove_true("regimes variable", "Regimes variable: zone\n" in t)
                chow(ctx, "", t, m, rows, sorted(set(z.regs)))
        stored(ctx, "", m, rows)
    if p.get("vm"):
        variance(ctx, text, m)
    else:
        ctx.prove_true("no variance matrix", "COEFFICIENTS VARIANCE MATRIX" not in text)
    ctx.prove_true("ends where it should", text.count("END OF REPORT") == 1)


def order(cls, o):
    """names in the order of the coefficients: constant, x, lags of x, endogenous, lag of y, spatial error parameter"""
    x = ["p", "q"][:o.get("kx", 1)]
    out = (["CONSTANT"] if cls != "PanelFE" else []) + x
    if o.get("slx"):
        v = [a for a, k in zip(x, o.get("vars") or [True] * len(x)) if k]
        for d in range(o["slx"]):
            out += ["W%s_%s" % (d + 1 if d else "", a) for a in v]
    if cls == "TSLS" or "Endog" in cls or o.get("endo"):
        out.append("e")
    if "Lag" in cls or "Combo" in cls:
        out.append("W_yy")
    if "Error" in cls or "Combo" in cls:
        out.append("lambda")
    return out


def A(nm, cls, **q):
    if cls in zoo.CROSS:
        q["names"] = order(cls, q)
    add_case("P32", "%s%s" % (cls, nm), model, cls=cls, **q)


for c in zoo.CROSS:
    P = dict(pin=True) if zoo.twostage(c) else {}
    A("", c, **P)
    A("_vm", c, vm=True, **P)
    A("_latex", c, latex=True, **P)
    A("_slx", c, slx=1, **(dict(P, n=8) if "Combo" in c else P))
    A("_slx_vars", c, slx=1, kx=2, n=8, vars=[False, True], **P)
    if c == "OLS":
        A("_diag", c, diag=True, ycon=False)
        A("_white_test", c, diag=True, white_test=True, kx=2, n=8, ycon=True)
        A("_vif", c, vif=True, kx=2)
        A("_sdiag", c, sdiag=True, kx=1)
        A("_moran", c, sdiag=True, moran=True)
        A("_sdiag_slx", c, sdiag=True, slx=1)
    if c == "TSLS":
        A("_diag", c, diag=True)
        A("_diag_sdiag", c, diag=True, sdiag=True)
    if c in ("OLS", "TSLS", "GM_Lag"):
        A("_white", c, robust="white")
        A("_hac", c, robust="hac")
    if c in ("TSLS", "GM_Lag", "ML_Lag"):
        A("_sdiag", c, sdiag=True)
        A("_sdiag_slx", c, sdiag=True, slx=1, n=8)
    if "Lag" in c or "Combo" in c:
        if not c.startswith("ML"):
            A("_endo", c, endo=True, n=8, **P)
        A("_slx2", c, slx=2, n=8, s="g8", **P)
for c in zoo.REGIMES:
    P = dict(pin=True) if zoo.twostage(c) else {}
    q = dict(s="split12", regs="aabbabbaabab") if "Combo" in c else {}
    A("", c, **dict(P, **q))
    A("_sep", c, sep=True, **P)
    A("_vm_latex", c, vm=True, latex=True, **dict(P, **q))
    A("_sep_latex", c, sep=True, latex=True, **P)
    A("_three", c, s="tri12", **P)
    if c in ("OLS_Regimes", "TSLS_Regimes", "GM_Lag_Regimes"):
        A("_sep_three", c, sep=True, s="tri12", **P)
    if not q:
        big = dict(s="split12", regs="aabbabbaabab") if "Endog" in c or "Lag" in c or c.startswith("TSLS") else dict(s="d8")
        A("_cols", c, kx=2, cols=[True, False] if big["s"] == "d8" or "Lag" in c else [True, True, True], **dict(P, **big))
        if "Endog" not in c and not c.startswith("TSLS"):       # otherwise a known finding of P14
            A("_one", c, const="one", kx=2, cols=[True, False], s="d8", **P)
        A("_slx", c, slx=1, **dict(P, **big))
    if c.startswith("OLS"):
        A("_diag", c, diag=True)
        A("_sep_diag", c, diag=True, sep=True)
    if c.startswith(("OLS", "TSLS", "GM_Lag")):
        A("_white", c, robust="white")
        A("_sep_hac", c, sep=True, robust="hac")
    if c.startswith(("OLS", "TSLS", "GM_Lag", "ML_Lag")):
        A("_sdiag", c, sdiag=True)
        A("_sep_sdiag", c, sep=True, sdiag=True)
for c in zoo.PANELS:
    if not c.startswith("Panel_") and c != "GM_KKP":
        A("", c)
        A("_kx2", c, kx=2)
        A("_vm_latex", c, vm=True, latex=True)


# ---- systems of equations --------------------------------------------------------------------------------------------------------
def wald_of(ctx, b, V, rows):
    """Wald statistic of the differences (i, j), or of single coefficients (i, None)"""
    R = np.zeros((len(rows), V.shape[0]), dtype=object)
    for t, (i, j) in enumerate(rows):
        R[t, i] = 1
        if j is not None:
            R[t, j] = -1
    R = R.astype(float) if ctx.mode == "num" else R
    d = R @ np.array([[val(v)] for v in b], dtype=float if ctx.mode == "num" else object)
    return val((d.T @ ctx.inv(R @ V @ R.T) @ d)[0, 0])


def tests_block(text, head):
    """{name: (df, value, probability)} of the lines below a heading"""
    out = []
    t = text.split(head)
    for b in t[1:]:
        for line in b.split("\n")[2:]:
            q = re.match(r"^ *(\S.*?) +(\d+) +(%s) +(%s) *$" % (FIG, FIG), line)
            if not q:
                break
            out.append((q.group(1), q.groups()[1:]))
    return out


def system(ctx, spreg):
    p = dict(ctx.p)
    name = p.pop("cls")
    z = zoo.make(ctx, spreg, name, **p)
    m = z.fit(ctx)
    if m is None:
        return
    text = m.summary
    parts = re.split(r"\nSUMMARY OF EQUATION (\d+)\n", text)
    top, eqs = parts[0], dict(zip(parts[1::2], parts[2::2]))
    N = m.n_eq
    B, inf = (m.b3SLS, m.tsls_inf) if hasattr(m, "b3SLS") else (m.bSUR, m.sur_inf)
    V = m.varb
    ctx.prove_true("one part per equation", list(eqs) == [str(r + 1) for r in range(N)], list(eqs))
    for lab, v in (("Data set", m.name_ds), ("Weights matrix", getattr(m, "name_w", None)), ("Number of Equations", N), ("Number of Observations", m.n)):
        if v is not None:
            ctx.prove_true(lab, pair(top, lab) == [str(v)], (pair(top, lab), v))
    for lab, at in (("Log likelihood (SUR)", "llik"), ("Log likel. (error)", "errllik"), ("Log likel. (SUR error)", "surerrllik")):
        if at == "llik" and name in ("SUR", "SURerrorML") or at != "llik" and name == "SURerrorML":
            one(ctx, lab, pair(top, lab), getattr(m, at), 3)
    if name == "SUR":
        ctx.prove_true("iterations", pair(top, "Number of Iterations") == [str(m.niter)])
    labels = sorted(set(z.kw.get("regimes") or ()))
    start, at = 0, {}
    for r in range(N):
        what = "equation %d: " % (r + 1)
        t = eqs[str(r + 1)]
        nx = list(m.name_bigX[r]) + list((getattr(m, "name_bigyend", None) or {}).get(r) or ())
        k = len(B[r])
        ctx.prove_true(what + "one name per coefficient", len(nx) == k, (nx, k))
        rows = [(n, [val(B[r][i].reshape(-1)[0])] + [inf[r][i][c] for c in range(3)]) for i, n in enumerate(nx)]
        if hasattr(m, "lamsur"):
            lt = getattr(m, "lamsetp", None)
            rows.append(("lambda_%d" % (r + 1), [val(m.lamsur.reshape(-1)[r])] + ([val(lt[c].reshape(-1)[r]) for c in range(3)] if lt is not None else [])))
        coefficients(ctx, what, t, rows, "z", dec=7)
        at[r] = {n: start + i for i, n in enumerate(nx)}
        # the inference shown belongs to the covariance matrix
        b = [val(v) for v in B[r].reshape(-1)]
        ctx.prove_eq(what + "standard errors", [rows[i][1][1] for i in range(k)], [ctx.sqrt(V[start + i, start + i]) for i in range(k)])
        ctx.prove_eq(what + "coefficients by standard errors", [rows[i][1][2] * rows[i][1][1] for i in range(k)], [rows[i][1][0] for i in range(k)])
        y = z.kw["bigy"][r]
        ctx.prove_true(what + "dependent variable", pair(t, "Dependent Variable") == [m.name_bigy[r]])
        ctx.prove_true(what + "variables", pair(t, "Number of Variables") == [str(k)] and pair(t, "Degrees of Freedom") == [str(m.n - k)])
        mean = sum(y[i, 0] for i in range(m.n)) / m.n
        one(ctx, what + "mean", pair(t, "Mean dependent var"), mean, 4)
        one(ctx, what + "standard deviation", pair(t, "S.D. dependent var"), ("sqrt", sum((y[i, 0] - mean) ** 2 for i in range(m.n)) / m.n), 4)
        if getattr(m, "name_bigyend", None):
            flat_ = re.sub(r"\s+", " ", t)
            ctx.prove_true(what + "instruments", ("Instrumented: %s Instruments: %s" % (", ".join(sorted(m.name_bigyend[r])), ", ".join(sorted(m.name_bigq[r])))) in flat_,
                           flat_[:600])
        tb = tests_block(t, "REGIMES DIAGNOSTICS - CHOW TEST WITHIN EQUATION")
        if labels:
            ctx.prove_true(what + "regimes variable", "Regimes variable: zone\n" in t)
            groups = {}
            for i, n in enumerate(nx):
                for l in labels:
                    if n.startswith("%s_" % l):
                        groups.setdefault(n[len(str(l)) + 1:], []).append(i)
            groups = {n: v for n, v in groups.items() if len(v) == len(labels)}
            rename = lambda n: "CONSTANT" if n == "c%d" % r else n
            ctx.prove_true(what + "Chow tests within the equation", sorted(n for n, v in tb) == sorted([rename(n) for n in groups] + ["Global test"]), (tb, groups))
            Vr = V[start:start + k, start:start + k]
            for n, (df, v, q) in tb:
                g = [v2 for n2, v2 in groups.items() if rename(n2) == n] if n != "Global test" else list(groups.values())
                pairs_ = [(ix[0], j) for ix in g for j in ix[1:]]
                ctx.prove_true(what + "Chow test of %s: degrees of freedom" % n, df == str(len(pairs_)), (df, len(pairs_)))
                if pairs_:
                    s = wald_of(ctx, b, Vr, pairs_)
                    ctx.prove_shown(what + "Chow test of " + n, [v], [s], 3)
                    ctx.prove_shown(what + "Chow test of %s: probability" % n, [q], [ctx.chi2sf(s, len(pairs_))], 4)
        else:
            ctx.prove_true(what + "no Chow tests within the equation", not tb)
        start += k
    # between equations
    tb = tests_block(text, "OTHER DIAGNOSTICS - CHOW TEST BETWEEN EQUATIONS")
    ks = {len(B[r]) for r in range(N)}
    lam = [(n, v) for n, v in tb if n == "lambda"]
    tb = [(n, v) for n, v in tb if n != "lambda"]
    if len(ks) == 1 and p.get("diag"):
        names = [list(at[r]) for r in range(N)]
        want = {", ".join(n): [at[r][n[r]] for r in range(N)] for n in zip(*names)}
        ctx.prove_true("Chow tests between equations", sorted(n for n, v in tb) == sorted(want), (sorted(n for n, v in tb), sorted(want)))
        b = [val(v) for r in range(N) for v in B[r].reshape(-1)]
        for n, (df, v, q) in tb:
            if n in want:
                pr = [(want[n][i], want[n][i + 1]) for i in range(N - 1)]
                s = wald_of(ctx, b, V, pr)
                ctx.prove_true("Chow test of %s: degrees of freedom" % n, df == str(N - 1))
                ctx.prove_shown("Chow test of " + n, [v], [s], 3)
                ctx.prove_shown("Chow test of %s: probability" % n, [q], [ctx.chi2sf(s, N - 1)], 4)
    else:
        ctx.prove_true("no Chow tests between equations", not tb, tb)
    wald_l = getattr(m, "lamtest", None) is not None and p.get("sdiag") and len(ks) == 1
    ctx.prove_true("constancy of lambda", len(lam) == bool(wald_l), lam)
    if wald_l:
        tested(ctx, "constancy of lambda", [lam[0][1]], m.lamtest[1], m.lamtest[0], m.lamtest[2])
    for lab, at_, cond in (("LM test on Sigma", "lmtest", p.get("diag") and name == "SUR"), ("LR test on Sigma", "lrtest", p.get("diag") and name in ("SUR", "SURerrorML")),
                           ("LR test on lambda", "likrlambda", p.get("sdiag") and name == "SURerrorML"),
                           ("Joint significance (lambda)", "joinlam", p.get("sdiag") and name == "SURerrorML" and m.vm is not None),
                           ("Joint significance (rho)", "joinrho", p.get("sdiag") and name == "SURlagIV"),
                           ("Lagrange Multiplier (error)", "lmEtest", p.get("sdiag") and name == "SUR"),
                           ("Lagrange Multiplier (lag)", "lmlagtest", p.get("sdiag") and name == "SUR")):
        f = test(text, lab)
        ctx.prove_true(lab + " is there when it was asked for", len(f) == bool(cond), f)
        if cond and f:
            v = getattr(m, at_)
            tested(ctx, lab, f, v[1], v[0], v[2])
    c = text.split("ERROR CORRELATION MATRIX\n")
    ctx.prove_true("error correlations", len(c) == 2)
    if len(c) == 2:
        for i, line in enumerate(c[1].split("\n")[1:1 + N]):
            line = re.sub(r"(\.\d{6})(?=[-\d])", r"\1 ", line).split()
            ctx.prove_true("error correlations: row %d" % i, len(line) == N)
            ctx.prove_shown("error correlations: row %d" % i, line, list(m.corr[i]), 6)
        S = m.sig
        ctx.prove_eq("squared correlations", [m.corr[i, j] * m.corr[i, j] * S[i, i] * S[j, j] for i in range(N) for j in range(N)],
                     [S[i, j] * S[i, j] for i in range(N) for j in range(N)])
    ctx.prove_true("ends where it should", text.count("END OF REPORT") == 1)


for c in zoo.SURS:
    A = lambda nm, **q: add_case("P32", c + nm, system, cls=c, **q)
    small = dict(regimes="abbaabbaababba", line=False)
    A("")
    A("_diag", diag=True, sdiag=True, **(dict(w=True) if c == "SUR" else {}))
    c == "SURerrorML" or A("_unequal", diag=True, sdiag=True, xs=([X1, X2], [X3]), **(dict(w=True) if c == "SUR" else {}))
    if c == "SURerrorML":
        A("_vm", diag=True, sdiag=True, kw=dict(vm=True))
    A("_regimes", diag=True, sdiag=True, **dict(small, **(dict(w=True) if c == "SUR" else {})))
    if c == "SURlagIV":
        A("_endo", diag=True, sdiag=True, endo=True)
        A("_regimes_sep", diag=True, sdiag=True, kw=dict(regime_lag_sep=True), **small)
        A("_regimes_endo", diag=True, endo=True, **small)
        A("_regimes_endo_sep", diag=True, endo=True, kw=dict(regime_lag_sep=True), **small)
