"""every assignment of scores to regions (cases 'search'), every attribute value or response on a line (other cases); 5..12 units, 2..4
regions, path, tree, cycle and disconnected graphs, quorum 1..4; the order of equal scores is outside the bounds"""
import contextlib
import io
import sys
import warnings
from symx.ctx import add_case
from common import *
from fractions import Fraction as F


class Tie(Exception):
    pass


def kruskal(edges, n):
    comp = list(range(n))
    out = []
    left = list(edges)
    while left:
        best = left[0]
        for e in left[1:]:
            if bool(e[2] < best[2]):
                best = e
        left.remove(best)
        a, b = comp[best[0]], comp[best[1]]
        if a != b:
            comp = [a if c == b else c for c in comp]
            out.append(best)
    tree = [(min(e[:2]), max(e[:2])) for e in out]
    for f in edges:
        if f not in out:
            for g, pair in zip(out, tree):
                if parts([e for e in tree if e != pair] + [(f[0], f[1])], n) == parts(tree, n) and bool(f[2] == g[2]):
                    raise Tie()
    return sorted(tree)


def parts(edges, n):
    comp = list(range(n))
    for i, j in edges:
        a, b = comp[i], comp[j]
        comp = [a if c == b else c for c in comp]
    return frozenset(frozenset(i for i in range(n) if comp[i] == c) for c in set(comp))


def greedy(ctx, tree, n, want, quorum, score, whole=None):
    """[(partition, total)] after each cut, final edges, why the search ended"""
    edges = list(tree)
    steps, prev = [], None
    now = parts(edges, n)
    total = whole or (lambda ps: sum((score(q) for q in sorted(ps, key=sorted)), ctx.num(0)))
    while len(now) < want:
        best = None
        for e in edges:
            after = parts([f for f in edges if f != e], n)
            if any(len(q) < quorum for q in after - now):
                continue
            t = total(after)
            if best is not None:
                if bool(t == best[0]):
                    raise Tie()
                if not bool(t < best[0]):
                    continue
            best = (t, e, after)
        if best is None:
            return steps, edges, "stuck"
        if prev is not None and bool(best[0] == prev):
            raise Tie()
        if prev is not None and bool(best[0] > prev):
            return steps, edges, "worse"
        prev, now = best[0], best[2]
        edges.remove(best[1])
        steps.append((now, prev, best[1]))
    return steps, edges, "done"


def partition(labels):
    return frozenset(frozenset(int(i) for i in range(len(labels)) if labels[i] == c) for c in set(int(v) for v in labels))


def connected(nb, part):
    part = set(part)
    seen, todo = set(), [min(part)]
    while todo:
        i = todo.pop()
        if i not in seen:
            seen.add(i)
            todo += [j for j in nb[i] if j in part]
    return seen == part


def links(nb):
    return sorted({(min(i, j), max(i, j)) for i in range(len(nb)) for j in nb[i]})


def judge(ctx, nb, n, want, quorum, dist, score, fit, whole=None, trace=True):
    """fit() against the reference search"""
    try:
        tree = kruskal([(i, j, dist(i, j)) for i, j in links(nb)], n)
        nc = len(parts(tree, n))
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                got, err = fit(), None
            except ValueError as e:
                got, err = None, e
        steps, edges, why = greedy(ctx, tree, n, want(nc), quorum, score, whole)
    except Tie:
        return None
    if why == "worse":
        ctx.prove_true("a score that grows with the number of regions is refused", got is None and "score increased" in str(err), err)
        return None
    ctx.prove_true("fits", err is None, err)
    if got is None:
        return None
    lab = got.current_labels_
    final = steps[-1][0] if steps else parts(tree, n)
    ctx.prove_true("every observation in a region", lab is not None and len(lab) == n, lab)
    if lab is None:
        return None
    P = partition(lab)
    ctx.prove_true("the regions of the reference search", P == final, (sorted(map(sorted, P)), sorted(map(sorted, final))))
    ctx.prove_true("connected regions", all(connected(nb, q) for q in P))
    ctx.prove_true("regions of the minimum size", nc > 1 or len(P) == 1 or all(len(q) >= quorum for q in P))
    ctx.prove_true("no more regions than asked for", len(P) <= max(want(nc), nc), (len(P), want(nc)))
    ctx.prove_true("labels count the regions", sorted(set(int(v) for v in lab)) == list(range(len(P))))
    f = sorted((min(int(i), int(j)), max(int(i), int(j))) for i, j in zip(*got.minimum_spanning_forest_.nonzero()))
    ctx.prove_true("the remaining forest", f == sorted(edges), (f, edges))
    texts = [str(w.message) for w in ws]
    ctx.prove_true("a warning when no cut is left", any("no valid moves" in t for t in texts) == (why == "stuck"), texts)
    ctx.prove_true("a warning about islands", any("disconnected" in t for t in texts) == (nc > 1), texts)
    if trace:
        tr = got._trace[1:]
        if why == "stuck":
            ctx.prove_true("a last entry without a cut", not np.isfinite(tr[-1][1].score))
            tr = tr[:-1]
        ctx.prove_true("an entry per cut", len(tr) == len(steps), (len(tr), len(steps)))
        for (l, d), (p, t, e) in zip(tr, steps):
            ctx.prove_true("regions of the step", partition(l) == p)
            ctx.prove_true("edge of the step", (min(d.in_node, d.out_node), max(d.in_node, d.out_node)) == e, (d, e))
            ctx.prove_eq("the score is the total over regions", d.score, t)
    else:
        ctx.prove_true("no trace", not hasattr(got, "_trace"))
    return got


class Region:
    """an estimator whose residual sum of squares is an arbitrary number per region"""

    def __init__(self, ctx, n):
        self.ctx, self.n, self.box, self.seen = ctx, n, {}, []

    def score(self, part):
        part = frozenset(part)
        if part not in self.box:
            k = len(part)
            h = sum((i * i * 7 + 3 * i + 1) % 11 for i in part)
            self.box[part] = self.ctx.var("s_" + "_".join(map(str, sorted(part))), F(k ** 3 * 8 + h, 16), 0, 4 * self.n ** 3)
        return self.box[part]

    def cls(self, stats=False):
        me = self

        class Reg:
            def __init__(self, y, x, **kw):
                ids = [int(float(v)) - 1 for v in np.asarray(x)[:, 1]]
                ok = all(float(v) == 1 for v in np.asarray(x)[:, 0]) and np.asarray(y).shape == (len(ids), 1)
                me.seen.append((frozenset(ids), kw, ok and all(float(y[r, 0]) == 10 * (i + 1) for r, i in enumerate(ids)), len(ids) == len(set(ids)), ids))
                self.u = np.array([[me.ctx.sqrt(me.score(ids))]], dtype=object)
                self.resid = self.u

            def fit(self):
                return self
        return Reg


def search(ctx, spreg):
    p = ctx.p
    from spreg.skater_reg import Skater_reg
    nb, q = p["nb"], p.get("quorum", 1)
    n = len(nb)
    d = p.get("data", [0, 7, 1, 11, 4, 18, 5, 21][:n])
    data = np.array(d, float)[:, None]
    R = Region(ctx, n)
    fam = p.get("family", "spreg")
    y = 10.0 * np.arange(1, n + 1)[:, None]
    x = np.arange(1.0, n + 1)[:, None]
    lab = list(p.get("ids", range(n)))
    w = ctx.W({lab[i]: [lab[j] for j in v] for i, v in enumerate(nb)}, transform=p.get("transform", "r"), **(dict(id_order=lab) if "ids" in p else {}))
    dr = dict(reg=R.cls(), y=y, x=x, spam="eggs")
    if p.get("w"):
        dr["w"] = w
    if p.get("iv"):
        dr["yend"], dr["q"] = x * x, x * x * x
    before = {k: id(v) for k, v in dr.items()}
    isl = p.get("islands", "increase")
    kw = {} if q == 1 else dict(quorum=q)
    if p.get("verbose"):
        kw["verbose"] = p["verbose"]
    want = (lambda nc: p["m"] + nc if nc > 1 and isl == "increase" else p["m"])
    W0 = {i: dict(zip(w.neighbors[i], w.weights[i])) for i in lab}
    out = io.StringIO()

    def fit():
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            return Skater_reg(dissimilarity=lambda X: abs(X - X.T)).fit(p["m"], w, data, dr, trace=p.get("trace", True), islands=isl, model_family=fam, **kw)
    judge(ctx, nb, n, want, q, lambda i, j: abs(d[i] - d[j]), R.score, fit, trace=p.get("trace", True))
    ctx.prove_true("the regression gets a constant and the region's rows", all(s[2] and s[3] for s in R.seen))
    for part, k, _, _, ids in R.seen:
        want_k = {"spam"} | ({"w"} if p.get("w") and fam == "spreg" else set()) | ({"yend", "q"} if p.get("iv") and fam == "spreg" else set())
        ctx.prove_true("the regression gets the options", set(k) == want_k or fam != "spreg", sorted(k))
        if "w" in want_k and set(k) == want_k:
            ww = k["w"]
            ctx.prove_true("weights of the region", list(ww.id_order) == [lab[i] for i in ids] and
                           all(set(ww.neighbors[lab[i]]) == {lab[j] for j in set(nb[i]) & part} for i in ids))
        if "yend" in want_k and set(k) == want_k:
            ctx.prove_eq("endogenous variables of the region", k["yend"], x[ids] ** 2)
            ctx.prove_eq("instruments of the region", k["q"], x[ids] ** 3)
    ctx.prove_true("the regression settings are left alone", before == {k: id(v) for k, v in dr.items()}, sorted(dr))
    ctx.prove_true("the weights are left alone", w.transform == p.get("transform", "r").upper() and
                   W0 == {i: dict(zip(w.neighbors[i], w.weights[i])) for i in lab}, w.transform)
    if not p.get("verbose"):
        ctx.prove_true("prints nothing", out.getvalue() == "", out.getvalue())


def wcss(ctx, data, rows, center=None):
    rows = sorted(rows)
    tot = ctx.num(0)
    for c in range(data.shape[1]):
        m = sum((data[i, c] for i in rows), ctx.num(0)) / len(rows)
        tot = tot + sum(((data[i, c] - m) ** 2 for i in rows), ctx.num(0))
    return tot


def sqdist(X, Y=None):
    Y = X if Y is None else Y
    return np.array([[sum((a - b) ** 2 for a, b in zip(r, s)) for s in Y] for r in X])


def attributes(ctx, spreg):
    """only attributes: tree and scores from the same symbolic data"""
    p = ctx.p
    from spreg.skater_reg import Skater_reg
    nb, q = p["nb"], p.get("quorum", 1)
    n = len(nb)
    data = ctx.A(
        [[ctx.num(a) + ctx.num(b) * t for a, b in zip(ra, rb)] for t in [ctx.var("t", F(1, 3), -4, 4)] for ra, rb in zip(p["a"], p["b"])])
    w = ctx.W(nb, transform=None)
    if p.get("affinity"):
        e = lambda X, Y=None: ctx_exp(ctx, sqdist(X, Y))
        s = Skater_reg(affinity=e)
    else:
        s = Skater_reg(dissimilarity=sqdist)
    dist = lambda i, j: sum((a - b) ** 2 for a, b in zip(data[i], data[j]))
    judge(ctx, nb, n, lambda nc: p["m"] + (nc if nc > 1 else 0), q, dist, lambda r: wcss(ctx, data, r),
          lambda: s.fit(p["m"], w, data, **({} if q == 1 else dict(quorum=q))))


def ctx_exp(ctx, M):
    out = np.empty(M.shape, dtype=object)
    for i in range(M.shape[0]):
        for j in range(M.shape[1]):
            out[i, j] = ctx.exp(-ctx.num_any(M[i, j]))
    return ctx.A(out)


def noattr(ctx, spreg):
    """no attributes at all: every edge counts the same"""
    p = ctx.p
    from spreg.skater_reg import Skater_reg
    nb = p["nb"]
    n = len(nb)
    R = Region(ctx, n)
    w = ctx.W(nb, transform="b")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            s = Skater_reg().fit(p["m"], w, data_reg=dict(reg=R.cls(), y=10.0 * np.arange(1, n + 1)[:, None], x=np.arange(1.0, n + 1)[:, None]), quorum=p.get("quorum", 1))
        except ValueError as e:
            ctx.prove_true("refused for its score only", "score increased" in str(e))
            return
    P = partition(s.current_labels_)
    ctx.prove_true("a partition of connected regions", sum(map(len, P)) == n and all(connected(nb, q) for q in P))
    ctx.prove_true("sizes and number", len(P) <= p["m"] and all(len(q) >= p.get("quorum", 1) for q in P))
    if len(P) > 1:
        ctx.prove_eq("score", s._trace[-1][1].score if s._trace[-1][1].in_node is not None else s._trace[-2][1].score,
                     sum((R.score(q) for q in P), ctx.num(0)))


def real(ctx, spreg):
    """the least squares classes"""
    p = ctx.p
    from spreg.skater_reg import Skater_reg
    from spreg import ols
    nb, q = p["nb"], p["quorum"]
    n = len(nb)
    d = np.array(p.get("data", [0, 7, 1, 11, 4, 18, 5, 21, 9, 2, 14, 6][:n]), float)[:, None]
    y = yline(ctx, n)
    x = np.array(p["x"], float).reshape(n, -1)
    w = ctx.W(nb, transform="r")
    kind = p["reg"]

    def score(rows):
        rows = sorted(rows)
        X = [[1.0] * len(rows)]
        for c in x.T:
            v = [float(c[i]) for i in rows]
            if np.linalg.matrix_rank(np.array(X + [v])) == len(X) + 1:
                X.append(v)
        return OLSRef(ctx, y[rows], ctx.A(np.array(X).T)).rss

    def lagscore(ps):
        ps = sorted(ps, key=min)
        D = ctx.zeros((n, len(ps)))
        for k, q_ in enumerate(ps):
            for i in q_:
                D[i, k] = ctx.num(1)
        Wd = ctx.dense(w)
        ex = const(ctx, x)
        blow = lambda M: np.hstack([M * D[:, [k]] for k in range(len(ps))])
        X, Z, H = blow(ex), blow(ctx.dot(Wd, y)), blow(ctx.dot(Wd, x))
        r = TSLSRef(ctx, y, np.hstack([X, Z]), np.hstack([X, H]))
        return r.rss
    cls = {"OLS": spreg.OLS, "BaseOLS": ols.BaseOLS, "GM_Lag": spreg.GM_Lag}[kind]
    dr = dict(reg=cls, y=y, x=x)
    if kind == "GM_Lag":
        dr["w"] = w
    if kind == "OLS":
        dr["nonspat_diag"] = False
    keys = set(dr)
    out = io.StringIO()

    def fit():
        with contextlib.redirect_stdout(out):
            s = Skater_reg() if p.get("default") else Skater_reg(dissimilarity=lambda X: abs(X - X.T))
            return s.fit(p["m"], w, d, dr, quorum=q)
    judge(ctx, nb, n, lambda nc: p["m"], q, lambda i, j: abs(d[i, 0] - d[j, 0]), score, fit, whole=lagscore if kind == "GM_Lag" else None)
    ctx.prove_true("the regression settings are left alone", keys == set(dr), sorted(dr))
    ctx.prove_true("prints nothing", out.getvalue() == "", out.getvalue())


def scoring(ctx, spreg):
    """the score of a given partition"""
    p = ctx.p
    from spreg.skater_reg import Skater_reg
    n = 6
    R = Region(ctx, n)
    lab = np.array([0, 0, 1, 1, 1, 2])
    rows = [{0, 1}, {2, 3, 4}, {5}]
    dr = dict(reg=R.cls(), y=10.0 * np.arange(1, n + 1)[:, None], x=np.arange(1.0, n + 1)[:, None])
    data = np.array([[ctx.num(v) + ctx.var("t", F(1, 3), -4, 4) * u] for v, u in zip([0, 3, 1, 7, 5, 2], [1, 0, 2, 0, 1, 1])], dtype=object)
    s = Skater_reg(dissimilarity=sqdist)
    f = getattr(s, p["which"])
    ctx.raises("nothing to score before a fit", lambda: f(data, dr))
    for name, kw, ref in (("regression", dict(data_reg=dr), R.score), ("attributes", dict(), lambda r: wcss(ctx, data, r))):
        tot, by = f(data, all_labels=lab, **kw)
        ctx.prove_eq("total score, " + name, tot, sum((ref(r) for r in rows), ctx.num(0)))
        ctx.prove_true("a score per region", sorted(by) == [0, 1, 2])
        for i, r in enumerate(rows):
            ctx.prove_eq("score of a region, " + name, by[i], ref(r))
        tot, by = f(data, all_labels=lab, quorum=2, **kw)
        ctx.prove_true("a region below the quorum", tot == np.inf and by is None)
        now = np.array([0, 0, 1, 1, 1, 1])
        tot, by = f(data, all_labels=lab, current_labels=now, current_tree=1, **kw)
        ctx.prove_eq("the parts of one region only, " + name, tot, ref(rows[1]) + ref(rows[2]))
        ctx.prove_true("the parts of one region", sorted(by) == [1, 2])
        tot, by = f(data, all_labels=lab, current_labels=now, current_tree=0, quorum=2, **kw)
        ctx.prove_eq("other regions do not count for the quorum, " + name, tot, ref(rows[0]))
        s2 = Skater_reg(dissimilarity=sqdist)
        s2.current_labels_ = lab
        tot, by = getattr(s2, p["which"])(data, **kw)
        ctx.prove_eq("score of the fitted labels, " + name, tot, sum((ref(r) for r in rows), ctx.num(0)))


def onecut(ctx, spreg):
    """find_cut restricted to one region"""
    p = ctx.p
    from spreg.skater_reg import Skater_reg
    n = 7
    R = Region(ctx, n)
    dr = dict(reg=R.cls(), y=10.0 * np.arange(1, n + 1)[:, None], x=np.arange(1.0, n + 1)[:, None])
    E = [(0, 1), (1, 2), (3, 4), (4, 5), (5, 6)]
    A = np.zeros((n, n))
    for i, j in E:
        A[i, j] = 1
    MSF = spreg.sputils.SP.csr_matrix(A)
    lab = np.array([0, 0, 0, 1, 1, 1, 1])
    sc0 = {0: R.score({0, 1, 2}), 1: R.score({3, 4, 5, 6})}
    which = p["target"]
    best, scores, forest, k, labels = Skater_reg().find_cut(MSF, None, dr, 2, lab, trees_scores=dict(sc0), labels=lab, target_label=which)
    now = parts(E, n)
    cand = [e for e in E if lab[e[0]] == which]
    pick = None
    for e in cand:
        after = parts([f for f in E if f != e], n)
        t = sum((R.score(q) for q in after), ctx.num(0))
        if pick is not None:
            if bool(t == pick[0]):
                return
            if not bool(t < pick[0]):
                continue
        pick = (t, e, after)
    ctx.prove_true("the best edge of the region", (best.in_node, best.out_node) == pick[1])
    ctx.prove_eq("its score", best.score, pick[0])
    ctx.prove_true("regions", k == 3 and partition(labels) == pick[2])
    for r in pick[2]:
        ctx.prove_eq("score of each region", scores[labels[min(r)]], R.score(r))
    ctx.prove_true("the forest is left alone", sorted(zip(*map(lambda v: map(int, v), MSF.nonzero()))) == E)
    ctx.raises("labels without a target", lambda: Skater_reg().find_cut(MSF, None, dr, 2, lab, labels=lab))
    ctx.raises("a target without labels", lambda: Skater_reg().find_cut(MSF, None, dr, 2, lab, target_label=1))


def refuse(ctx, spreg):
    from spreg.skater_reg import Skater_reg
    n = 6
    nb = PATH(6)
    y = yline(ctx, n)
    x = cols(ctx, X1, n=n)
    d = np.array([0, 7, 1, 11, 4, 18.0])[:, None]
    dr = dict(reg=spreg.ols.BaseOLS, y=y, x=x)
    mk = lambda: Skater_reg(dissimilarity=lambda X: abs(X - X.T))
    ctx.raises("too few observations for the quorum", lambda: mk().fit(3, ctx.W(nb), d, dr, quorum=3), ValueError)
    ctx.raises("an unknown family", lambda: mk().fit(2, ctx.W(nb), d, dr, model_family="sklearn"), ValueError)
    isl = [[1], [0], [3], [2, 4], [3, 5], [4]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ctx.raises("an island below the quorum", lambda: mk().fit(1, ctx.W(isl), d, dr, quorum=3), ValueError)


PATH = lambda n: [[j for j in (i - 1, i + 1) if 0 <= j < n] for i in range(n)]
TREE7 = [[1, 2], [0, 3, 4], [0, 5, 6], [1], [1], [2], [2]]
STAR6 = [[1, 2, 3, 4, 5], [0], [0], [0], [0], [0]]
TWO = [[1], [0, 2], [1], [4], [3, 5], [4]]                      # two paths of three
THREE = [[1], [0], [3], [2], [5, 6], [4, 6], [4, 5]]
LAD = [[1, 2], [0, 3], [0, 3, 4], [1, 2, 5], [2, 5], [3, 4]]    # 2 x 3 ladder
P_ = "P35"
for fam in ("spreg", "statsmodels"):
    add_case(P_, "search_path5_%s" % fam, search, nb=PATH(5), m=3, family=fam, max_paths=600)
    add_case(P_, "search_tree7_q2_%s" % fam, search, nb=TREE7, m=3, quorum=2, family=fam, max_paths=600)
    add_case(P_, "search_islands_%s" % fam, search, nb=TWO, m=4, islands="ignore", family=fam, max_paths=600)
    add_case(P_, "scoring_%s" % fam, scoring, which={"spreg": "score_spreg", "statsmodels": "score_stats"}[fam])
add_case(P_, "search_ladder", search, nb=LAD, m=3, max_paths=600)
add_case(P_, "search_ladder_w", search, nb=LAD, m=2, w=True, max_paths=600)
add_case(P_, "search_ladder_w_ids", search, nb=LAD, m=2, w=True, ids=[3, 0, 5, 1, 4, 2], max_paths=600)
add_case(P_, "search_ladder_w_names", search, nb=LAD, m=2, w=True, quorum=2, ids=list("fbdace"), max_paths=600)
add_case(P_, "search_path5_no_trace", search, nb=PATH(5), m=3, trace=False, max_paths=600)
add_case(P_, "search_ladder_iv", search, nb=LAD, m=2, iv=True, w=True, max_paths=600)
add_case(P_, "search_path7_q3", search, nb=PATH(7), m=2, quorum=3, max_paths=600)
add_case(P_, "search_path8_q2", search, nb=PATH(8), m=3, quorum=2, max_paths=600, tier="thorough")
add_case(P_, "search_path6_m4", search, nb=PATH(6), m=4, max_paths=2000, tier="thorough")
add_case(P_, "search_star_stuck", search, nb=STAR6, m=2, quorum=2, max_paths=600)
add_case(P_, "search_tree7_stuck", search, nb=TREE7, m=3, quorum=2, data=[0, 7, 1, 11, 4, 18, 5], trace=False, max_paths=600)
add_case(P_, "search_stuck_later", search, nb=PATH(7), m=3, quorum=2, data=[0, 1, 3, 7, 15, 31, 63], max_paths=600)
add_case(P_, "search_same_attributes", search, nb=PATH(5), m=2, data=[3, 3, 5, 5, 9], max_paths=600)
add_case(P_, "search_transform_o", search, nb=PATH(5), m=2, transform="o", max_paths=600)
add_case(P_, "search_transform_v", search, nb=PATH(5), m=2, transform="v", trace=False, max_paths=600)
add_case(P_, "search_verbose", search, nb=PATH(5), m=2, verbose=2, max_paths=600)
add_case(P_, "search_islands_increase", search, nb=TWO, m=1, max_paths=600)
add_case(P_, "search_three_islands", search, nb=THREE, m=5, islands="ignore", max_paths=600)
add_case(P_, "search_three_islands_enough", search, nb=THREE, m=2, islands="ignore", max_paths=600)
add_case(P_, "attributes_path", attributes, nb=PATH(5), m=2, a=[[0], [7], [1], [11], [4]], b=[[0], [1], [0], [0], [0]], max_paths=600)
add_case(P_, "attributes_ladder", attributes, nb=LAD, m=2, quorum=2, a=[[0, 1], [7, 2], [1, 5], [11, 3], [4, 9], [2, 2]], b=[[0, 0], [1, 0], [0, 0], [0, 1], [0, 0], [1, 1]], max_paths=600)
add_case(P_, "attributes_ladder3", attributes, nb=LAD, m=3, a=[[0], [7], [1], [11], [4], [2]], b=[[0], [1], [0], [0], [-1], [0]], max_paths=600)
add_case(P_, "attributes_affinity", attributes, nb=PATH(4), m=2, a=[[0], [2], [1], [4]], b=[[0], [0], [1], [0]], affinity=True, max_paths=600)
add_case(P_, "no_attributes", noattr, nb=LAD, m=3, quorum=1, max_paths=600)
add_case(P_, "no_attributes_q2", noattr, nb=PATH(6), m=2, quorum=2, max_paths=600)
x8 = [2, 5, 1, 7, 4, 9, 3, 8]
for c in ("OLS", "BaseOLS"):
    add_case(P_, "real_%s" % c, real, reg=c, nb=PATH(8), m=2, quorum=3, x=x8, max_paths=300)
    add_case(P_, "real_%s_constant" % c, real, reg=c, nb=PATH(8), m=2, quorum=3, x=[[a, b] for a, b in zip(x8, [1, 1, 1, 1, 1, 3, 4, 2])], max_paths=300)
add_case(P_, "real_BaseOLS_two", real, reg="BaseOLS", nb=PATH(10), m=2, quorum=4, x=[[a, b] for a, b in zip(X1, X2)][:10], max_paths=300)
add_case(P_, "real_BaseOLS_collinear", real, reg="BaseOLS", nb=PATH(8), m=2, quorum=3, x=[[a, 2 * a if i < 4 else i * i] for i, a in enumerate(x8)], max_paths=300)
add_case(P_, "real_BaseOLS_collinear_middle", real, reg="BaseOLS", nb=PATH(11), m=2, quorum=5,
         x=[[a, 2 * a if i < 6 else i * i, b] for i, (a, b) in enumerate(zip(X1, X2))][:11], max_paths=300)
add_case(P_, "real_BaseOLS_three", real, reg="BaseOLS", nb=PATH(10), m=3, quorum=3, x=list(X1)[:10], max_paths=300)
add_case(P_, "real_GM_Lag", real, reg="GM_Lag", nb=PATH(10), m=2, quorum=4, x=list(X1)[:10], max_paths=300)
add_case(P_, "real_GM_Lag_two", real, reg="GM_Lag", nb=PATH(12), m=2, quorum=5, x=[[a, b] for a, b in zip(X1, X2)][:12], max_paths=300)
add_case(P_, "real_default_metric", real, reg="BaseOLS", nb=LAD, m=2, quorum=2, x=x8[:6], default=True, max_paths=300)
for k in (0, 1):
    add_case(P_, "onecut_%d" % k, onecut, target=k, max_paths=600)
add_case(P_, "refuse", refuse)
