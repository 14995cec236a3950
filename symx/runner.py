"""Check driver.

  run.py P01                 run the check of property P01 (VERIF_TIER quick/thorough)
  run.py --replay FILE       replay a recorded counterexample on the real code
  run.py --worker sym|num    internal
"""
import importlib
import json
import math
import os
import pickle
import subprocess
import sys
import time
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


def load_harness(prop):
    sys.path.insert(0, os.path.join(VERIF, "harness"))
    for f in sorted(os.listdir(os.path.join(VERIF, "harness"))):
        if f.lower().startswith(prop.lower() + "_") and f.endswith(".py"):
            importlib.import_module(f[:-3])
    from symx.ctx import REG
    return REG[prop]


def select(prop, tier):
    cs = load_harness(prop)
    only = os.environ.get("VERIF_CASE")
    return {k: c for k, c in cs.items()
            if (tier == "thorough" or c.tier == "quick") and (not only or only in k)}


# --------------------------------------------------------------------------
# symbolic worker
# --------------------------------------------------------------------------
def _arm():
    import faulthandler
    faulthandler.enable()


def sym_case(c, tier, seed, spreg):
    """run one case over all its paths; returns a picklable report"""
    from symx import sym as Y, zq, decide as D
    from symx.ctx import Ctx
    t0 = time.time()
    Y.S.reset()
    D.zq = zq
    eng = zq.Engine(max_paths=c.max_paths if tier == "quick" else 4 * c.max_paths)
    funcs = set()
    calls = [0]
    mon = sys.monitoring
    TID = 3
    repo = REPO.rstrip("/") + "/spreg/"

    def on_start(code, off):
        if code.co_filename.startswith(repo):
            funcs.add(code.co_filename[len(repo):] + ":" + code.co_qualname)
            calls[0] += 1
            return None
        return mon.DISABLE
    try:
        mon.use_tool_id(TID, "symx")
    except ValueError:
        pass
    mon.register_callback(TID, mon.events.PY_START, on_start)
    mon.set_events(TID, mon.events.PY_START)
    rep = dict(case=c.name, obs=[], errors=[], paths=0)
    ctxs = []
    allbase = {}

    def one():
        ctx = Ctx("sym", tier=tier, seed=seed)
        ctx.p = c.params
        ctx.engine = eng
        ctxs.append(ctx)
        err = None
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                c.fn(ctx, spreg)
            except (Y.Unsupported, Y.PathBudget) as e:
                err = ("unsupported", repr(e), traceback.format_exc()[-1500:])
            except Exception as e:
                err = ("exception", repr(e)[:500], traceback.format_exc()[-3000:])
        base_names = [v.name for v in Y.S.vars if v.kind == "input"]
        for n, v in ctx.base.items():
            allbase.setdefault(n, v)
        base = {n: allbase.get(n, Fraction(3, 7)) for n in base_names}
        on_base = D.holds_at(eng.pc, base)
        if err:
            m = None
            try:
                m = D.path_point(ctx)
            except Exception:
                pass
            rep["errors"].append(dict(kind=err[0], msg=err[1], tb=err[2], model=ser(m)))
        cache = {}
        for ob in ctx.obs:
            o = dict(label=ob["label"], kind=ob["kind"], status=ob.get("status"), bad=ob.get("bad"), msg=ob.get("msg"),
                     knownid=ob.get("knownid"), model=ser(ob.get("model")), at=ob.get("at"))
            if on_base and ob["kind"] in ("eq", "ge") and not ob.get("bad"):
                try:
                    o["val"] = [float(D.evaluate(x, base, None, cache)) for x in ob["got"]]
                except Exception as e:
                    o["val"] = None
            rep["obs"].append(o)
        rep["paths"] += 1
        rep["base"] = ser(base)
        rep.setdefault("onbase", False)
        rep["onbase"] = rep["onbase"] or on_base
    try:
        eng.run(one)
    except Y.PathBudget as e:
        rep["errors"].append(dict(kind="paths", msg=str(e), tb="", model=None))
    mon.set_events(TID, 0)
    mon.free_tool_id(TID)
    st = eng.stats
    rep.update(functions=sorted(funcs), calls=calls[0], queries=st.queries, unsat=st.unsat, sat=st.sat, unknown=st.unknown,
               solver_s=st.time, feas=st.feas, forks=st.forks, norm=getattr(st, "norm", 0),
               nvars=len([v for v in Y.S.vars if v.kind == "input"]), atoms=len([v for v in Y.S.vars if v.kind != "input"]),
               assumptions=sorted(Y.S.assumptions), secs=time.time() - t0)
    return rep


def ser(m):
    if m is None:
        return None
    return {k: str(v) for k, v in m.items()}


def num_case(c, assign, tier, seed, spreg):
    from symx.ctx import Ctx
    import warnings
    import numpy as np
    ctx = Ctx("num", {k: Fraction(v) for k, v in (assign or {}).items()}, tier=tier, seed=seed)
    ctx.p = c.params
    rep = dict(obs=[], error=None)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            c.fn(ctx, spreg)
        except Exception as e:
            rep["error"] = dict(msg=repr(e)[:500], tb=traceback.format_exc()[-3000:])
    for ob in ctx.obs:
        o = dict(label=ob["label"], kind=ob["kind"], ok=True, why="")
        if ob["kind"] == "true":
            o["ok"], o["why"] = ob["cond"], ob["msg"]
        elif ob.get("bad"):
            o["ok"], o["why"] = False, ob["bad"]
        else:
            g, e = ob["got"], ob["exp"]
            o["val"] = [float(x) for x in g]
            o["tol"] = ob.get("tol", 1e-9)
            for i in range(len(g)):
                if ob["kind"] == "eq":
                    if not close(g[i], e[i], at=ob.get("tol", 1e-9)):
                        o["ok"] = False
                        o["why"] = "element %d: got %.12g, expected %.12g" % (i, g[i], e[i])
                        break
                elif not (g[i] >= e[i] - 1e-9 * max(1, abs(e[i]))):
                    o["ok"] = False
                    o["why"] = "element %d: got %.12g, expected >= %.12g" % (i, g[i], e[i])
                    break
            if not o["ok"] and ob["kind"] == "eq":
                for kid, alt in ob.get("known") or []:
                    if len(alt) == len(g) and all(close(a, b) for a, b in zip(g, alt)):
                        o["knownid"] = kid
        if ob["kind"] == "true" and not o["ok"] and ob.get("knownid"):
            o["knownid"] = ob["knownid"]
        rep["obs"].append(o)
    return rep


def close(g, e, rt=1e-6, at=1e-9):
    if g != g and e != e:
        return True
    if g == e:
        return True
    return abs(g - e) <= rt * max(abs(g), abs(e)) + at


def fork_map(tasks, fn, nproc, timeout):
    """run fn(task) in forked children; returns {index: result or ('timeout'|'died', info)}"""
    import select as _sel
    import signal
    res = {}
    live = {}
    todo = list(range(len(tasks)))
    while todo or live:
        while todo and len(live) < nproc:
            i = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    os.setpgid(0, 0)
                    import ctypes
                    import resource
                    ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # end with the parent
                    lim = int(os.environ.get("VERIF_MEM_GB", "6")) << 30
                    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
                    devnull = os.open("/dev/null", os.O_WRONLY)
                    if not os.environ.get("VERIF_DEBUG"):
                        os.dup2(devnull, 1)
                        os.dup2(devnull, 2)
                    try:
                        out = ("ok", fn(tasks[i]))
                    except MemoryError:
                        out = ("died", "memory")
                    except Exception as e:
                        out = ("died", traceback.format_exc()[-3000:])
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(out, f)
                except BaseException:
                    code = 1
                os._exit(code)
            os.close(w)
            live[r] = (i, pid, time.time(), [])
        rd, _, _ = _sel.select(list(live), [], [], 0.5)
        for r in rd:
            i, pid, t, buf = live[r]
            d = os.read(r, 1 << 20)
            if d:
                buf.append(d)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
            try:
                res[i] = pickle.loads(b"".join(buf))
            except Exception:
                res[i] = ("died", "no result")
        now = time.time()
        for r in list(live):
            i, pid, t, buf = live[r]
            lim = timeout(tasks[i]) if callable(timeout) else timeout
            if now - t > lim:
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.waitpid(pid, 0)
                os.close(r)
                del live[r]
                res[i] = ("timeout", "%.0fs" % lim)
    return res


def worker(kind, prop, tier, seed, infile, outfile):
    sys.path.insert(0, VERIF)
    if VT not in sys.path:
        sys.path.append(VT)
    import warnings
    warnings.simplefilter("ignore")
    if kind == "sym":
        from symx import loader, sym as Y, zq
        Y.S.engine = None
        spreg = loader.load()
        cs = select(prop, tier)
        names = list(cs)
        scale = 1 if tier == "quick" else 4
        res = fork_map(names, lambda n: sym_case(cs[n], tier, seed, spreg), NPROC, lambda n: cs[n].timeout * scale)
        out = {n: res[i] for i, n in enumerate(names)}
    else:
        from symx import numstub
        numstub.install()
        sys.path.insert(0, REPO)
        import spreg
        assert os.path.realpath(spreg.__file__).startswith(os.path.realpath(REPO)), spreg.__file__
        import_submodules(spreg)
        from symx import cuts
        cuts.install("num", numstub.OPTSTUB)
        cs = select(prop, tier)
        tasks = pickle.load(open(infile, "rb"))
        res = fork_map(tasks, lambda t: num_case(cs[t[0]], t[1], tier, seed, spreg), NPROC, 120)
        out = [res[i] for i in range(len(tasks))]
    with open(outfile, "wb") as f:
        pickle.dump(out, f)


def import_submodules(spreg):
    base = os.path.join(REPO, "spreg")
    for f in sorted(os.listdir(base)):
        if f.endswith(".py") and f != "__init__.py":
            try:
                importlib.import_module("spreg." + f[:-3])
            except ModuleNotFoundError:
                pass


def call_worker(kind, prop, tier, seed, tasks, tmp):
    inf = os.path.join(tmp, kind + ".in")
    outf = os.path.join(tmp, kind + ".out")
    pickle.dump(tasks, open(inf, "wb"))
    if os.path.exists(outf):
        os.unlink(outf)
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               PYTHONHASHSEED="0", PYTHONWARNINGS="ignore")
    p = subprocess.run([PY, os.path.join(VERIF, "run.py"), "--worker", kind, prop, tier, str(seed), inf, outf],
                       env=env, cwd=tmp, stdout=None if os.environ.get("VERIF_DEBUG") else subprocess.PIPE,
                       stderr=None if os.environ.get("VERIF_DEBUG") else subprocess.PIPE)
    if not os.path.exists(outf):
        msg = (p.stderr or b"").decode(errors="replace")[-3000:]
        return None, msg
    return pickle.load(open(outf, "rb")), ""


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def main_check(prop):
    import shutil
    import tempfile
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tmp = tempfile.mkdtemp(prefix="symx_%s_" % prop)
    try:
        return _main(prop, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _main(prop, tier, seed, tmp, t0):
    sym, err = call_worker("sym", prop, tier, seed, None, tmp)
    kf = [f for f in known_findings() if f["property"] == prop and f.get("status") != "fixed"]
    kfids = {f["id"]: f for f in kf}
    violations = []
    inconclusive = []
    known_hit = {}
    if sym is None:
        # the source may fail to import: show it with the real interpreter
        num, e2 = call_worker("num", prop, tier, seed, [], tmp)
        if num is None:
            violations.append(dict(case="import", label="import spreg", why=(e2 or err).strip()[-400:], model={}))
            sym = {}
        else:
            print("ERROR: symbolic worker failed:\n" + err)
            return 2
    tasks = []
    meta = []
    for n, (s, rep) in sym.items():
        if s != "ok":
            inconclusive.append((n, "*", "symbolic run %s: %s" % (s, str(rep)[-300:])))
            tasks.append((n, {}))
            meta.append(("base", n, None))
            continue
        tasks.append((n, rep.get("base") or {}))
        meta.append(("base", n, None))
        seen = set()
        for e in rep["errors"]:
            tasks.append((n, e["model"] or rep.get("base") or {}))
            meta.append(("err", n, e))
        nv = 0
        for o in rep["obs"]:
            if o["status"] == "violated" and o["label"] not in seen:
                seen.add(o["label"])
                nv += 1
                if nv <= 12:
                    tasks.append((n, o["model"] or {}))
                    meta.append(("ob", n, o))
    num, err = (call_worker("num", prop, tier, seed, tasks, tmp)) if tasks else ([], "")
    if num is None:
        violations.append(dict(case="import", label="import spreg", why=err.strip()[-400:], model={}))
        num = []
        tasks, meta = [], []
    validated = 0
    encode_err = []
    for (kind, n, o), (case_n, assign), (s, nr) in zip(meta, tasks, num):
        if s != "ok":
            inconclusive.append((n, "*", "replay %s" % s))
            continue
        numobs = {}
        for q in nr["obs"]:
            numobs.setdefault(q["label"], q)
        fails = [q for q in nr["obs"] if not q["ok"]]
        for q in fails:
            kid = q.get("knownid")
            if kid and kid in kfids:
                known_hit.setdefault(kid, (n, q["label"], q["why"]))
            else:
                violations.append(dict(case=n, label=q["label"], why=q["why"], model=assign))
        if nr["error"]:
            violations.append(dict(case=n, label="completes without exception", why=nr["error"]["msg"], model=assign,
                                   tb=nr["error"]["tb"]))
        if kind == "base" and sym[n][0] == "ok":
            rep = sym[n][1]
            ok = True
            cnt = 0
            for ob in rep["obs"]:
                if ob.get("val") is None:
                    continue
                q = numobs.get(ob["label"])
                if q is None or "val" not in q:
                    continue
                cnt += 1
                if len(q["val"]) != len(ob["val"]) or not all(close(a, b, 1e-5, q.get("tol", 1e-9)) for a, b in zip(q["val"], ob["val"])):
                    ok = False
                    encode_err.append((n, ob["label"], ob["val"][:4], q["val"][:4]))
            if cnt and ok:
                validated += 1
        if kind == "ob" and not any(q["label"] == o["label"] for q in fails) and not nr["error"]:
            inconclusive.append((n, o["label"], "solver counterexample did not reproduce on the real code"))
        if kind == "err" and not nr["error"] and not fails:
            inconclusive.append((n, "*", "%s: %s" % (o["kind"], o["msg"])))
    for e in encode_err:
        inconclusive.append((e[0], e[1], "encoding and real run disagree: %s vs %s" % (e[2], e[3])))
    tot = disc = 0
    for n, (s, rep) in sym.items():
        if s != "ok":
            continue
        for o in rep["obs"]:
            tot += 1
            if o["status"] == "discharged":
                disc += 1
            elif o["status"] == "inconclusive":
                inconclusive.append((n, o["label"], "solver gave no answer"))
            elif o["status"] == "known" and o["knownid"] in kfids:
                known_hit.setdefault(o["knownid"], (n, o["label"], ""))
    # dedupe violations
    uniq = {}
    for v in violations:
        uniq.setdefault((v["case"], v["label"]), v)
    violations = list(uniq.values())
    reps = [r for s, r in sym.values() if s == "ok"]
    funcs = sorted(set(f for r in reps for f in r["functions"]))
    wall = time.time() - t0
    from symx.ctx import REG
    sys.path.insert(0, VERIF)
    try:
        mod = load_doc(prop)
    except Exception:
        mod = ("", [])
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(
                  states=sum(r["paths"] for r in reps),
                  transitions=sum(r["calls"] for r in reps),
                  traces_validated_against_impl=validated,
                  states_meaning="symbolic paths executed to the end (each stands for all inputs satisfying its path condition)",
                  transitions_meaning="activations of spreg functions executed symbolically",
                  samples=[dict(case=r["case"], inputs=r["nvars"], atoms=r["atoms"], base=r.get("base"),
                                obligations=[o["label"] + ": " + str(o["status"]) for o in r["obs"][:6]]) for r in reps[:3]],
                  cases=len(sym), cases_completed=len(reps),
                  obligations=tot, obligations_discharged=disc, known_findings=sorted(known_hit),
                  inconclusive=[list(x) for x in inconclusive[:40]], inconclusive_count=len(inconclusive),
                  solver_queries=sum(r["queries"] for r in reps), solver_unsat=sum(r["unsat"] for r in reps),
                  solver_sat=sum(r["sat"] for r in reps), solver_unknown=sum(r["unknown"] for r in reps),
                  feasibility_queries=sum(r["feas"] for r in reps), forks=sum(r["forks"] for r in reps),
                  identities_normalised_before_query=sum(r["norm"] for r in reps),
                  solver_s=round(sum(r["solver_s"] for r in reps), 3),
                  symbolic_inputs=sum(r["nvars"] for r in reps),
                  functions_encoded=funcs, functions_encoded_count=len(funcs),
                  bounds=mod[0]),
              assumptions=["exact real arithmetic stands for float64 (rounding is outside the claim)",
                           "denominators met on a path are non-zero and undecided equality tests are generic (null sets excluded)",
                           "numerical optimisers are arbitrary points of their search box; distribution tails are uninterpreted functions",
                           "libpysal, pandas and the Python interpreter are trusted"]
              + sorted(set(a for r in reps for a in r["assumptions"])) + list(mod[1]),
              wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s tier=%s cases=%d/%d obligations=%d discharged=%d inconclusive=%d queries=%d solver=%.1fs paths=%d validated=%d wall=%.1fs"
          % (prop, tier, len(reps), len(sym), tot, disc, len(inconclusive), ev["coverage"]["solver_queries"],
             ev["coverage"]["solver_s"], ev["coverage"]["states"], validated, wall))
    for n, l, w in inconclusive[:15]:
        print("INCONCLUSIVE case=%s label=%s: %s" % (n, l, w))
    for kid in sorted(known_hit):
        n, l, w = known_hit[kid]
        print("KNOWN-FINDING: property=%s %s [%s; case %s, %s]" % (prop, kfids[kid]["what"], kid, n, l))
    if os.environ.get("VERIF_VERBOSE"):
        for n, (s, rep) in sym.items():
            if s == "ok":
                print("  %-40s %6.1fs paths=%d obs=%d q=%d solver=%.1f err=%s" % (n, rep["secs"], rep["paths"], len(rep["obs"]), rep["queries"], rep["solver_s"], [e["msg"] for e in rep["errors"]]))
                shown_e = set()
                for e in rep["errors"]:
                    if e["msg"] not in shown_e:
                        shown_e.add(e["msg"])
                        print("\n".join(x[:200] for x in e["tb"].strip().splitlines()[-9:]))
    if violations:
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        shown = 0
        for i, v in enumerate(violations):
            path = os.path.join(VERIF, "evidence", "replay", "%s_%d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump(dict(property=prop, tier=tier, seed=seed, **v), f, indent=1, default=str)
            shown += 1
            if shown <= 25:
                print("VIOLATION property=%s replay=%s  case=%s: %s -- %s" % (prop, path, v["case"], v["label"], v["why"]))
            if shown <= 3 and v.get("tb") and os.environ.get("VERIF_VERBOSE"):
                print(v["tb"])
        return 1
    return 0


def load_doc(prop):
    """(bounds text, extra assumptions) of the harness module without importing numpy stacks twice"""
    import ast
    for f in sorted(os.listdir(os.path.join(VERIF, "harness"))):
        if f.lower().startswith(prop.lower() + "_") and f.endswith(".py"):
            tree = ast.parse(open(os.path.join(VERIF, "harness", f)).read())
            doc = ast.get_docstring(tree) or ""
            extra = []
            for node in tree.body:
                if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "ASSUMPTIONS":
                    extra = ast.literal_eval(node.value)
            return doc, extra
    return "", []


def replay(path):
    import tempfile
    import shutil
    v = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="symx_replay_")
    try:
        num, err = call_worker("num", v["property"], "thorough", v["seed"], [(v["case"], v["model"])], tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if num is None:
        print(err)
        print("VIOLATION property=%s replay=%s" % (v["property"], path))
        return 1
    s, r = num[0]
    if s != "ok":
        print(s, r)
        return 2
    bad = [o for o in r["obs"] if not o["ok"]]
    for o in bad:
        print("%s: %s" % (o["label"], o["why"]))
    if r["error"]:
        print(r["error"]["tb"])
    if bad or r["error"]:
        print("VIOLATION property=%s replay=%s" % (v["property"], path))
        return 1
    print("does not reproduce")
    return 0


def main(argv):
    if argv[0] == "--worker":
        worker(argv[1], argv[2], argv[3], int(argv[4]), argv[5], argv[6])
        return 0
    if argv[0] == "--selftest":
        sys.path.append(VT)
        import z3
        from symx import loader, sym as Y, zq
        spreg = loader.load()
        x = z3.Real("x")
        s = z3.Solver()
        s.add(x * x < 0)
        assert s.check() == z3.unsat
        print("symx ok: spreg from", spreg.__file__)
        return 0
    if argv[0] == "--replay":
        return replay(argv[1])
    return main_check(argv[0])
