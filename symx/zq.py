"""z3 back end: translation of polynomials / path conditions, and the path engine."""
import time
from fractions import Fraction

import z3

from . import poly as P
from . import sym as Y
from .poly import exps, B

z3.set_param("verbose", 0)


def zvar(i):
    v = Y.S.z3vars.get(i)
    if v is None:
        v = Y.S.z3vars[i] = z3.Real("v%d_%s" % (i, Y.S.vars[i].name))
    return v


def zpoly(p):
    if not p:
        return z3.RealVal(0)
    ts = []
    for k, c in p.items():
        t = None
        for i, e in exps(k):
            v = zvar(i)
            f = v
            for _ in range(e - 1):
                f = f * v
            t = f if t is None else t * f
        if t is None:
            ts.append(z3.RealVal(c))
        elif c == 1:
            ts.append(t)
        else:
            ts.append(z3.RealVal(c) * t)
    return ts[0] if len(ts) == 1 else z3.Sum(ts)


def zq(c):
    return z3.RealVal(str(c))


def closure(vs):
    """variables reachable through atom definitions"""
    seen = set()
    todo = list(vs)
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        v = Y.S.vars[i]
        if v.kind == "sqrt":
            todo += P.pvars(v.data["P"])
        elif v.kind == "eig" and v.data["prev"] is not None:
            todo.append(v.data["prev"])
    return seen


def facts(vs):
    out = []
    for i in closure(vs):
        v = Y.S.vars[i]
        z = zvar(i)
        if v.lo is not None:
            out.append(z > zq(v.lo) if v.lo_strict else z >= zq(v.lo))
        if v.hi is not None:
            out.append(z < zq(v.hi) if v.hi_strict else z <= zq(v.hi))
        if v.kind == "sqrt":
            out.append(z * z == zpoly(v.data["P"]))
        elif v.kind == "eig" and v.data["prev"] is not None:
            out.append(zvar(v.data["prev"]) <= z)
    return out


def zcond(p, op):
    e = zpoly(p)
    return {"<": e < 0, "<=": e <= 0, ">": e > 0, ">=": e >= 0, "==": e == 0, "!=": e != 0}[op]


class Stats:
    def __init__(self):
        self.queries = self.unsat = self.sat = self.unknown = 0
        self.time = 0.0
        self.feas = 0
        self.paths = 0
        self.forks = 0


class Engine:
    def __init__(self, max_paths=64, feas_ms=1000):
        self.prefix = []
        self.trace = []
        self.pending = []
        self.pc = []
        self.known = {}
        self.stats = Stats()
        self.max_paths = max_paths
        self.feas_ms = feas_ms
        self.generic = True
        Y.S.engine = self

    def start_path(self, prefix):
        self.prefix = list(prefix)
        self.trace = []
        self.pc = []
        self.known = {}
        for p, op in getattr(self, "base_pc", []):
            self.assume(p, op)

    def assume(self, p, op):
        self.pc.append((p, op))
        if op in (">", "<", ">=", "<="):
            s = 1 if op[0] == ">" else -1
            self.known[frozenset(p.items())] = s
            self.known[frozenset(P.pneg(p).items())] = -s

    def check(self, conds, ms=None, extra_vars=()):
        vs = set(extra_vars)
        for p, op in self.pc:
            vs |= set(P.pvars(p))
        s = z3.Solver()
        s.set("timeout", int(ms or self.feas_ms))
        for p, op in self.pc:
            s.add(zcond(p, op))
        for c in conds:
            if isinstance(c, tuple):
                vs |= set(P.pvars(c[0]))
                s.add(zcond(*c))
            else:
                s.add(c)
        for f in facts(vs):
            s.add(f)
        t = time.time()
        r = s.check()
        self.stats.time += time.time() - t
        self.stats.feas += 1
        return r, s

    def decide(self, p, op):
        if op in ("==", "!="):
            if frozenset(p.items()) in self.known:
                return op == "!="      # sign known => non-zero (generic)
            for q, o in self.pc:
                if o in ("==", "!=") and (q == p):
                    return (o == op)
            if self.generic and not getattr(self, "exact_eq", False):
                return op == "!="
        s = Y.quick_sign(p)
        if s and op not in ("==", "!="):
            return (s > 0) == (op in (">", ">="))
        if op in ("==", "!=") and s is not None and not getattr(self, "exact_eq", False):
            return op == "!="
        n = len(self.trace)
        if n < len(self.prefix):
            r = self.prefix[n]
        else:
            f_op = Y.NEG[op]
            a, _ = self.check([(p, op)])
            if a == z3.unsat:
                r = False
            else:
                b, _ = self.check([(p, f_op)])
                r = True
                if b != z3.unsat:
                    self.stats.forks += 1
                    self.pending.append(self.trace + [False])
        self.trace.append(r)
        self.note(p, op if r else Y.NEG[op])
        return r

    def note(self, p, op):
        self.assume(p, op)

    def run(self, fn):
        """DFS over symbolic paths"""
        self.pending = [[]]
        out = []
        while self.pending:
            pre = self.pending.pop()
            if self.stats.paths >= self.max_paths:
                raise Y.PathBudget("more than %d symbolic paths" % self.max_paths)
            self.stats.paths += 1
            self.start_path(pre)
            try:
                out.append(fn())
            except Y.Infeasible:
                pass
        return out
