"""SMT back end (z3) for linear integer facts over ctx symbols; non-linear monomials are abstracted
by bounded fresh integers (sound over-approximation for proofs)."""
import time
import z3
from .poly import Poly

STATS = {"queries": 0, "time": 0.0}

class PathSolver:
    def __init__(self, ctx):
        self.ctx = ctx
        self.vars = {}
        self.timeout = 20000
    def mono(self, m, extra):
        v = self.vars.get(m)
        if v is None:
            v = z3.Int("m" + "_".join(f"{s}^{e}" for s, e in m))
            self.vars[m] = v
        if m not in extra:
            extra[m] = v
        return v
    def expr(self, p, extra):
        ts = []
        for m, c in p.t.items():
            if not m:
                ts.append(z3.IntVal(c))
            elif c == 1:
                ts.append(self.mono(m, extra))
            else:
                ts.append(z3.IntVal(c) * self.mono(m, extra))
        if not ts:
            return z3.IntVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]
    def fact(self, f, extra):
        k = f[0]
        if k == "ge0":
            return self.expr(f[1], extra) >= 0
        if k == "eq0":
            return self.expr(f[1], extra) == 0
        if k == "ne0":
            return self.expr(f[1], extra) != 0
        if k == "negdef":
            b = self.mono(((f[1], 1),), extra); e = self.expr(f[2], extra)
            return z3.Or(z3.And(b == 1, e <= -1), z3.And(b == 0, e >= 0))
        if k == "zdef":
            b = self.mono(((f[1], 1),), extra); e = self.expr(f[2], extra)
            return z3.Or(z3.And(b == 1, e == 0), z3.And(b == 0, e != 0))
        if k == "z3":
            return f[1](self, extra)
        raise ValueError(k)
    def bounds(self, extra, s):
        ctx = self.ctx
        done = set()
        while True:
            todo = [m for m in extra if m not in done]
            if not todo:
                break
            for m in todo:
                done.add(m)
                lo, hi = ctx.interval(Poly({m: 1}))
                v = extra[m]
                if lo is not None: s.add(v >= lo)
                if hi is not None: s.add(v <= hi)
                if len(m) > 1 and all(e == 1 for _, e in m):
                    bs = [x for x, _ in m if x in ctx.bools]
                    rest = tuple((x, e) for x, e in m if x not in ctx.bools)
                    if bs:
                        # product with boolean symbols is exact
                        conj = z3.And([self.mono(((b, 1),), extra) == 1 for b in bs])
                        r = self.mono(rest, extra) if rest else z3.IntVal(1)
                        s.add(v == z3.If(conj, r, z3.IntVal(0)))
    def relevant(self, goal_syms):
        """facts connected to the goal through shared symbols"""
        facts = [(f, self._fs(f)) for f in self.ctx.facts]
        return [f for f, _ in facts]
    def _fs(self, f):
        s = set()
        for x in f[1:]:
            if isinstance(x, Poly): s |= x.syms()
            elif isinstance(x, int): s.add(x)
        return s
    def check(self, extra_facts, timeout=None):
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout)
        extra = {}
        for f in self.ctx.facts:
            s.add(self.fact(f, extra))
        for f in extra_facts:
            s.add(self.fact(f, extra))
        for b, k in self.ctx.pb.items():
            pass
        self.bounds(extra, s)
        t = time.time()
        r = s.check()
        STATS["queries"] += 1
        STATS["time"] += time.time() - t
        self.last = (s, extra)
        return r
    def unsat_path(self):
        return self.check([]) == z3.unsat
    def feasible(self, cond, v):
        c = self.ctx
        if not (c.facts):
            lo, hi = c.interval(cond.p)
        return self.check([("eq0", cond.p - v)], 5000) != z3.unsat
    def prove(self, goal, timeout=None):
        """goal: a fact tuple ('ge0',p)/('eq0',p); returns (True,None) / (False, model|None)"""
        if goal[0] == "ge0":
            neg = ("ge0", -goal[1] - 1)
        elif goal[0] == "eq0":
            p = goal[1]
            if self.ctx.asg: p = p.subst(self.ctx.asg)
            if not p.t: return True, None
            neg = ("ne0", p)
        elif goal[0] == "false":
            neg = ("eq0", Poly())
        r = self.check([neg], timeout)
        if r == z3.unsat:
            return True, None
        if r == z3.sat:
            s, extra = self.last
            m = s.model()
            return False, {k: m.eval(v, model_completion=True).as_long() for k, v in extra.items() if len(k) == 1}
        return False, None
