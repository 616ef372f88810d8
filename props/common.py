import sys
from mirvc.engine import *
from mirvc.runner import Ob, Failed, Undecided, Rec
from mirvc.fieldspec import FIELDS, FLD, R
from mirvc import solve
import z3

def total(items, w=64):
    r = Poly()
    for i, x in enumerate(items):
        r = r + x.p.scale(1 << (w * i))
    return r
def word_syms(ctx, name, n, bits=64):
    l = [ctx.int_sym(f"{name}{i}", 0, (1 << bits) - 1) for i in range(n)]
    ctx.inputs.append((name, bits, [list(x.p.syms())[0] for x in l]))
    return l
def fin(ctx, p):
    """apply decided indicators"""
    return p.subst(ctx.asg).idem(ctx.bools) if ctx.asg else p.idem(ctx.bools)

def inputs_of(ctx, model):
    """concrete inputs of a z3 model"""
    if model is None:
        return None
    out = {}
    for name, bits, syms in ctx.inputs:
        out[name] = hex(sum(model.get(((s, 1),), 0) << (bits * i) for i, s in enumerate(syms)))
    return out

def goal_ge0(rec, ctx, p, what):
    rec.goals += 1
    ok, m = ctx.solver.prove(("ge0", fin(ctx, p)))
    if not ok:
        if m is None:
            raise Undecided(f"{what}: solver gave up")
        raise Failed(what, {"inputs": inputs_of(ctx, m)})
def goal_eq0(rec, ctx, p, what):
    rec.goals += 1
    ok, m = ctx.solver.prove(("eq0", fin(ctx, p)))
    if not ok:
        if m is None:
            raise Undecided(f"{what}: solver gave up")
        raise Failed(what, {"inputs": inputs_of(ctx, m)})
def goal_cong(rec, ctx, a, b, p, what):
    """a == b (mod p): normal form modulo p; a left-over carry relation (small symmetric coefficients) goes to the solver"""
    rec.goals += 1
    d = fin(ctx, a - b)
    for s0, sub in reversed(getattr(ctx, "env", {}).get("cong", [])):
        d = d.subst({s0: fin(ctx, sub)})
    d = d.mod(p)
    if not d.t:
        return
    s = Poly({m: (c if c < p // 2 else c - p) for m, c in d.t.items()})
    ok, m = ctx.solver.prove(("eq0", s))
    if not ok:
        if m is None:
            raise Undecided(f"{what}: solver gave up")
        raise Failed(what, {"inputs": inputs_of(ctx, m)})
def goal_bool(rec, ctx, b, want, what):
    """boolean polynomial b equals boolean polynomial want"""
    goal_eq0(rec, ctx, b.p - want.p, what)
def goal_true(rec, cond, what, cex=None):
    rec.goals += 1
    if not cond:
        raise Failed(what, cex)

def paths(rec, prog, root, setup, contracts=None, fields=None, max_paths=2000, mach=None, time_limit=None):
    """symbolically execute the real function behind `root` on all inputs admitted by setup(ctx, m);
    yields (ctx, outcome, env)"""
    rid = prog.roots.get(root)
    if root.startswith("fn:"):          # a (nested) function of the repository, by name
        l = [i for n, ids in prog.byname.items() if n == root[3:] or n.endswith("::" + root[3:]) for i in ids]
        rid = l[0] if len(l) == 1 else None
    if rid is None:
        raise Undecided(f"root {root} not present")
    env = {}
    def run(ctx):
        m = Machine(prog, ctx, contracts, fields)
        if mach: mach(m)
        ctx.m = m
        env["cur"] = {}
        ctx.env = env["cur"]
        args = setup(ctx, m)
        try:
            return m.call(rid, args)
        except Unsupported as e:
            raise Unsupported(f"{e} [in {' < '.join(x[:90] for x in m.stack[:-5:-1])}]")
    for ctx, out in explore(run, max_paths=max_paths, time_limit=time_limit):
        rec.see(ctx)
        yield ctx, out
    if rec.paths == 0:
        raise Undecided("no feasible path (vacuous precondition)")
def no_panic(out, what):
    if out[0] != "ok":
        raise Failed(f"{what}: panics: {out[1]}")
    return out[1]
