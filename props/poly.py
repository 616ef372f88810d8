"""halo2_proofs: deferred fractions, polynomial / group arithmetic and evaluation domains, over the contracts of Fr (P08) and G1 (P12)."""
from .common import *
from .fields import field_contracts, adt_fields, fe_of, invert_contract
from mirvc.poly import pdiv
from mirvc.models import elem_ref
FR = FLD["bn_fr"]; P = FIELDS["bn_fr"][1]; NFR = FIELDS["bn_fr"][0]
S = 28
G1, G1A = "halo2curves::bn256::G1", "halo2curves::bn256::G1Affine"

def ppow(x, e):
    if x.is_const(): return Poly.const(pow(x.cval() % P, e, P))
    if e > 4096 and len(x.t) > 1: raise Unsupported("large power of a symbolic element")
    r = Poly.const(1); b = x
    while e:
        if e & 1: r = (r * b).mod(P)
        e >>= 1
        if e: b = (b * b).mod(P)
    return r
def limbs(m, v):
    while isinstance(v, Ref): v = m.load(v.cell, v.path)
    if not isinstance(v, Arr) or not all(x.is_const() for x in v.items): raise Unsupported("symbolic exponent")
    return sum(x.c() << (64 * i) for i, x in enumerate(v.items))
def fr_contracts(group=True):
    """Fr by its field contract (P08); G1 / G1Affine by the F_r-module contract (P12): a point is its coordinate in a free module"""
    C = field_contracts("bn_fr", extra=invert_contract("bn_fr"))
    pw = lambda m, a, fn: FE(FR, ppow(fe_of(m, a[0]).p, limbs(m, a[1])))
    C[f"<{NFR} as halo2curves::FieldExt>::pow"] = pw
    for n in (1, 2, 3, 4): C[f"<{NFR} as ff::Field>::pow_vartime::<&[u64; {n}]>"] = pw; C[f"<{NFR} as ff::Field>::pow_vartime::<[u64; {n}]>"] = pw
    def asg(m, a, fn):
        c = m.ctx.nrm(a[2].f[0]); x, y = fe_of(m, a[0]).p, fe_of(m, a[1]).p
        m.store(a[0].cell, a[0].path, FE(FR, y if c.is_const() and c.c() else x if c.is_const() else (x + c.p * (y - x)).idem(m.ctx.bools).mod(P)))
        return UNIT
    C[f"<{NFR} as subtle::ConditionallySelectable>::conditional_assign"] = asg
    if group: module_contracts(C)
    return C
GL = Fld("group element", P)
def L(m, x):
    while isinstance(x, Ref): x = m.load(x.cell, x.path)
    if isinstance(x, FE) and x.fld is GL: return x.p
    raise Unsupported("point is not under contract")
def module_contracts(C):
    mk = lambda g: (lambda m, a, fn: FE(GL, g(m, a).idem(m.ctx.bools).mod(P)))
    def up(g):
        def h(m, a, fn):
            m.store(a[0].cell, a[0].path, FE(GL, g(m, a).idem(m.ctx.bools).mod(P))); return UNIT
        return h
    add, sub = (lambda m, a: L(m, a[0]) + L(m, a[1])), (lambda m, a: L(m, a[0]) - L(m, a[1]))
    mul = lambda m, a: L(m, a[0]) * fe_of(m, a[1]).p
    for T, nm, g in (("Add", "add", add), ("Sub", "sub", sub)):
        for l in (G1, G1A):
            for r in (G1, G1A):
                for pl in ("", "&"):
                    for pr in ("", "&"):
                        C[f"<{pl}{l} as std::ops::{T}<{pr}{r}>>::{nm}"] = mk(g)
                        if l == r and pl == pr: C[f"<{pl}{l} as std::ops::{T}>::{nm}"] = mk(g)
                        if l == G1:
                            C[f"<{G1} as std::ops::{T}Assign<{pr}{r}>>::{nm}_assign"] = up(g)
                            if r == G1: C[f"<{G1} as std::ops::{T}Assign>::{nm}_assign"] = up(g)
    for l in (G1, G1A):
        for pl in ("", "&"):
            C[f"<{pl}{l} as std::ops::Neg>::neg"] = mk(lambda m, a: -L(m, a[0]))
            for ps in ("", "&"): C[f"<{pl}{l} as std::ops::Mul<{ps}{NFR}>>::mul"] = mk(mul)
        for ps in ("", "&"): C[f"<{l} as std::ops::MulAssign<{ps}{NFR}>>::mul_assign"] = up(mul)
        C[f"<{l} as std::clone::Clone>::clone"] = mk(lambda m, a: L(m, a[0]))
        C[f"<{l} as std::default::Default>::default"] = mk(lambda m, a: Poly())
        eq = lambda m, a, fn: m.ctx.fe_zero_ind(GL, L(m, a[0]) - L(m, a[1]))
        C[f"<{l} as std::cmp::PartialEq>::eq"] = eq
    C[f"<{G1} as group::Group>::double"] = mk(lambda m, a: L(m, a[0]).scale(2))
    C[f"<{G1} as group::Group>::identity"] = C[f"<{G1A} as group::prime::PrimeCurveAffine>::identity"] = C[f"<{G1} as halo2curves::Group>::group_zero"] = mk(lambda m, a: Poly())
    C[f"<{G1} as halo2curves::Group>::group_add"] = up(add); C[f"<{G1} as halo2curves::Group>::group_sub"] = up(sub); C[f"<{G1} as halo2curves::Group>::group_scale"] = up(mul)
    for k in (f"<{G1A} as group::prime::PrimeCurveAffine>::to_curve", f"<{G1} as std::convert::From<{G1A}>>::from", f"<{G1} as std::convert::From<&{G1A}>>::from",
              f"<{G1} as group::Curve>::to_affine", f"<{G1A} as std::convert::From<{G1}>>::from", f"<{G1A} as std::convert::From<&{G1}>>::from"):
        C[k] = mk(lambda m, a: L(m, a[0]))
    def bn(m, a, fn):
        src = m.slice_items(a[0]); dst = m.slice_items(a[1])
        if len(src) != len(dst): raise Panic("batch_normalize: length mismatch")
        r = a[1]
        for i, x in enumerate(src):
            e = elem_ref(m, r, i); m.store(e.cell, e.path, FE(GL, L(m, x)))
        return UNIT
    C[f"<{G1} as group::Curve>::batch_normalize"] = bn
FIELDS_ADT = {**adt_fields("bn_fr"), G1: GL, G1A: GL}
def execs(rec, prog, root, setup, C=None, **kw):
    for ctx, out in paths(rec, prog, "roots::halo2::" + root, setup, contracts=C or fr_contracts(), fields=FIELDS_ADT, **kw):
        yield ctx, no_panic(out, root)
def fe(p): return FE(FR, p if isinstance(p, Poly) else Poly.const(p % P))
def syms(ctx, name, n): return [Poly.sym(ctx.sym(f"{name}{i}")) for i in range(n)]
def ugcd(a, b):
    while b:
        a = list(a); iv = pow(b[-1], -1, P)
        while len(a) >= len(b):
            k = a[-1] * iv % P; o = len(a) - len(b)
            for i, x in enumerate(b): a[o + i] = (a[o + i] - k * x) % P
            while a and not a[-1]: a.pop()
        a, b = b, a
    return a
def contradictory(ctx):
    """the path's field facts exclude one another (after substituting the linear ones)"""
    fs = []
    for b, v in ctx.asg.items():
        t = ctx.defs.get(b)
        if not t or t[0] != "fz": continue
        if isinstance(v, Poly): v = v.cval() if v.is_const() else None
        if v in (0, 1): fs.append((fin(ctx, t[2]).mod(P), v))
    for i in range(len(fs)):
        q, v = fs[i]
        if v == 1:
            for s in sorted(q.syms()):
                lin = [(mm, c) for mm, c in q.t.items() if any(x == s for x, _ in mm)]
                if len(lin) == 1 and lin[0][0] == ((s, 1),):
                    sub = {s: Poly({mm: c for mm, c in q.t.items() if mm != ((s, 1),)}).scale(-pow(lin[0][1], -1, P)).mod(P)}
                    fs = [(x.subst(sub).mod(P) if j != i else x, w) for j, (x, w) in enumerate(fs)]; break
    uni = {}
    for x, w in fs:                            # facts about one symbol: their roots have to meet
        if w == 1 and len(x.syms()) == 1:
            s = next(iter(x.syms())); v = [0] * (x.degree_in(s) + 1)
            for mm, c in x.t.items(): v[dict(mm).get(s, 0)] = c % P
            uni[s] = ugcd(uni[s], v) if s in uni else v
    if any(len(v) == 1 for v in uni.values()): return True
    return any((w == 1 and x.is_const() and x.cval() % P) or (w == 0 and not x.t) for x, w in fs)
def zero(ctx, p):
    """p == 0 on this path (inverses by their defining equation)"""
    d = fin(ctx, p).mod(P)
    for b, v in ctx.asg.items():              # path facts  q == 0  that are linear in some symbol
        t = ctx.defs.get(b)
        one = v == 1 or (isinstance(v, Poly) and v.is_const() and v.cval() == 1)
        if not one or not t or t[0] != "fz": continue
        q = fin(ctx, t[2]).mod(P)
        for s in q.syms():
            lin = [(mm, c) for mm, c in q.t.items() if any(x == s for x, _ in mm)]
            if len(lin) == 1 and lin[0][0] == ((s, 1),) and s in d.syms():
                rest = Poly({mm: c for mm, c in q.t.items() if mm != ((s, 1),)})
                d = d.subst({s: rest.scale(-pow(lin[0][1], -1, P))}).mod(P); break
    inv = [(s, fin(ctx, x).mod(P)) for s, x, z in ctx.env.get("inverses", [])]
    for _ in range(400):
        if not d.t: return True
        # multiply by x^k to clear the last inverse symbol
        for s, x in reversed(inv):
            if s in d.syms():
                k = max(dict(mm).get(s, 0) for mm in d.t)
                r = Poly()
                for mm, c in d.t.items():
                    e = dict(mm); j = e.pop(s, 0)
                    r = r + Poly({tuple(sorted(e.items())): c}) * ppow(x, k - j)
                d = r.mod(P); break
        else: break
    for g in ctx.nz:
        while d.t and g.syms() <= d.syms():
            q = pdiv(d, g, P)
            if q is None: break
            d = q
    for b, v in ctx.asg.items():              # path facts  c*x^k + (lower in x) == 0
        t = ctx.defs.get(b)
        one = v == 1 or (isinstance(v, Poly) and v.is_const() and v.cval() == 1)
        if not d.t: return True
        if not one or not t or t[0] != "fz": continue
        q = fin(ctx, t[2]).mod(P)
        for s in sorted(q.syms()):
            k = q.degree_in(s); lead = {mm: c for mm, c in q.t.items() if dict(mm).get(s, 0) == k}
            if list(lead) != [((s, k),)] or s not in d.syms(): continue
            low = Poly({mm: c for mm, c in q.t.items() if mm != ((s, k),)}).scale(-pow(lead[((s, k),)], -1, P)).mod(P)
            while d.t and d.degree_in(s) >= k:
                r = Poly()
                for mm, c in d.t.items():
                    e = dict(mm); j = e.get(s, 0)
                    if j < k: r = r + Poly({mm: c}); continue
                    e[s] = j - k
                    if not e[s]: e.pop(s)
                    r = r + Poly({tuple(sorted(e.items())): c}) * low
                d = r.mod(P)
            break
    return not d.t or contradictory(ctx)
def goal_zero(rec, ctx, p, what):
    rec.goals += 1
    if not zero(ctx, p): raise Failed(f"{what}: differs by {fin(ctx, p).mod(P).show()[:140]}")
# ---------------------------------------------------------------- Assigned
KINDS = ("Z", "T", "R0", "R")
def variants(prog, tid): return {v["name"]: i for i, v in enumerate(prog.tys[tid]["v"])}
def find_ty(prog, rx):
    import re
    for i, t in prog.tys.items():
        if t.get("k") == "adt" and re.search(rx, t.get("name", "") + "|" + t.get("s", "")): return i
    raise Undecided(f"type {rx} not found")
def mk_assigned(ctx, V, kind, name):
    """-> (value of the real enum, its field value)"""
    v = Poly.sym(ctx.sym(name))
    if kind == "Z": return Agg([], V["Zero"]), Poly()
    if kind == "T": return Agg([fe(v)], V["Trivial"]), v
    if kind == "R0": return Agg([fe(v), fe(0)], V["Rational"]), Poly()
    d = Poly.sym(ctx.sym(name + "d")); ctx.nz.append(d)
    return Agg([fe(v * d), fe(d)], V["Rational"]), v
def want_value(rec, ctx, V, r, want, what):
    """the Assigned value r denotes `want`"""
    if not isinstance(r, Agg): raise Undecided("representation changed")
    if r.v == V["Zero"]: return goal_zero(rec, ctx, want, what)
    if r.v == V["Trivial"]: return goal_zero(rec, ctx, r.f[0].p - want, what)
    n, d = r.f[0].p, r.f[1].p
    if ctx.decide(ctx.fe_zero_ind(FR, fin(ctx, d))): goal_zero(rec, ctx, want, what + " (zero denominator)")
    else: goal_zero(rec, ctx, n - want * d, what)
def assigned_obs(prog):
    root = lambda n: prog.fns.get(prog.roots.get("roots::halo2::assigned::" + n))
    f0 = root("neg_v")
    if f0 is None: return []
    tid = f0["locals"][1]
    V = variants(prog, tid)
    if set(V) != {"Zero", "Trivial", "Rational"}: return []
    obs = []
    def unary(op, k1, res):
        def f(rec):
            def setup(ctx, m):
                a, v = mk_assigned(ctx, V, k1, "a"); ctx.env["v"] = v
                return [a if op in ("neg_v", "evaluate") else Ref(ctx.new_cell(a))]
            for ctx, r in execs(rec, prog, "assigned::" + op, setup):
                res(rec, ctx, r, ctx.env["v"], f"Assigned::{op} on {k1}")
        obs.append(Ob(f"assigned::{op}[{k1}]", f))
    val = lambda g: (lambda rec, ctx, r, v, w: want_value(rec, ctx, V, r, g(v), w))
    def invr(rec, ctx, r, v, w):
        if ctx.decide(ctx.fe_zero_ind(FR, fin(ctx, v))): return want_value(rec, ctx, V, r, Poly(), w)
        # want = 1/v: multiply through
        if r.v == V["Trivial"]: return goal_zero(rec, ctx, r.f[0].p * v - Poly.const(1), w)
        if r.v == V["Zero"]: return goal_true(rec, False, w + ": inverse of a non-zero value is Zero")
        n, d = r.f[0].p, r.f[1].p
        goal_true(rec, not ctx.decide(ctx.fe_zero_ind(FR, fin(ctx, d))), w + ": zero denominator for a non-zero value")
        goal_zero(rec, ctx, n * v - d, w)
    def isz(rec, ctx, r, v, w): goal_true(rec, bool(ctx.decide(r)) == bool(ctx.decide(ctx.fe_zero_ind(FR, fin(ctx, v)))), w)
    def ev(rec, ctx, r, v, w): goal_zero(rec, ctx, r.p - v, w)
    def num(rec, ctx, r, v, w): rec.goals += 1
    for k in KINDS:
        for op, g in (("neg_v", lambda v: -v), ("neg_r", lambda v: -v), ("double", lambda v: v.scale(2)), ("square", lambda v: v * v), ("cube", lambda v: v * v * v), ("from_ra", lambda v: v)):
            unary(op, k, val(g))
        unary("invert", k, invr); unary("is_zero", k, isz); unary("evaluate", k, ev)
    # numerator / denominator: numerator() / denominator().unwrap_or(1) is the value
    def nd(k1):
        def f(rec):
            for ctx, r in execs(rec, prog, "assigned::numerator", lambda ctx, m: (ctx.env.update(zip(("a", "v"), mk_assigned(ctx, V, k1, "a"))), [Ref(ctx.new_cell(ctx.env["a"]))])[1]):
                a = ctx.env["a"]
                goal_zero(rec, ctx, r.p - (a.f[0].p if a.f else Poly()), f"numerator of {k1}")
            for ctx, r in execs(rec, prog, "assigned::denominator", lambda ctx, m: (ctx.env.update(zip(("a", "v"), mk_assigned(ctx, V, k1, "a"))), [Ref(ctx.new_cell(ctx.env["a"]))])[1]):
                a = ctx.env["a"]
                goal_true(rec, isinstance(r, Agg) and len(r.f) == (1 if len(a.f) == 2 else 0), f"denominator of {k1}: presence")
                if r.f: goal_zero(rec, ctx, r.f[0].p - a.f[1].p, f"denominator of {k1}")
        obs.append(Ob(f"assigned::numerator/denominator[{k1}]", f))
    for k in KINDS: nd(k)
    def conv(op):
        def f(rec):
            def setup(ctx, m):
                x, y = syms(ctx, "x", 2); ctx.env["xy"] = x, y
                return [{"from_f": fe(x), "from_rf": Ref(ctx.new_cell(fe(x))), "from_t": Agg([fe(x), fe(y)])}[op]]
            for ctx, r in execs(rec, prog, "assigned::" + op, setup):
                x, y = ctx.env["xy"]
                if op != "from_t": want_value(rec, ctx, V, r, x, op); continue
                if ctx.decide(ctx.fe_zero_ind(FR, y)): want_value(rec, ctx, V, r, Poly(), op); continue
                if r.v == V["Rational"]: goal_zero(rec, ctx, r.f[0].p * y - x * r.f[1].p, op); goal_true(rec, not ctx.decide(ctx.fe_zero_ind(FR, r.f[1].p)), op)
                elif r.v == V["Trivial"]: goal_zero(rec, ctx, r.f[0].p * y - x, op)
                else: goal_zero(rec, ctx, x, op)
        obs.append(Ob(f"assigned::{op}", f))
    for op in ("from_f", "from_rf", "from_t"): conv(op)
    G = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b}
    def binary(op, k1, k2):
        def f(rec):
            kind = op[:3]
            def setup(ctx, m):
                a, v = mk_assigned(ctx, V, k1, "a")
                if op.endswith("f"):
                    w = Poly.sym(ctx.sym("b")); b = fe(w)
                else: b, w = mk_assigned(ctx, V, k2, "b")
                ca = ctx.new_cell(a); ctx.env.update(v=v, w=w, ca=ca)
                l = op[4] if op != "eq" else "r"; r = op[5] if op != "eq" else "r"
                return [a if l == "v" else Ref(ca), Ref(ctx.new_cell(b)) if r == "r" else b]
            for ctx, r in execs(rec, prog, "assigned::" + op, setup):
                v, w = ctx.env["v"], ctx.env["w"]
                nm = f"Assigned {op} on {k1},{k2}"
                if op == "eq":
                    goal_true(rec, bool(ctx.decide(r)) == bool(ctx.decide(ctx.fe_zero_ind(FR, fin(ctx, v - w)))), nm); continue
                if op[4] == "a": r = ctx.cells[ctx.env["ca"]]
                want_value(rec, ctx, V, r, G[kind](v, w), nm)
        obs.append(Ob(f"assigned::{op}[{k1},{k2}]", f))
    for op in [o + "_" + s for o in ("add", "sub", "mul") for s in ("vv", "vr", "rv", "rr", "vf", "rf", "av", "ar")] + ["eq"]:
        if root(op) is None: continue
        for k1 in KINDS:
            for k2 in (KINDS if not op.endswith("f") else ("F",)): binary(op, k1, k2)
    return obs
# ---------------------------------------------------------------- arithmetic (concrete sizes, arbitrary values)
def root_of(k):
    """the 2^k-th root of unity of the scalar field that halo2 uses: ROOT_OF_UNITY^(2^(S-k)), any primitive one is accepted"""
    return pow(5, (P - 1) >> k, P)
def sl(ctx, items): return Ref(ctx.new_cell(Arr(items)), (), (0, len(items)))
def evalp(co, x):
    r = Poly()
    for c in reversed(co): r = (r * x + c).mod(P)
    return r
def ge(p): return FE(GL, p)
def plist(v):
    """coefficients of a Vec / Polynomial"""
    if isinstance(v, Agg):
        l = [x for x in v.f if isinstance(x, Arr)]
        if len(l) != 1: raise Undecided("representation changed")
        v = l[0]
    if not isinstance(v, Arr): raise Undecided("representation changed")
    return [x.p for x in v.items]
def eq_list(rec, ctx, got, want, what):
    goal_true(rec, len(got) == len(want), f"{what}: length {len(got)} instead of {len(want)}")
    for i, (a, b) in enumerate(zip(got, want)): goal_zero(rec, ctx, a - b, f"{what}: entry {i}")
def arith_obs(prog):
    obs = []
    def ob(name, f, bounded=None, timeout=240): obs.append(Ob("arithmetic::" + name, f, bounded=bounded, timeout=timeout))
    def ev(n):
        def f(rec):
            def setup(ctx, m):
                c = syms(ctx, "c", n); x, = syms(ctx, "x", 1); ctx.env.update(c=c, x=x)
                return [sl(ctx, [fe(t) for t in c]), fe(x)]
            for ctx, r in execs(rec, prog, "arith::eval", setup): goal_zero(rec, ctx, r.p - evalp(ctx.env["c"], ctx.env["x"]), f"eval_polynomial, {n} coefficients")
        ob(f"eval_polynomial of {n} coefficients", f, bounded=f"{n} coefficients")
    for n in (0, 1, 2, 5): ev(n)
    def ip(n):
        def f(rec):
            def setup(ctx, m):
                a, b = syms(ctx, "a", n), syms(ctx, "b", n); ctx.env.update(a=a, b=b)
                return [sl(ctx, [fe(t) for t in a]), sl(ctx, [fe(t) for t in b])]
            for ctx, r in execs(rec, prog, "arith::inner", setup): goal_zero(rec, ctx, r.p - sum((x * y for x, y in zip(ctx.env["a"], ctx.env["b"])), Poly()), f"inner product of {n}")
        ob(f"compute_inner_product of {n}", f, bounded=f"{n} entries")
    for n in (0, 1, 4): ip(n)
    def kd(n):
        def f(rec):
            def setup(ctx, m):
                a = syms(ctx, "a", n); b, = syms(ctx, "b", 1); ctx.env.update(a=a, b=b)
                return [Ref(ctx.new_cell(Arr([fe(t) for t in a]))), fe(b)]
            for ctx, r in execs(rec, prog, "arith::kate", setup):
                q = plist(r); a, b = ctx.env["a"], ctx.env["b"]
                goal_true(rec, len(q) == n - 1, "quotient length")
                # a(X) - a(b) = q(X) (X - b)
                pr = [Poly()] * n
                for i, c in enumerate(q): pr[i + 1] = pr[i + 1] + c; pr[i] = pr[i] - c * b
                w = list(a); w[0] = w[0] - evalp(a, b)
                eq_list(rec, ctx, pr, w, f"kate_division of {n} coefficients")
        ob(f"kate_division of {n} coefficients", f, bounded=f"{n} coefficients")
    for n in (1, 2, 3, 6): kd(n)
    def lg(n):
        def f(rec):
            def setup(ctx, m):
                x, e = syms(ctx, "x", n), syms(ctx, "e", n); ctx.env.update(x=x, e=e)
                for i in range(n):
                    for j in range(i): ctx.nz.append(x[i] - x[j])
                return [sl(ctx, [fe(t) for t in x]), sl(ctx, [fe(t) for t in e])]
            for ctx, r in execs(rec, prog, "arith::lagrange", setup):
                c = plist(r)
                goal_true(rec, len(c) == n, "length")
                for i in range(n): goal_zero(rec, ctx, evalp(c, ctx.env["x"][i]) - ctx.env["e"][i], f"lagrange_interpolate of {n} points at point {i}")
        ob(f"lagrange_interpolate of {n} points", f, bounded=f"{n} distinct points")
    for n in (1, 2, 3): lg(n)
    def fft(k, g):
        def f(rec):
            n = 1 << k
            def setup(ctx, m):
                a = syms(ctx, "a", n); c = ctx.new_cell(Arr([(ge if g else fe)(t) for t in a])); ctx.env.update(a=a, c=c)
                return [Ref(c, (), (0, n)), fe(root_of(k)), K(k)]
            for ctx, r in execs(rec, prog, "arith::fft_g" if g else "arith::fft", setup):
                w = root_of(k)
                got = [x.p for x in ctx.cells[ctx.env["c"]].items]
                eq_list(rec, ctx, got, [evalp(ctx.env["a"], Poly.const(pow(w, i, P))) for i in range(n)], f"best_fft of 2^{k}{' group elements' if g else ''}")
        ob(f"best_fft{' (G1)' if g else ''} of 2^{k}", f, bounded=f"n = 2^{k}")
    for k in range(0, 6): fft(k, False)
    for k in (0, 2, 4): fft(k, True)
    def gl(k):
        def f(rec):
            n = 1 << k
            def setup(ctx, m):
                a = syms(ctx, "a", n); ctx.env.update(a=a)
                return [Arr([ge(t) for t in a]), K(k)]
            for ctx, r in execs(rec, prog, "arith::g_lagrange", setup):
                got = plist(r); a = ctx.env["a"]
                goal_true(rec, len(got) == n, "length")
                # coefficients in the Lagrange basis: sum_i g_i w^(ij) = a_j for the omega the domain uses (any primitive root, read off g_1's coefficient)
                w = domain_omega(prog, k)
                for j in range(n): goal_zero(rec, ctx, evalp(got, Poly.const(pow(w, j, P))) - a[j], f"g_to_lagrange of 2^{k}: entry {j}")
        ob(f"g_to_lagrange of 2^{k}", f, bounded=f"n = 2^{k}")
    for k in (0, 1, 3): gl(k)
    def tw(k, d, last):
        def f(rec):
            w = root_of(k)
            for ctx, r in execs(rec, prog, "arith::twiddle", lambda ctx, m: [fe(w), K(k), K(d), K(int(last))]):
                got = plist(r)
                if d > k: want = [pow(w, i, P) for i in range(1 << k)]
                else: want = [pow(w, i, P) for i in range(1 << d)] + [pow(w, i << d, P) for i in range(1 << (k - d - (0 if last else 1)))]
                eq_list(rec, ctx, got, [Poly.const(x) for x in want], f"generate_twiddle_lookup_table({k},{d},{last})")
        ob(f"generate_twiddle_lookup_table({k},{d},{last})", f, bounded=f"log_n = {k}, sparse degree {d}")
    tw(3, 10, False); tw(5, 2, True); tw(5, 2, False); tw(4, 4, True)
    return obs
def msm_obs(prog):
    """best_multiexp, any number of terms.  Loop invariant of the bucket loop: sum_j (j+1) bucket_j = sum over the terms
    already seen of digit*base; get_at is the digit function (own obligations); the segment loop composes the digits."""
    from mirvc.seq import heads, live_at
    obs = []
    SER = "halo2_proofs::arithmetic::multiexp_serial"
    def ser(fr): return SER in fr.fn["name"] and "::get_at" not in fr.fn["name"] and "Bucket" not in fr.fn["name"]
    def btype():
        for i, t in prog.tys.items():
            if t.get("k") == "adt" and len(t.get("v", ())) == 3 and "multiexp_serial" in t["s"] and "Bucket" in t["name"]: return {v["name"]: k for k, v in enumerate(t["v"])}, i
        raise Undecided("bucket type not recognised")
    class Rep(Nat):
        def __init__(self, i): self.kind = "repr"; self.i = i
        def copy(self): return self
    def isb(x, tid): return isinstance(x, Agg) and len(x.f) <= 1 and x.v in (0, 1, 2)
    def machine(L, onhead, digit):
        """C, setup"""
        C = fr_contracts()
        def rep(m, a, fn):
            x = fe_of(m, a[0]).p
            return Rep(m.ctx.env["cs"].index(x.key()))
        C[f"<{NFR} as ff::PrimeField>::to_repr"] = rep
        for nm in prog.byname:
            if nm.startswith(SER) and "::get_at" in nm: C[nm] = digit
        def setup(ctx, m):
            cs, bs = syms(ctx, "s", L), syms(ctx, "B", L)
            ctx.env.update(cs=[c.key() for c in cs], bs=bs)
            return [sl(ctx, [fe(c) for c in cs]), sl(ctx, [ge(b) for b in bs])]
        def mach(m):
            m.loop_hook = lambda m, fr, bb: onhead(m, fr, bb) if ser(fr) and bb in heads(fr.fn) else None
        return C, setup, mach
    def inner(m, fr, bb):
        """(bucket local, iterator local) if bb is the head of the loop over the terms"""
        lv = live_at(fr.fn, bb); nb = []; its = []
        for l in lv:
            ts = prog.tys[fr.fn["locals"][l]]["s"]
            if "Bucket" in ts and "Vec" in ts and "IntoIter" not in ts: nb.append(l)
            if "Zip<" in ts and "slice::Iter" in ts: its.append(l)
        if len(nb) == 1 and len(its) == 1: return nb[0], its[0]
    def val_(V, b):
        return Poly() if b.v == V["None"] else b.f[0].p
    def mkb(V, st, p): return Agg([], V["None"]) if st == "None" else Agg([ge(p)], V[st])
    def left(m, fr, l, k):
        """the zip iterator with only its last k elements left"""
        z = m.ctx.cells[fr.cells[l]]
        def cut(it):
            if not isinstance(it, Nat) or it.kind != "iter": raise Undecided("term iterator not recognised")
            n = it.n if isinstance(it.n, int) else it.n.c()
            return it.copy(i=n - k)
        f = list(z.f); c = 0
        for i, x in enumerate(f):
            if isinstance(x, Nat): f[i] = cut(x); c += 1
        if c != 2: raise Undecided("term iterator not recognised")
        m.ctx.cells[fr.cells[l]] = Agg(f, z.v, z.ty)
    LS = (1, 3, 4, 31, 32, 40)
    def step(L, st):
        def f(rec):
            V, tid = btype(); d = 0; top = [1]
            while d < top[0]: one(rec, L, st, d, V, top); d += 1
            goal_true(rec, d > 1, "digits")
        return f
    def one(rec, L, st, d, V, top):
            seen = [0]
            def digit(m, a, fn):
                r = m.load(a[2].cell, a[2].path)
                if not isinstance(r, Rep): raise Undecided("digit source")
                m.ctx.env["dig"] = r.i
                top[0] = 1 << a[1].c()
                return K(d)
            def onhead(m, fr, bb):
                q = inner(m, fr, bb)
                if not q: return
                ctx = m.ctx; lb, li = q; e = ctx.env
                bk = ctx.cells[fr.cells[lb]]
                if not isinstance(bk, Arr): raise Undecided("buckets not recognised")
                if "b0" not in e:
                    goal_true(rec, all(x.v == V["None"] for x in bk.items), "buckets start empty")
                    ps = syms(ctx, "bk", len(bk.items))
                    bs = [mkb(V, st if (j + 1 == d or d == 0) else "Projective", p) for j, p in enumerate(ps)]
                    e["b0"] = sum((val_(V, b).scale(j + 1) for j, b in enumerate(bs)), Poly())
                    ctx.cells[fr.cells[lb]] = Arr(bs); left(m, fr, li, 1)
                    return
                want = e["b0"] + e["bs"][L - 1].scale(d)
                got = sum((val_(V, b).scale(j + 1) for j, b in enumerate(bk.items)), Poly())
                goal_true(rec, e.get("dig") == L - 1, "the digit is that of the term's own scalar")
                goal_zero(rec, ctx, got - want, f"bucket loop: digit {d} into a {st} bucket"); seen[0] += 1
                raise PathDone()
            C, setup, mach = machine(L, onhead, digit)
            for ctx, out in paths(rec, prog, "roots::halo2::arith::msm", setup, contracts=C, fields=FIELDS_ADT, mach=mach):
                if out[0] == "panic": raise Failed(f"best_multiexp panics: {out[1]}")
            if not seen[0]: raise Undecided("bucket loop not reached")
    def outer(L, st):
        def f(rec):
            V, tid = btype()
            def digit(m, a, fn): raise Undecided("bucket loop was not cut")
            def onhead(m, fr, bb):
                q = inner(m, fr, bb)
                if not q: return
                ctx = m.ctx; lb, li = q; e = ctx.env; bk = ctx.cells[fr.cells[lb]]
                if not isinstance(bk, Arr): raise Undecided("buckets not recognised")
                sg = len(e.setdefault("segs", []))
                e["c"] = len(bk.items).bit_length()
                if len(bk.items) + 1 != 1 << e["c"]: raise Undecided("number of buckets")
                goal_true(rec, all(x.v == V["None"] for x in bk.items), "buckets start empty")
                ps = syms(ctx, f"g{sg}_", len(bk.items))
                bs = [mkb(V, st if st != "mixed" else ("None", "Affine", "Projective")[(j + sg) % 3], p) for j, p in enumerate(ps)]
                e["segs"].append(sum((val_(V, b).scale(j + 1) for j, b in enumerate(bs)), Poly()))
                ctx.cells[fr.cells[lb]] = Arr(bs); left(m, fr, li, 0)
            C, setup, mach = machine(L, onhead, digit)
            for ctx, out in paths(rec, prog, "roots::halo2::arith::msm", setup, contracts=C, fields=FIELDS_ADT, mach=mach):
                r = no_panic(out, "best_multiexp"); segs = ctx.env.get("segs")
                if not segs: raise Undecided("bucket loop not reached")
                c = ctx.env["c"]; n = len(segs)
                goal_true(rec, c * n >= 254, f"{n} segments of {c} bits cover every scalar")
                goal_zero(rec, ctx, r.p - sum((s.scale(pow(2, c * (n - 1 - i), P)) for i, s in enumerate(segs)), Poly()), "segments are combined in base 2^c, most significant first")
        return f
    def segorder(L):
        """the digit asked for at the i-th segment (from the top) is that of weight 2^(c (n-1-i))"""
        def f(rec):
            V, tid = btype()
            def digit(m, a, fn):
                m.ctx.env["asked"].append((a[0].c(), a[1].c(), m.load(a[2].cell, a[2].path).i)); return K(0)
            def onhead(m, fr, bb):
                q = inner(m, fr, bb)
                if not q: return
                m.ctx.env.setdefault("asked", [])
            C, setup, mach = machine(L, onhead, digit)
            for ctx, out in paths(rec, prog, "roots::halo2::arith::msm", setup, contracts=C, fields=FIELDS_ADT, mach=mach):
                no_panic(out, "best_multiexp"); a = ctx.env.get("asked")
                if not a: raise Undecided("no digits asked")
                n = len(a) // L
                c = a[0][1]
                ctx.env["n"] = n; goal_true(rec, c * n >= 254, "digits cover the scalar")
                goal_true(rec, a == [(n - 1 - s, c, i) for s in range(n) for i in range(L)], "every term's digit is taken once per segment")
        return f
    def getat(c):
        def f(rec):
            n = 256 // c + 1
            nm = [x for x in prog.byname if x.startswith(SER) and "::get_at" in x]
            if len(nm) != 1: raise Undecided("digit function not recognised")
            for s in range(n):
                def setup(ctx, m):
                    bt = word_syms(ctx, "bit", 256, 1); ctx.env["bt"] = bt
                    return [K(s), K(c), Ref(ctx.new_cell(Arr([ctx.mk(total(bt[8 * i:8 * i + 8], 1), 0, 255) for i in range(32)])))]
                for ctx, out in paths(rec, prog, "fn:" + nm[0], setup, contracts={}, fields={}):
                    r = no_panic(out, "get_at"); lo = s * c
                    bits = [ctx.env["bt"][lo + k] if lo + k < 256 else None for k in range(c)]
                    goal_eq0(rec, ctx, r.p - sum((x.p.scale(1 << k) for k, x in enumerate(bits) if x is not None), Poly()), f"get_at({s},{c}) is bits {lo}..{lo + c} of the scalar")
        return f
    for L in LS:
        nm = f"arithmetic::best_multiexp at the window size of {L} terms: "
        obs.append(Ob(nm + "segment loop", outer(L, "mixed"), timeout=240))
        for st in ("None", "Affine", "Projective"):
            obs.append(Ob(nm + f"summation of {st} buckets", outer(L, st), timeout=240))
            obs.append(Ob(nm + f"every digit into a {st} bucket", step(L, st), timeout=240))
        obs.append(Ob(nm + "digits asked for", segorder(L), timeout=240))
    for c in (1, 2, 3, 4, 5, 6): obs.append(Ob(f"arithmetic::get_at with {c}-bit digits", getat(c), timeout=240))
    return obs
_om = {}
def domain_omega(prog, k):
    """omega of EvaluationDomain::new(2, k), from the real code (its being a primitive 2^k-th root is proved by the domain obligations)"""
    if k not in _om:
        rec = Rec()
        for ctx, out in paths(rec, prog, "roots::halo2::domain::new", lambda ctx, m: [K(2), K(k)], contracts=fr_contracts(), fields=FIELDS_ADT):
            d = no_panic(out, "EvaluationDomain::new")
            fn = prog.fns[prog.roots["roots::halo2::domain::new"]]
            names = [n for n, _ in prog.tys[fn["locals"][0]]["v"][0]["f"]]
            _om[k] = d.f[names.index("omega")].p.cval()
    return _om[k]
# ---------------------------------------------------------------- evaluation domains
def dom(prog, m, j, k):
    """EvaluationDomain::new(j, k), executed"""
    return m.call(prog.roots["roots::halo2::domain::new"], [K(j), K(k)])
def dfields(prog):
    fn = prog.fns[prog.roots["roots::halo2::domain::new"]]
    return [n for n, _ in prog.tys[fn["locals"][0]]["v"][0]["f"]]
def order_is(w, k): return pow(w, 1 << k, P) == 1 and (k == 0 or pow(w, 1 << (k - 1), P) != 1)
def ext_k(j, k):
    e = k
    while (1 << e) < (1 << k) * (j - 1): e += 1
    return e
class Dom:
    """the mathematical domain behind a constructed EvaluationDomain, read through its public getters"""
    def __init__(self, prog, j, k):
        self.j, self.k, self.n = j, k, 1 << k
        self.ek = ext_k(j, k)
        self.en = 1 << self.ek
        self.w = self.get(prog, "omega"); self.ew = self.get(prog, "ext_omega")
    def get(self, prog, root):
        rec = Rec()
        for ctx, out in paths(rec, prog, "roots::halo2::domain::" + root, lambda ctx, m: [Ref(ctx.new_cell(dom(prog, m, self.j, self.k)))], contracts=fr_contracts(), fields=FIELDS_ADT):
            return no_panic(out, root).p.cval()
def zeta_of(prog, j, k):
    """the coset shift the code uses: f(X) = X is mapped to shift * extended_omega^i"""
    rec = Rec()
    def setup(ctx, m):
        d = dom(prog, m, j, k); n = 1 << k
        return [Ref(ctx.new_cell(d)), pol([fe(1 if i == 1 else 0) for i in range(n)])]
    for ctx, out in paths(rec, prog, "roots::halo2::domain::to_ext", setup, contracts=fr_contracts(), fields=FIELDS_ADT):
        return plist(no_panic(out, "coeff_to_extended"))[0].cval()
def pol(items): return Agg([Arr(list(items)), UNIT])
def domain_obs(prog):
    if "roots::halo2::domain::new" not in prog.roots: return []
    obs = []
    def new_ob(j):
        def f(rec):
            for k in range(1, 26):
                if ext_k(j, k) > S: break
                D = Dom(prog, j, k)
                goal_true(rec, order_is(D.w, k), f"omega of domain (j={j}, k={k}) has order 2^k")
                goal_true(rec, order_is(D.ew, D.ek), f"extended omega of (j={j}, k={k}) has order 2^{D.ek}")
                goal_true(rec, pow(D.ew, 1 << (D.ek - k), P) == D.w, f"extended_omega^(2^(ek-k)) = omega (j={j}, k={k})")
                goal_true(rec, D.get(prog, "omega_inv") * D.w % P == 1, f"omega_inv (j={j}, k={k})")
                for ctx, d in execs(rec, prog, "domain::new", lambda ctx, m: [K(j), K(k)]):
                    nm = dfields(prog)
                    if {"n", "k", "extended_k", "quotient_poly_degree"} <= set(nm):
                        goal_true(rec, [d.f[nm.index(x)].c() for x in ("n", "k", "extended_k", "quotient_poly_degree")] == [1 << k, k, D.ek, j - 1], f"sizes of domain (j={j}, k={k})")
        obs.append(Ob(f"domain::new constants j={j}", f))
    for j in range(2, 11): new_ob(j)
    def op(name, jk, mk, check, what):
        def f(rec):
            D = Dom(prog, *jk)
            def setup(ctx, m):
                d = dom(prog, m, *jk)
                ctx.env["D"] = D
                return mk(ctx, D, Ref(ctx.new_cell(d)))
            for ctx, r in execs(rec, prog, "domain::" + name, setup): check(rec, ctx, D, r, f"{what} (j={jk[0]}, k={jk[1]})")
        obs.append(Ob(f"domain::{name} j={jk[0]} k={jk[1]}", f, bounded=f"j={jk[0]}, k={jk[1]}"))
    SZ = [(2, 1), (2, 3), (3, 2), (4, 3), (5, 2), (6, 2)]
    def vec(ctx, n, nm="a"):
        a = syms(ctx, nm, n); ctx.env["a"] = a
        return a
    C = Poly.const
    for jk in SZ:
        op("to_coeff", jk, lambda ctx, D, d: [d, pol(map(fe, vec(ctx, D.n)))],
           lambda rec, ctx, D, r, w: [goal_true(rec, len(plist(r)) == D.n, w + ": length")] + [goal_zero(rec, ctx, evalp(plist(r), C(pow(D.w, i, P))) - ctx.env["a"][i], f"{w}: value at omega^{i}") for i in range(D.n)], "lagrange_to_coeff")
        def chk_ext(rec, ctx, D, r, w):
            z = zeta_of(prog, D.j, D.k)
            goal_true(rec, all(pow(z * pow(D.ew, i, P), D.n, P) != 1 for i in range(D.en // D.n)), w + ": the coset meets the domain")
            eq_list(rec, ctx, plist(r), [evalp(ctx.env["a"], C(z * pow(D.ew, i, P) % P)) for i in range(D.en)], w)
        op("to_ext", jk, lambda ctx, D, d: [d, pol(map(fe, vec(ctx, D.n)))], chk_ext, "coeff_to_extended")
        def part_want(D, a, z, t): return [evalp(a, C(z * pow(D.ew, t, P) * pow(D.w, i, P) % P)) for i in range(D.n)]
        def chk_parts(rec, ctx, D, r, w):
            z = zeta_of(prog, D.j, D.k); l = r.items
            goal_true(rec, len(l) == D.en // D.n, w + ": number of parts")
            for t, p in enumerate(l): eq_list(rec, ctx, plist(p), part_want(D, ctx.env["a"], z, t), f"{w}: part {t}")
        op("to_parts", jk, lambda ctx, D, d: [d, Ref(ctx.new_cell(pol(map(fe, vec(ctx, D.n)))))], chk_parts, "coeff_to_extended_parts")
        def mkb(ctx, D, d):
            a = vec(ctx, 2 * D.n)
            return [d, sl(ctx, [pol(map(fe, a[:D.n])), pol(map(fe, a[D.n:]))])]
        def chkb(rec, ctx, D, r, w):
            z = zeta_of(prog, D.j, D.k); l = r.items
            goal_true(rec, len(l) == D.en // D.n, w + ": number of parts")
            for t, p in enumerate(l):
                goal_true(rec, len(p.items) == 2, w + ": number of polynomials")
                for u in (0, 1): eq_list(rec, ctx, plist(p.items[u]), part_want(D, ctx.env["a"][u * D.n:(u + 1) * D.n], z, t), f"{w}: part {t}, polynomial {u}")
        op("to_bparts", jk, mkb, chkb, "batched_coeff_to_extended_parts")
        def mkp(ctx, D, d):
            a = vec(ctx, D.en); q = D.en // D.n
            return [d, Arr([pol(map(fe, a[t * D.n:(t + 1) * D.n])) for t in range(q)])]
        op("from_parts", jk, mkp, lambda rec, ctx, D, r, w: eq_list(rec, ctx, plist(r), [ctx.env["a"][(i % (D.en // D.n)) * D.n + i // (D.en // D.n)] for i in range(D.en)], w), "extended_from_lagrange_vec")
        def mkx(ctx, D, d):
            a = vec(ctx, D.n * (D.j - 1)); z = zeta_of(prog, D.j, D.k)
            return [d, pol(fe(evalp(a, C(z * pow(D.ew, i, P) % P))) for i in range(D.en))]
        op("from_ext", jk, mkx, lambda rec, ctx, D, r, w: eq_list(rec, ctx, plist(r), ctx.env["a"], w), "extended_to_coeff of the extended evaluations of a polynomial")
        def chkv(rec, ctx, D, r, w):
            z = zeta_of(prog, D.j, D.k)
            eq_list(rec, ctx, [x.scale(pow(z * pow(D.ew, i, P), D.n, P) - 1) for i, x in enumerate(plist(r))], ctx.env["a"], w)
        op("div_van", jk, lambda ctx, D, d: [d, pol(map(fe, vec(ctx, D.en)))], chkv, "divide_by_vanishing_poly")
        for rot in (0, 1, -1, 2, -2, 3):
            def mkr(ctx, D, d, rot=rot): ctx.env["rot"] = rot; return [d, Ref(ctx.new_cell(pol(map(fe, vec(ctx, D.en))))), Agg([K(rot)])]
            if abs(rot) <= 1 or jk[1] >= 2:
                op("rot_ext", jk, mkr, lambda rec, ctx, D, r, w, rot=rot: eq_list(rec, ctx, plist(r), [ctx.env["a"][(i + rot * (D.en // D.n)) % D.en] for i in range(D.en)], w + f" by {rot}"), "rotate_extended")
        def mkl(ctx, D, d, lo, hi):
            x, = syms(ctx, "x", 1); ctx.env["x"] = x
            for i in range(D.n): ctx.nz.append(x - C(pow(D.w, i, P)))
            return [d, fe(x), fe(ppow(x, D.n)), K(lo), K(hi)]
        def chkl(rec, ctx, D, r, w, rots):
            x = ctx.env["x"]; l = plist(r)
            goal_true(rec, len(l) == len(rots), w + ": length")
            for i, v in zip(rots, l):
                wi = pow(D.w, i % D.n, P)
                goal_zero(rec, ctx, v * (x - C(wi)).scale(D.n) - (ppow(x, D.n) - C(1)).scale(wi), f"{w}: l_{i}(x)")
        if jk[1] <= 2:
            op("l_i", jk, lambda ctx, D, d: mkl(ctx, D, d, -D.n, D.n), lambda rec, ctx, D, r, w: chkl(rec, ctx, D, r, w, range(-D.n, D.n)), "l_i_range over a range")
            op("l_ii", jk, lambda ctx, D, d: mkl(ctx, D, d, -D.n - 1, 1), lambda rec, ctx, D, r, w: chkl(rec, ctx, D, r, w, range(-D.n - 1, 2)), "l_i_range over an inclusive range")
        for nm, n, v in (("emp_c", "n", 0), ("emp_l", "n", 0), ("emp_e", "en", 0)):
            op(nm, jk, lambda ctx, D, d: [d], lambda rec, ctx, D, r, w, n=n: eq_list(rec, ctx, plist(r), [Poly()] * getattr(D, n), w), nm)
        for nm, n in (("con_l", "n"), ("con_e", "en")):
            op(nm, jk, lambda ctx, D, d: [d, fe(vec(ctx, 1)[0])], lambda rec, ctx, D, r, w, n=n: eq_list(rec, ctx, plist(r), [ctx.env["a"][0]] * getattr(D, n), w), nm)
        for nm in ("lag_vec", "cof_vec"):
            op(nm, jk, lambda ctx, D, d: [d, Arr(list(map(fe, vec(ctx, D.n))))], lambda rec, ctx, D, r, w: eq_list(rec, ctx, plist(r), ctx.env["a"], w), nm)
    def rom(k):
        def f(rec):
            D = Dom(prog, 3, k)
            for rot in (0, 1, -1, 2, -2, 5, -7, 1 << 20, -(1 << 20), (1 << 31) - 1, -(1 << 31)):
                def setup(ctx, m):
                    v = vec(ctx, 1)
                    return [Ref(ctx.new_cell(dom(prog, m, 3, k))), fe(v[0]), Agg([K(rot)])]
                for ctx, r in execs(rec, prog, "domain::rot_omega", setup): goal_zero(rec, ctx, r.p - ctx.env["a"][0].scale(pow(D.w, rot, P)), f"rotate_omega by {rot} (k={k})")
        obs.append(Ob(f"domain::rotate_omega k={k}", f, bounded="11 rotations including the extreme ones"))
    for k in (1, 4, 17): rom(k)
    def roms(k):
        def f(rec):
            C = fr_contracts()
            def pw(m, a, fn):
                v = a[1]
                while isinstance(v, Ref): v = m.load(v.cell, v.path)
                b = fe_of(m, a[0]).p
                if not isinstance(v, Arr) or not b.is_const() or any(not x.is_const() or x.c() for x in v.items[1:]): raise Unsupported("symbolic power of a symbolic element")
                s = Poly.sym(m.ctx.sym("pw")); m.ctx.env.setdefault("pw", []).append((s, b.cval(), v.items[0])); return FE(FR, s)
            for n in (1, 2, 3, 4): C[f"<{NFR} as ff::Field>::pow_vartime::<&[u64; {n}]>"] = pw; C[f"<{NFR} as ff::Field>::pow_vartime::<[u64; {n}]>"] = pw
            D = Dom(prog, 3, k); D.get(prog, "omega")
            rec0 = Rec(); d0 = [None]
            for ctx, out in paths(rec0, prog, "roots::halo2::domain::new", lambda ctx, m: [K(3), K(k)], contracts=fr_contracts(), fields=FIELDS_ADT): d0[0] = no_panic(out, "new")
            def setup(ctx, m):
                r = ctx.int_sym("rot", -(1 << 31), (1 << 31) - 1); ctx.inputs.append(("rot", 32, list(r.p.syms())))
                v = vec(ctx, 1); ctx.env["r"] = r
                return [Ref(ctx.new_cell(d0[0])), fe(v[0]), Agg([r])]
            for ctx, out in paths(rec, prog, "roots::halo2::domain::rot_omega", setup, contracts=C, fields=FIELDS_ADT):
                r = no_panic(out, "rotate_omega"); pws = ctx.env.get("pw", [])
                if len(pws) != 1: raise Undecided("rotate_omega does not take one power")
                s, b, e = pws[0]
                goal_zero(rec, ctx, r.p - ctx.env["a"][0] * s, "rotate_omega multiplies by the power")
                # b^e = omega^rot, the order being 2^k
                if b == D.w: q = e.p - ctx.env["r"].p
                elif b == pow(D.w, -1, P): q = e.p + ctx.env["r"].p
                else: raise Undecided("rotate_omega uses another base")
                goal_eq0(rec, ctx, q, "rotate_omega: the exponent is the rotation")
        obs.append(Ob(f"domain::rotate_omega k={k}, every rotation", f))
    for k in (7, 20): roms(k)
    def pl(name, mk, want, n):
        def f(rec):
            for ctx, r in execs(rec, prog, "domain::" + name, mk): eq_list(rec, ctx, plist(r), want(ctx), name)
        obs.append(Ob(f"poly::{name} of {n}", f, bounded=f"{n} coefficients"))
    for n in (1, 4):
        def two(ctx, m, n=n):
            a = vec(ctx, 2 * n); return [pol(map(fe, a[:n])), Ref(ctx.new_cell(pol(map(fe, a[n:]))))]
        pl("padd", two, lambda ctx, n=n: [ctx.env["a"][i] + ctx.env["a"][n + i] for i in range(n)], n)
        pl("psub", two, lambda ctx, n=n: [ctx.env["a"][i] - ctx.env["a"][n + i] for i in range(n)], n)
        pl("pmul", lambda ctx, m, n=n: (vec(ctx, n + 1), [pol(map(fe, ctx.env["a"][:n])), fe(ctx.env["a"][n])])[1], lambda ctx, n=n: [ctx.env["a"][i] * ctx.env["a"][n] for i in range(n)], n)
        pl("psubs", lambda ctx, m, n=n: (vec(ctx, n + 1), [Ref(ctx.new_cell(pol(map(fe, ctx.env["a"][:n])))), fe(ctx.env["a"][n])])[1], lambda ctx, n=n: [ctx.env["a"][i] - (ctx.env["a"][n] if i == 0 else Poly()) for i in range(n)], n)
        for rot in (0, 1, -1, n - 1):
            pl("rot", lambda ctx, m, n=n, rot=rot: [Ref(ctx.new_cell(pol(map(fe, vec(ctx, n))))), Agg([K(rot)])], lambda ctx, n=n, rot=rot: [ctx.env["a"][(i + rot) % n] for i in range(n)], n)
    return obs
