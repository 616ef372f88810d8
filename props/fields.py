"""Contracts of the four prime-field types, proved against their limb-level implementation."""
from .common import *

def elem(ctx, name, p):
    l = word_syms(ctx, name, 4)
    ctx.facts.append(("ge0", (p - 1) - total(l)))
    return Agg([Arr(l)]), total(l)

def res_limbs(v):
    if isinstance(v, Agg) and len(v.f) == 1 and isinstance(v.f[0], Arr) and len(v.f[0].items) == 4:
        return total(v.f[0].items)
    raise Undecided("result is not a 4-limb element")

BIN = ["add", "sub", "mul", "op_add", "op_sub", "op_mul", "rr_add", "rr_sub", "rr_mul", "ro_add", "ro_sub", "ro_mul",
       "or_add", "or_sub", "or_mul", "as_add", "as_sub", "as_mul", "ar_add", "ar_sub", "ar_mul", "g_add", "g_sub", "g_mul"]
UN = ["neg", "double", "square", "tr_double", "tr_square", "op_neg", "r_neg"]

def prod_fact(ctx, a, b, pa, pb):
    """nonlinear lemma handed to the linear solver: 0<=a<=pa, 0<=b<=pb => a*b <= pa*pb"""
    ctx.facts.append(("ge0", Poly.const(pa * pb) - a * b))

def binop_ob(prog, fk, op, wide=False):
    """wide: the left operand is an arbitrary 256-bit integer (what from_raw / from_u512 / from_repr rely on)"""
    p = FIELDS[fk][1]
    Rinv = pow(R, -1, p)
    kind = op.rsplit("_", 1)[-1]
    def f(rec):
        def setup(ctx, m):
            if wide:
                l = word_syms(ctx, "a", 4); a, A = Agg([Arr(l)]), total(l)
            else:
                a, A = elem(ctx, "a", p)
            b, B = elem(ctx, "b", p)
            ctx.env.update(A=A, B=B)
            if kind == "mul": prod_fact(ctx, A, B, R - 1 if wide else p - 1, p - 1)
            ca = ctx.new_cell(a); ctx.env["ca"] = ca
            ar = Ref(ca) if op in ("add", "sub", "mul") or op[:2] in ("rr", "ro", "as", "ar", "g_") else a
            br = Ref(ctx.new_cell(b)) if op in ("add", "sub", "mul") or op[:2] in ("rr", "or", "ar", "g_") else b
            return [ar, br]
        for ctx, out in paths(rec, prog, f"roots::field::{fk}::{op}", setup):
            v = no_panic(out, op)
            if op[:2] in ("as", "ar", "g_"):
                v = ctx.cells[ctx.env["ca"]]
            A, B = ctx.env["A"], ctx.env["B"]
            r = res_limbs(v)
            exp = {"add": A + B, "sub": A - B, "mul": (A * B).scale(Rinv) if kind == "mul" else None}[kind]
            goal_cong(rec, ctx, r, exp, p, f"{fk}.{op}: result congruent to the field {kind}")
            goal_ge0(rec, ctx, (p - 1) - r, f"{fk}.{op}: result is reduced")
            goal_ge0(rec, ctx, r, f"{fk}.{op}: result non-negative")
    return Ob(f"{fk}::{op}" + (" (unreduced left operand)" if wide else ""), f)

def mul_contract(fk):
    """limb-level contract of mul (proved by binop_ob(mul, wide)): a < 2^256, b < p  =>  r < p, r*2^256 == a*b (mod p).
    The congruence is used by eliminating the low limb of r modulo p."""
    n, p = FIELDS[fk]
    def c(m, args, fn):
        ctx = m.ctx
        def g(x):
            while isinstance(x, Ref): x = m.load(x.cell, x.path)
            return total(x.f[0].items)
        A, B = g(args[0]), g(args[1])
        ok, _ = ctx.solver.prove(("ge0", (p - 1) - B))
        if not ok:
            A, B = B, A
            if not ctx.solver.prove(("ge0", (p - 1) - B))[0]:
                raise Undecided("precondition of mul not established")
        key = ("mulc", A, B)
        l = ctx.memo.get(key)
        if l is None:
            l = [ctx.int_sym(f"mulr{i}", 0, 2**64 - 1) for i in range(4)]
            ctx.memo[key] = l
            ctx.facts.append(("ge0", (p - 1) - total(l)))
            s0 = list(l[0].p.syms())[0]
            sub = (A * B).scale(pow(R, -1, p)) - (total(l) - l[0].p)
            ctx.env.setdefault("cong", []).append((s0, sub))
        return Agg([Arr(list(l))])
    return {f"{n}::mul": c}

def unop_ob(prog, fk, op):
    p = FIELDS[fk][1]
    Rinv = pow(R, -1, p)
    kind = op.rsplit("_", 1)[-1]
    def f(rec):
        def setup(ctx, m):
            a, A = elem(ctx, "a", p)
            ctx.env.update(A=A)
            if kind == "square": prod_fact(ctx, A, A, p - 1, p - 1)
            return [a if op == "op_neg" else Ref(ctx.new_cell(a))]
        for ctx, out in paths(rec, prog, f"roots::field::{fk}::{op}", setup):
            r = res_limbs(no_panic(out, op))
            A = ctx.env["A"]
            exp = -A if kind == "neg" else A.scale(2) if kind == "double" else (A * A).scale(Rinv)
            goal_cong(rec, ctx, r, exp, p, f"{fk}.{op}: result congruent to the field {kind}")
            goal_ge0(rec, ctx, (p - 1) - r, f"{fk}.{op}: result is reduced")
            goal_ge0(rec, ctx, r, f"{fk}.{op}: result non-negative")
    return Ob(f"{fk}::{op}", f)

def conv_ob(prog, fk, op):
    """integer -> field conversions"""
    p = FIELDS[fk][1]
    def f(rec):
        def setup(ctx, m):
            if op == "from_u64":
                v = word_syms(ctx, "n", 1); ctx.env["N"] = total(v); return [v[0]]
            if op == "from_u128":
                v = word_syms(ctx, "n", 1, 128); ctx.env["N"] = total(v); return [v[0]]
            if op == "from_bool":
                b = ctx.bool_sym("n"); ctx.env["N"] = b.p; return [b]
            if op == "from_raw":
                v = word_syms(ctx, "n", 4); ctx.env["N"] = total(v)
                return [Arr(v)]
            if op == "from_bytes_wide":
                v = word_syms(ctx, "n", 64, 8); ctx.env["N"] = total(v, 8)
                return [Ref(ctx.new_cell(Arr(v)))]
        for ctx, out in paths(rec, prog, f"roots::field::{fk}::{op}", setup, contracts=mul_contract(fk) if op == "from_bytes_wide" else None):
            r = res_limbs(no_panic(out, op))
            goal_cong(rec, ctx, r, ctx.env["N"].scale(R % p), p, f"{fk}.{op}: value is the integer mod p")
            goal_ge0(rec, ctx, (p - 1) - r, f"{fk}.{op}: result is reduced")
    return Ob(f"{fk}::{op}", f)

def from_repr_ob(prog, fk, op):
    p = FIELDS[fk][1]
    def f(rec):
        def setup(ctx, m):
            v = word_syms(ctx, "n", 32, 8)
            N = ctx.env["N"] = total(v, 8)
            return [Arr(v) if op == "from_repr" else Ref(ctx.new_cell(Arr(v)))]
        for ctx, out in paths(rec, prog, f"roots::field::{fk}::{op}", setup):
            r = no_panic(out, op)
            some = r.f[1].f[0]
            N = ctx.env["N"]
            canon = ctx.neg_ind(ctx.mk(N - p))
            goal_bool(rec, ctx, some, canon, f"{fk}.{op}: accepted iff the integer is below the modulus")
            el = res_limbs(r.f[0])
            goal_cong(rec, ctx, el, N.scale(R % p), p, f"{fk}.{op}: decoded value")
            # the element handed out is reduced
            goal_ge0(rec, ctx, (p - 1) - el, f"{fk}.{op}: decoded element is reduced")
    return Ob(f"{fk}::{op}", f)

def to_repr_ob(prog, fk, op):
    p = FIELDS[fk][1]
    def f(rec):
        def setup(ctx, m):
            a, A = elem(ctx, "a", p); ctx.env["A"] = A
            return [a if op == "into_bytes" else Ref(ctx.new_cell(a))]
        for ctx, out in paths(rec, prog, f"roots::field::{fk}::{op}", setup):
            v = no_panic(out, op)
            for b in v.items:
                goal_ge0(rec, ctx, b.p, "byte >= 0"); goal_ge0(rec, ctx, 255 - b.p, "byte <= 255")
            V = total(v.items, 8)
            if len(v.items) != 32: raise Failed("length")
            goal_cong(rec, ctx, V.scale(R % p), ctx.env["A"], p, f"{fk}.{op}: encodes the element's value")
            goal_ge0(rec, ctx, (p - 1) - V, f"{fk}.{op}: encoding is canonical")
    return Ob(f"{fk}::{op}", f)

def eq_ob(prog, fk, op):
    p = FIELDS[fk][1]
    def f(rec):
        def setup(ctx, m):
            a, A = elem(ctx, "a", p); b, B = elem(ctx, "b", p)
            ctx.env.update(A=A, B=B)
            return [Ref(ctx.new_cell(a)), Ref(ctx.new_cell(b))]
        for ctx, out in paths(rec, prog, f"roots::field::{fk}::{op}", setup):
            v = no_panic(out, op)
            b = v.f[0] if op == "ct_eq" else v
            goal_bool(rec, ctx, b, ctx.zero_ind(ctx.mk(ctx.env["A"] - ctx.env["B"])), f"{fk}.{op}: true iff equal values")
    return Ob(f"{fk}::{op}", f)

def is_zero_ob(prog, fk, op):
    p = FIELDS[fk][1]
    def f(rec):
        def setup(ctx, m):
            a, A = elem(ctx, "a", p); ctx.env["A"] = A
            return [Ref(ctx.new_cell(a))]
        for ctx, out in paths(rec, prog, f"roots::field::{fk}::{op}", setup):
            v = no_panic(out, op)
            b = v.f[0] if op == "is_zero" else v
            goal_bool(rec, ctx, b, ctx.zero_ind(ctx.mk(ctx.env["A"])), f"{fk}.{op}: true iff zero")
    return Ob(f"{fk}::{op}", f)

def select_ob(prog, fk):
    p = FIELDS[fk][1]
    def f(rec):
        def setup(ctx, m):
            a, A = elem(ctx, "a", p); b, B = elem(ctx, "b", p); c = ctx.bool_sym("c")
            ctx.env.update(A=A, B=B, c=c.p)
            return [Ref(ctx.new_cell(a)), Ref(ctx.new_cell(b)), Agg([c])]
        for ctx, out in paths(rec, prog, f"roots::field::{fk}::select", setup):
            r = res_limbs(no_panic(out, "select"))
            e = ctx.env
            goal_eq0(rec, ctx, r - (e["A"] + e["c"] * (e["B"] - e["A"])), f"{fk}.select")
    return Ob(f"{fk}::select", f)

def repr_contract(fk, tag="to_repr"):
    """contract of to_repr (proved by to_repr_ob): 32 bytes of the unique canonical integer V, V*R == A (mod p)"""
    p = FIELDS[fk][1]
    def c(m, args, fn):
        ctx = m.ctx
        a = args[0]
        while isinstance(a, Ref): a = m.load(a.cell, a.path)
        A = total(a.f[0].items)
        key = ("canon", fk, A)
        v = ctx.memo.get(key)
        if v is None:
            v = word_syms(ctx, "canon", 32, 8)
            ctx.memo[key] = v
            ctx.facts.append(("ge0", (p - 1) - total(v, 8)))
        ctx.env.setdefault("canon", {})[A] = v
        return Arr(list(v))
    return c
def repr_contracts(fk):
    n = FIELDS[fk][0]
    return {f"<{n} as ff::PrimeField>::to_repr": repr_contract(fk)}

def is_odd_ob(prog, fk):
    p = FIELDS[fk][1]
    def f(rec):
        def setup(ctx, m):
            a, A = elem(ctx, "a", p); ctx.env["A"] = A
            return [Ref(ctx.new_cell(a))]
        for ctx, out in paths(rec, prog, f"roots::field::{fk}::is_odd", setup, contracts=repr_contracts(fk)):
            v = no_panic(out, "is_odd")
            can = ctx.env.get("canon", {}).get(ctx.env["A"])
            if can is None: raise Undecided("is_odd does not go through to_repr")
            goal_eq0(rec, ctx, v.f[0].p - ctx.mod(can[0], 2).p, f"{fk}.is_odd: parity of the canonical integer")
    return Ob(f"{fk}::is_odd", f)

def lower_ob(prog, fk, op, bits):
    p = FIELDS[fk][1]
    def f(rec):
        def setup(ctx, m):
            a, A = elem(ctx, "a", p); ctx.env["A"] = A
            return [Ref(ctx.new_cell(a))]
        # run the function and to_repr's computation on the same element, compare the low bits
        rid2 = prog.roots[f"roots::field::{fk}::to_repr"]
        rid = prog.roots[f"roots::field::{fk}::{op}"]
        def run(ctx):
            m = Machine(prog, ctx); ctx.env = {}
            a, A = elem(ctx, "a", p); ctx.env["A"] = A
            c = ctx.new_cell(a)
            v = m.call(rid2, [Ref(c)])
            return v, m.call(rid, [Ref(c)])
        for ctx, out in explore(run):
            rec.see(ctx)
            v, lo = no_panic(out, op)
            V = total(v.items, 8)
            L = total(v.items[:bits // 8], 8)
            goal_eq0(rec, ctx, lo.p - L, f"{fk}.{op}: low bits of the canonical integer")
    return Ob(f"{fk}::{op}", f)

def cmp_ob(prog, fk, op):
    p = FIELDS[fk][1]
    def f(rec):
        def setup(ctx, m):
            a, A = elem(ctx, "a", p); b, B = elem(ctx, "b", p); ctx.env.update(A=A, B=B)
            return [Ref(ctx.new_cell(a)), Ref(ctx.new_cell(b))]
        for ctx, out in paths(rec, prog, f"roots::field::{fk}::{op}", setup, contracts=repr_contracts(fk)):
            v = no_panic(out, op)
            if op == "partial_cmp":
                goal_true(rec, v.v == 1, "partial_cmp is Some"); v = v.f[0]
            c = ctx.env.get("canon", {})
            if ctx.env["A"] not in c or ctx.env["B"] not in c: raise Undecided("no canonical form")
            d = total(c[ctx.env["A"]], 8) - total(c[ctx.env["B"]], 8)
            o = v.v - 1
            if o < 0: goal_ge0(rec, ctx, -d - 1, f"{fk}.{op}: Less only if a<b")
            elif o > 0: goal_ge0(rec, ctx, d - 1, f"{fk}.{op}: Greater only if a>b")
            else: goal_eq0(rec, ctx, d, f"{fk}.{op}: Equal only if a=b")
    return Ob(f"{fk}::{op}", f)

def raw_obs(prog, fk):
    p = FIELDS[fk][1]
    obs = []
    def mk(op, f):
        obs.append(Ob(f"{fk}::{op}", f))
    def frb(rec):
        for ln in (32, 31, 33, 0):
            def setup(ctx, m):
                v = word_syms(ctx, "n", ln, 8); ctx.env["N"] = total(v, 8)
                return [Ref(ctx.new_cell(Arr(v)), (), (0, ln))]
            for ctx, out in paths(rec, prog, f"roots::field::{fk}::from_raw_bytes", setup):
                v = no_panic(out, "from_raw_bytes")
                N = ctx.env["N"]
                if ln != 32:
                    goal_true(rec, v.v == 0, "from_raw_bytes rejects wrong lengths"); continue
                if v.v == 1:
                    goal_ge0(rec, ctx, (p - 1) - N, f"{fk}.from_raw_bytes: accepts only reduced limbs")
                    goal_eq0(rec, ctx, res_limbs(v.f[0]) - N, f"{fk}.from_raw_bytes: limbs preserved")
                else:
                    goal_ge0(rec, ctx, N - p, f"{fk}.from_raw_bytes: rejects only unreduced limbs")
    mk("from_raw_bytes", frb)
    def trb(rec):
        def setup(ctx, m):
            a, A = elem(ctx, "a", p); ctx.env["A"] = A
            return [Ref(ctx.new_cell(a))]
        for ctx, out in paths(rec, prog, f"roots::field::{fk}::to_raw_bytes", setup):
            v = no_panic(out, "to_raw_bytes")
            goal_true(rec, len(v.items) == 32, "32 bytes")
            goal_eq0(rec, ctx, total(v.items, 8) - ctx.env["A"], f"{fk}.to_raw_bytes")
    mk("to_raw_bytes", trb)
    def rdr(rec):
        for ln in (32, 40, 31, 8, 0):
            def setup(ctx, m):
                v = word_syms(ctx, "n", ln, 8); ctx.env["N"] = total(v[:32], 8)
                ctx.env["sc"] = ctx.new_cell(Ref(ctx.new_cell(Arr(v)), (), (0, ln)))
                return [Ref(ctx.env["sc"])]
            for ctx, out in paths(rec, prog, f"roots::field::{fk}::read_raw", setup):
                v = no_panic(out, "read_raw")
                if ln < 32:
                    goal_true(rec, v.v == 1, "read_raw of a short input is an error"); continue
                N = ctx.env["N"]
                goal_true(rec, ctx.cells[ctx.env["sc"]].meta == (32, ln - 32), "read_raw consumes exactly 32 bytes")
                if v.v == 0:
                    goal_ge0(rec, ctx, (p - 1) - N, f"{fk}.read_raw: accepts only reduced limbs")
                    goal_eq0(rec, ctx, res_limbs(v.f[0]) - N, f"{fk}.read_raw: limbs preserved")
                else:
                    goal_ge0(rec, ctx, N - p, f"{fk}.read_raw: rejects only unreduced limbs")
    mk("read_raw", rdr)
    def wrr(rec):
        def setup(ctx, m):
            a, A = elem(ctx, "a", p); ctx.env["A"] = A
            ctx.env["o"] = ctx.new_cell(Arr([]))
            return [Ref(ctx.new_cell(a)), Ref(ctx.env["o"])]
        for ctx, out in paths(rec, prog, f"roots::field::{fk}::write_raw", setup):
            v = no_panic(out, "write_raw")
            o = ctx.cells[ctx.env["o"]]
            goal_true(rec, v.v == 0 and len(o.items) == 32, "write_raw writes 32 bytes")
            goal_eq0(rec, ctx, total(o.items, 8) - ctx.env["A"], f"{fk}.write_raw")
    mk("write_raw", wrr)
    return obs

# ---------- abstract level: Montgomery limbs hidden behind the contracts proved above
def fe_of(m, x):
    while isinstance(x, Ref):
        x = m.load(x.cell, x.path)
    if isinstance(x, Agg) and len(x.f) == 2 and all(isinstance(y, FE) for y in x.f) and "fld2" in m.ctx.env:
        return FE(m.ctx.env["fld2"], x.f[0].p + x.f[1].p * Poly.sym(m.ctx.imag()))      # c0 + c1*u
    if not isinstance(x, FE):
        raise Unsupported(f"expected a field element, got {type(x).__name__}")
    return x
def ring_contracts(C, n, p, fld):
    """contracts of the ring operations of type n over abstract elements (polynomials with coefficients mod p)"""
    def un(g): return lambda m, a, fn: FE(fld, g(m, fe_of(m, a[0]).p).idem(m.ctx.bools).mod(p))
    def bi(g): return lambda m, a, fn: FE(fld, g(fe_of(m, a[0]).p, fe_of(m, a[1]).p).idem(m.ctx.bools).mod(p))
    def asg(g):
        def h(m, a, fn):
            x = fe_of(m, a[0])
            m.store(a[0].cell, a[0].path, FE(fld, g(x.p, fe_of(m, a[1]).p).idem(m.ctx.bools).mod(p)))
            return UNIT
        return h
    add = lambda x, y: x + y
    sub = lambda x, y: x - y
    def mul(x, y): return x * y
    for nm, g in (("add", add), ("sub", sub), ("mul", mul)):
        C[f"{n}::{nm}"] = bi(g)
        T = nm.capitalize()
        for l in (n, "&" + n):
            for rr in ("", f"<{n}>", f"<&{n}>"):
                C[f"<{l} as std::ops::{T}{rr}>::{nm}"] = bi(g)
        for rr in ("", f"<{n}>", f"<&{n}>"):
            C[f"<{n} as std::ops::{T}Assign{rr}>::{nm}_assign"] = asg(g)
    C[f"{n}::neg"] = un(lambda m, x: -x)
    for l in (n, "&" + n):
        C[f"<{l} as std::ops::Neg>::neg"] = un(lambda m, x: -x)
    for q in ("", ):
        C[f"{n}::double"] = un(lambda m, x: x.scale(2)); C[f"<{n} as ff::Field>::double"] = C[f"{n}::double"]
        C[f"{n}::square"] = un(lambda m, x: x * x); C[f"<{n} as ff::Field>::square"] = C[f"{n}::square"]
    k = lambda c: (lambda m, a, fn: FE(fld, Poly.const(c)))
    C[f"{n}::zero"] = C[f"<{n} as ff::Field>::zero"] = C[f"<{n} as std::default::Default>::default"] = k(0)
    C[f"{n}::one"] = C[f"<{n} as ff::Field>::one"] = k(1)
    C[f"<{n} as std::convert::From<bool>>::from"] = lambda m, a, fn: FE(fld, a[0].p)
    C[f"<{n} as std::convert::From<u64>>::from"] = lambda m, a, fn: FE(fld, a[0].p)
    C[f"{n}::from_raw"] = lambda m, a, fn: FE(fld, total(a[0].items).mod(p))
    def eq(m, a, fn):
        return m.ctx.fe_zero_ind(fld, fe_of(m, a[0]).p - fe_of(m, a[1]).p)
    C[f"<{n} as std::cmp::PartialEq>::eq"] = eq
    C[f"<{n} as std::cmp::PartialEq>::ne"] = lambda m, a, fn: m.ctx.not_(eq(m, a, fn))
    C[f"<{n} as subtle::ConstantTimeEq>::ct_eq"] = lambda m, a, fn: Agg([eq(m, a, fn)])
    C[f"<{n} as ff::Field>::is_zero"] = lambda m, a, fn: Agg([m.ctx.fe_zero_ind(fld, fe_of(m, a[0]).p)])
    C[f"<{n} as ff::Field>::is_zero_vartime"] = lambda m, a, fn: m.ctx.fe_zero_ind(fld, fe_of(m, a[0]).p)
    def sel(m, a, fn):
        x, y, c = fe_of(m, a[0]).p, fe_of(m, a[1]).p, m.ctx.nrm(a[2].f[0])
        if c.is_const(): return FE(fld, y if c.c() else x)
        if x == y: return FE(fld, x)
        return FE(fld, (x + c.p * (y - x)).idem(m.ctx.bools).mod(p))
    C[f"<{n} as subtle::ConditionallySelectable>::conditional_select"] = sel
    C[f"<{n} as std::clone::Clone>::clone"] = lambda m, a, fn: fe_of(m, a[0])
    C[f"{n}::mul_assign"] = asg(mul)
    def upd(g):
        def h(m, a, fn):
            m.store(a[0].cell, a[0].path, FE(fld, g(fe_of(m, a[0]).p).idem(m.ctx.bools).mod(p)))
            return UNIT
        return h
    C[f"{n}::square_assign"] = upd(lambda x: x * x)
    C[f"{n}::double_assign"] = upd(lambda x: x.scale(2))
def field_contracts(*fks, extra=None):
    """the contracts of the field types' methods, over abstract field elements"""
    C = {}
    for fk in fks:
        ring_contracts(C, FIELDS[fk][0], FIELDS[fk][1], FLD[fk])
    if extra: C.update(extra)
    return C
def adt_fields(*fks):
    return {FIELDS[fk][0]: FLD[fk] for fk in fks}

def invert_contract(fk):
    """x.invert(): Some(i) with i*x = 1 when x != 0, None when x = 0 (proved by invert_ob)"""
    n, p = FIELDS[fk]; fld = FLD[fk]
    def c(m, a, fn):
        ctx = m.ctx
        x = fe_of(m, a[0]).p.mod(p)
        z = ctx.fe_zero_ind(fld, x)
        if x.is_const():
            return Agg([FE(fld, Poly.const(pow(x.cval(), -1, p) if x.cval() else 0)), Agg([ctx.not_(z)])])
        key = ("inv", fk, x)
        s = ctx.memo.get(key)
        if s is None:
            s = ctx.sym("inv"); ctx.memo[key] = s
            ctx.env.setdefault("inverses", []).append((s, x, z))
            if z.is_const() and not z.c(): ctx.nz.append(Poly.sym(s))
        return Agg([FE(fld, Poly.sym(s)), Agg([ctx.not_(z)])])
    return {f"<{n} as ff::Field>::invert": c}

def one_fe(ctx, fld, name="x"):
    return FE(fld, Poly.sym(ctx.sym(name)))

def abs_obs(prog, fk):
    n, p = FIELDS[fk]; fld = FLD[fk]
    C = field_contracts(fk)
    # functions whose own body is under proof here are not replaced by contracts
    obs = []
    def runroot(rec, op, setup, contracts=None):
        for ctx, out in paths(rec, prog, f"roots::field::{fk}::{op}", setup, contracts=contracts or C, fields=adt_fields(fk)):
            yield ctx, no_panic(out, op)
    def const_ob(op, want, what):
        def f(rec):
            for ctx, v in runroot(rec, op, lambda ctx, m: [], contracts={}):
                got = v.p.cval() if isinstance(v, FE) else None
                if got is None: raise Undecided("constant not evaluated")
                goal_true(rec, want(got), f"{fk}.{op}: {what} (got {got:#x})", {"confirmed": True, "inputs": {"constant": hex(got)}})
        obs.append(Ob(f"{fk}::{op}", f))
    t, s = p - 1, 0
    while t % 2 == 0: t //= 2; s += 1
    state = {}
    for z in ("zero", "tr_zero", "default", "g_zero"): const_ob(z, lambda v: v == 0, "additive identity")
    for z in ("one", "tr_one"): const_ob(z, lambda v: v == 1, "multiplicative identity")
    const_ob("two_inv", lambda v: v * 2 % p == 1, "inverse of two")
    def qnr(v): return pow(v, (p - 1) // 2, p) == p - 1
    full = fk in ("bn_fr", "secp_fq")       # the two base fields leave generator / root_of_unity unimplemented
    if full: const_ob("generator", qnr, "quadratic non-residue")
    # the 2-adic constants and the cube root are placeholders (zero) where the field has no use for them
    ok0 = lambda g: (lambda v: v == 0 or g(v))
    if full: const_ob("root_of_unity", (lambda v: pow(v, 1 << s, p) == 1 and pow(v, 1 << (s - 1), p) == p - 1) if fk == "bn_fr" else
             ok0(lambda v: pow(v, 1 << s, p) == 1 and pow(v, 1 << (s - 1), p) == p - 1), "primitive 2^S-th root of unity")
    const_ob("zeta", (lambda v: pow(v, 3, p) == 1 and v != 1) if fk in ("bn_fr", "bn_fq") else ok0(lambda v: pow(v, 3, p) == 1 and v != 1), "primitive cube root of unity")
    def pair(rec):
        vals = {}
        for op in ("root_of_unity", "root_of_unity_inv", "generator", "delta") if full else ():
            for ctx, v in runroot(rec, op, lambda ctx, m: [], contracts={}):
                vals[op] = v.p.cval()
        w, wi, g, d = (vals.get(k) for k in ("root_of_unity", "root_of_unity_inv", "generator", "delta"))
        cx = {"confirmed": True, "inputs": {k: hex(v) for k, v in vals.items()}}
        if full and (fk == "bn_fr" or wi):
            goal_true(rec, w * wi % p == 1, f"{fk}: ROOT_OF_UNITY_INV inverts ROOT_OF_UNITY", cx)
        if full and (fk == "bn_fr" or d):
            goal_true(rec, d == pow(g, 1 << s, p), f"{fk}: DELTA = generator^(2^S)", cx)
        if fk == "bn_fr":
            goal_true(rec, w == pow(g, t, p), f"{fk}: ROOT_OF_UNITY = generator^t", cx)
        for op, want in (("s", s), ("num_bits", p.bit_length()), ("capacity", p.bit_length() - 1)):
            for ctx, v in runroot(rec, op, lambda ctx, m: [], contracts={}):
                if not full and op == "s": continue
                goal_true(rec, v.c() == want, f"{fk}: {op}", {"confirmed": True, "inputs": {op: v.c()}})
        for ctx, v in runroot(rec, "modulus_str", lambda ctx, m: [], contracts={}):
            st = bytes(x.c() for x in m_items(ctx, v)).decode()
            goal_true(rec, int(st, 16) == p, f"{fk}: MODULUS string", {"confirmed": True, "inputs": {"str": st}})
    obs.append(Ob(f"{fk}::constants", pair))
    def m_items(ctx, r):
        return ctx.m.slice_items(r)
    def inv(rec):
        def setup(ctx, m):
            ctx.env["x"] = x = one_fe(ctx, fld); return [Ref(ctx.new_cell(x))]
        C2 = {k: v for k, v in C.items() if not k.endswith("::invert")}
        for ctx, v in runroot(rec, "invert", setup, C2):
            x = ctx.env["x"].p
            r, some = v.f[0].p, v.f[1].f[0]
            goal_eq0(rec, ctx, some.p - (1 - ctx.fe_zero_ind(fld, x).p), f"{fk}.invert: Some iff non-zero")
            # r = x^e with e == -1 (mod p-1) is the inverse by Fermat
            if len(r.t) != 1: raise Undecided("inverse is not a power of its argument")
            (mm, c), = r.t.items()
            goal_true(rec, c % p == 1 and len(mm) == 1 and mm[0][1] % (p - 1) == p - 2, f"{fk}.invert: Some(i) has i*x = 1")
    obs.append(Ob(f"{fk}::invert", inv))
    def sq(rec):
        def setup(ctx, m):
            ctx.env["x"] = x = one_fe(ctx, fld); return [Ref(ctx.new_cell(x))]
        for ctx, v in runroot(rec, "sqrt", setup):
            x = ctx.env["x"].p
            r, some = v.f[0].p, v.f[1].f[0]
            goal_eq0(rec, ctx, some.p - ctx.fe_zero_ind(fld, (r * r - x)).p, f"{fk}.sqrt: Some(y) iff the candidate y has y*y = x")
            if p % 4 == 3:
                if len(r.t) != 1: raise Undecided("root is not a power of its argument")
                (mm, c), = r.t.items()
                e = mm[0][1]
                # x a non-zero square => (x^e)^2 = x:  2e == 1 (mod (p-1)/2)
                goal_true(rec, c % p in (1, p - 1) and (2 * e - 1) % ((p - 1) // 2) == 0, f"{fk}.sqrt: every square has a root")
    if p % 4 == 3:
        obs.append(Ob(f"{fk}::sqrt", sq))
    # pow on fixed exponents (bounded in the exponent, for every base)
    exps = [0, 1, 2, 3, 5, p - 2, (p - 1) // 2, (p + 1) // 4, 2**64 - 1, 2**64, 2**128 + 7, 2**192, 2**255 + 2**63 + 1, 2**256 - 1, 0xdeadbeefcafebabe << 100]
    def pw(op):
        def f(rec):
            for e in exps:
                def setup(ctx, m):
                    ctx.env["x"] = x = one_fe(ctx, fld)
                    ex = Arr([K((e >> (64 * i)) & (2**64 - 1)) for i in range(4)])
                    return [Ref(ctx.new_cell(x)), Ref(ctx.new_cell(ex)) if op == "pow" else ex]
                for ctx, v in runroot(rec, op, setup):
                    want = Poly({tuple(((s_, e),) for s_ in ctx.env["x"].p.syms()): 1}) if False else None
                    s_ = list(ctx.env["x"].p.syms())[0]
                    want = Poly({((s_, e),): 1}) if e else Poly.const(1)
                    goal_true(rec, v.p == want, f"{fk}.{op}: x^{e:#x}")
        return f
    for op in ("pow", "pow_vartime"):
        obs.append(Ob(f"{fk}::{op}", pw(op), bounded=f"{len(exps)} exponents, every base"))
    return obs

def pow_all_ob(prog, root, name, n, names):
    """x.pow(e) = x^e for every 256-bit e: elements x^E are represented by their exponent E (log domain)"""
    lg = Fld(n + "#log", 0)
    def f(rec):
        C = {}
        E = lambda m, x: fe_of(m, x).p
        def mk(g): return lambda m, a, fn: FE(lg, g(m, a).idem(m.ctx.bools))
        mul = mk(lambda m, a: E(m, a[0]) + E(m, a[1]))
        def asg(m, a, fn):
            m.store(a[0].cell, a[0].path, FE(lg, E(m, a[0]) + E(m, a[1]))); return UNIT
        def sq_asg(m, a, fn):
            m.store(a[0].cell, a[0].path, FE(lg, E(m, a[0]).scale(2))); return UNIT
        sq = mk(lambda m, a: E(m, a[0]).scale(2))
        sel = mk(lambda m, a: E(m, a[0]) + a[2].f[0].p * (E(m, a[1]) - E(m, a[0])))
        one = mk(lambda m, a: Poly())
        C[f"{n}::mul"] = mul; C[f"{n}::square"] = C[f"<{n} as ff::Field>::square"] = sq
        C[f"{n}::one"] = C[f"<{n} as ff::Field>::one"] = one
        C[f"{n}::mul_assign"] = asg; C[f"{n}::square_assign"] = sq_asg
        C[f"<{n} as subtle::ConditionallySelectable>::conditional_select"] = sel
        for l in (n, "&" + n):
            for rr in ("", f"<{n}>", f"<&{n}>"): C[f"<{l} as std::ops::Mul{rr}>::mul"] = mul
        for rr in ("", f"<{n}>", f"<&{n}>"): C[f"<{n} as std::ops::MulAssign{rr}>::mul_assign"] = asg
        def setup(ctx, m):
            ws = []
            for i in range(4):
                bs = [ctx.bool_sym(f"e{i}_{j}") for j in range(64)]
                p = Poly()
                for j, b in enumerate(bs): p = p + b.p.scale(1 << j)
                ws.append(ctx.mk(p, 0, 2**64 - 1))
            ctx.env["e"] = total(ws)
            return [Ref(ctx.new_cell(FE(lg, Poly.const(1)))), Ref(ctx.new_cell(Arr(ws)))]
        for ctx, out in paths(rec, prog, root, setup, contracts=C, fields={n: lg}, max_paths=4):
            v = no_panic(out, name)
            goal_true(rec, isinstance(v, FE) and not (v.p - ctx.env["e"]).t, f"{name}: x.pow(e) = x^e for all e")
    return Ob(f"{name} (every exponent)", f, timeout=120)

def arith_obs(prog):
    obs = []
    for fk in FIELDS:
        obs += [binop_ob(prog, fk, o) for o in BIN] + [binop_ob(prog, fk, "mul", True)] + [unop_ob(prog, fk, o) for o in UN]
        obs += [eq_ob(prog, fk, "ct_eq"), eq_ob(prog, fk, "eq"), select_ob(prog, fk),
                is_zero_ob(prog, fk, "is_zero"), is_zero_ob(prog, fk, "is_zero_vartime")]
        obs += abs_obs(prog, fk)
        obs.append(pow_all_ob(prog, f"roots::field::{fk}::pow", f"{fk}::pow", FIELDS[fk][0], None))
    return obs
def codec_obs(prog):
    obs = []
    for fk in FIELDS:
        obs += [conv_ob(prog, fk, o) for o in ("from_u64", "from_u128", "from_bool", "from_raw", "from_bytes_wide")]
        obs += [from_repr_ob(prog, fk, o) for o in ("from_repr", "from_bytes")]
        obs += [to_repr_ob(prog, fk, o) for o in ("to_repr", "to_bytes", "into_bytes", "into_bytes_r")]
        obs += [is_odd_ob(prog, fk), cmp_ob(prog, fk, "cmp"), cmp_ob(prog, fk, "partial_cmp")]
        obs += [lower_ob(prog, fk, "get_lower_128", 128), lower_ob(prog, fk, "get_lower_32", 32)]
        obs += raw_obs(prog, fk)
    return obs
