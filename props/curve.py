"""Group law of the three curves (bn256 G1, G2; secp256k1), over the field contracts of their base fields.
Every operation is run on each case of the group law (identity / chord / tangent / inverse); a case is given by
parametrising the inputs by affine values, so that the case equations hold identically:  X = x*Z^2, Y = y*Z^3."""
from .common import *
from .fields import ring_contracts, field_contracts, adt_fields, fe_of, invert_contract
from .tower import FLD2, N2, Q, level_contracts
from mirvc.poly import pdiv
P_ = lambda k: FIELDS[k][1]
class Cv:
    def __init__(s, key, j, a, fld, p, C, F, scalar, b, order, h, bits):
        s.key, s.j, s.a, s.fld, s.p, s.C, s.F, s.scalar, s.b, s.order, s.h, s.bits = key, j, a, fld, p, C, F, scalar, b, order, h, bits
def curves():
    bn, sp = "halo2curves::bn256::", "halo2curves::secp256k1::"
    fr, r = FIELDS["bn_fr"]
    f1 = lambda k: (lambda: field_contracts(k, extra=invert_contract(k)))
    c2 = lambda: level_contracts(N2, FLD2, "xi")
    inv82 = pow(82, -1, Q)      # 3/(9+u) = 3*(9-u)/82
    return [Cv("g1", bn + "G1", bn + "G1Affine", FLD["bn_fq"], Q, f1("bn_fq"), adt_fields("bn_fq"), "bn_fr", (3, 0), r, 1, 254),
            Cv("g2", bn + "G2", bn + "G2Affine", FLD2, Q, c2, {N2: FLD2}, "bn_fr", (27 * inv82 % Q, -3 * inv82 % Q), r, 2 * Q - r, 254),
            Cv("secp", sp + "Secp256k1", sp + "Secp256k1Affine", FLD["secp_fp"], P_("secp_fp"), f1("secp_fp"), adt_fields("secp_fp"), "secp_fq", (7, 0), P_("secp_fq"), 1, 256)]
def crun(rec, prog, cv, op, setup, C=None, F=None, **kw):
    for ctx, out in paths(rec, prog, f"roots::curve::{cv.key}::{op}", setup, contracts=C or cv.C(), fields=F or cv.F, **kw):
        yield ctx, no_panic(out, op)
def ired(ctx, p, m):
    """i^2 = -1 for constants of the quadratic extension; boolean symbols idempotent; decided indicators substituted"""
    p = fin(ctx, p).mod(m)
    i = ctx.memo.get("imag")
    if i is not None:
        out = Poly()
        for mm, c in p.t.items():
            d = dict(mm); e = d.pop(i, 0)
            k = c * (-1 if (e // 2) % 2 else 1)
            if e % 2: d[i] = 1
            out = out + Poly({tuple(sorted(d.items())): k % m})
        p = out.mod(m)
    return p
def bconst(ctx, cv):
    c0, c1 = cv.b
    return Poly.const(c0) + (Poly.sym(ctx.imag()).scale(c1) if c1 else Poly())

def sym(ctx, n, nz=False):
    p = Poly.sym(ctx.sym(n))
    if nz: ctx.nz.append(p)
    return p
def point(ctx, cv, kind, name, pt):
    """a value of the real type; pt: None (identity) or affine (x, y)"""
    fe = lambda p: FE(cv.fld, p)
    if kind == "a":
        x, y = pt if pt else (Poly(), Poly())
        return Agg([fe(x), fe(y)])
    if pt is None:
        return Agg([fe(sym(ctx, name + "X")), fe(sym(ctx, name + "Y")), fe(Poly())])
    Z = sym(ctx, name + "Z", True)
    return Agg([fe(pt[0] * Z * Z), fe(pt[1] * Z * Z * Z), fe(Z)])
CASES = ["id id", "id P", "P id", "chord", "same", "inverse"]
def case_points(ctx, case):
    """affine values of the two operands; on the curve x1 = x2 forces y1 = +-y2, and y != 0 (odd group order)"""
    if case == "id id": return None, None
    x, y = sym(ctx, "x1"), sym(ctx, "y1", True)
    if case == "id P": return None, (x, y)
    if case == "P id": return (x, y), None
    if case == "same": return (x, y), (x, y)
    if case == "inverse": return (x, y), (x, -y)
    x2, y2 = sym(ctx, "x2"), sym(ctx, "y2", True)
    ctx.nz.append(x2 - x)
    return (x, y), (x2, y2)
def rdj(v):
    if not (isinstance(v, Agg) and len(v.f) == 3 and all(isinstance(c, FE) for c in v.f)): raise Undecided("representation changed")
    return [c.p for c in v.f]
def is_unit(ctx, p, m):
    for g in ctx.nz:
        while g.syms() <= p.syms():
            q = pdiv(p, g, m)
            if q is None: break
            p = q
    return p.is_const() and p.cval() % m != 0
def want_point(rec, ctx, cv, v, exp, what):
    """v represents the point exp: None, or (numx/den^2, numy/den^3) as polynomials"""
    X, Y, Z = (ired(ctx, c, cv.p) for c in rdj(v))
    rec.goals += 3
    cex = {"inputs": {}, "case": what}
    if exp is None:
        if Z.t: raise Failed(f"{what}: result is not the identity", cex)
        return
    nx, ny, den = exp
    if not Z.t: raise Failed(f"{what}: result is the identity", cex)
    if not is_unit(ctx, Z, cv.p):
        raise Undecided(f"{what}: z of the result not recognised as non-zero")
    for a, b, k in ((X, nx, 2), (Y, ny, 3)):
        l, r = a, b
        for _ in range(k): l, r = (l * den).mod(cv.p), (r * Z).mod(cv.p)
        d = curve_red(ctx, cv, l - r)
        if d.t: raise Failed(f"{what}: {'xy'[k - 2]} of the result is wrong", cex)
def curve_red(ctx, cv, d):
    """difference of two polynomials, reduced modulo the curve equations of the affine parameters"""
    d = ired(ctx, d, cv.p)
    for x, y in ctx.env.get("aff", []):
        if not d.t: return d
        (ys,), (xs,) = y.syms(), x.syms()
        c = Poly.sym(xs) * Poly.sym(xs) * Poly.sym(xs) + bconst(ctx, cv)
        out = Poly()
        for m, k in d.t.items():
            dm = dict(m); e = dm.get(ys, 0)
            t = Poly({tuple((s, n if s != ys else n % 2) for s, n in m if s != ys or n % 2): k})
            for _ in range(e // 2): t = t * c
            out = out + t
        d = ired(ctx, out, cv.p)
    return d
ONE = Poly.const(1)
def group_sum(p, q, case):
    if p is None: return q and (q[0], q[1], ONE)
    if q is None: return p and (p[0], p[1], ONE)
    if case == "inverse": return None
    if case == "same": return dbl(p)
    (x1, y1), (x2, y2) = p, q
    n, d = y2 - y1, x2 - x1
    nx = n * n - (x1 + x2) * d * d
    return nx, n * (x1 * d * d - nx) - y1 * d * d * d, d
def dbl(p):
    x, y = p
    n, d = (x * x).scale(3), y.scale(2)
    nx = n * n - x.scale(2) * d * d
    return nx, n * (x * d * d - nx) - y * d * d * d, d
def note_aff(ctx, *pts):
    ctx.env["aff"] = [(x, y) for x, y in {id(q): q for q in pts if q}.values() if len(y.t) == 1 and list(y.t.values()) == [1]][:2]
    seen = set(); out = []
    for x, y in ctx.env["aff"]:
        if y not in seen: seen.add(y); out.append((x, y))
    ctx.env["aff"] = out

def add_ob(prog, cv, op, k1, k2, mode, sub):
    def f(rec):
        for case in CASES:
            def setup(ctx, m):
                p, q = case_points(ctx, case)
                note_aff(ctx, p, q)
                a, b = point(ctx, cv, k1, "p", p), point(ctx, cv, k2, "q", (q[0], -q[1]) if (sub and q) else q)
                ctx.env.update(p=p, q=q, ca=ctx.new_cell(a))
                return [Ref(ctx.env["ca"]) if mode != "op" else a, Ref(ctx.new_cell(b)) if mode in ("rr", "ar") else b]
            for ctx, v in crun(rec, prog, cv, op, setup):
                if mode in ("as", "ar"): v = ctx.cells[ctx.env["ca"]]
                want_point(rec, ctx, cv, v, group_sum(ctx.env["p"], ctx.env["q"], case), f"{cv.key}.{op}: {case}")
    return Ob(f"{cv.key}::{op}", f)
def one_point(prog, cv, op, kind, byref, exp, check=None):
    """operation on one point: cases identity / non-identity"""
    def f(rec):
        for case in ("id", "P"):
            def setup(ctx, m):
                p = None if case == "id" else (sym(ctx, "x1"), sym(ctx, "y1", True))
                note_aff(ctx, p)
                a = point(ctx, cv, kind, "p", p)
                ctx.env.update(p=p, a=a)
                return [Ref(ctx.new_cell(a)) if byref else a]
            for ctx, v in crun(rec, prog, cv, op, setup):
                (check or (lambda ctx, v, e, w: want_point(rec, ctx, cv, v, e, w)))(ctx, v, exp(ctx.env["p"]) if exp else None, f"{cv.key}.{op}: {case}")
    return Ob(f"{cv.key}::{op}", f)
def affine_of(rec, ctx, cv, v, exp, what):
    """v is the affine value exp = None or (x, y)"""
    if not (isinstance(v, Agg) and len(v.f) == 2): raise Undecided("representation changed")
    got = [ired(ctx, c.p, cv.p) for c in v.f]
    want = list(exp) if exp else [Poly(), Poly()]
    rec.goals += 2
    for g, w, n in zip(got, want, "xy"):
        d = unit_red(ctx, cv, g - w)
        if d.t: raise Failed(f"{what}: affine {n} is wrong", {"inputs": {}, "case": what})
def unit_red(ctx, cv, d):
    """cancel recorded inverses s * x = 1"""
    d = ired(ctx, d, cv.p)
    for s, x, z in ctx.env.get("inverses", []):
        while True:
            hi = Poly({m: c for m, c in d.t.items() if dict(m).get(s)})
            if not hi.t: break
            h1 = Poly({tuple((a, e - (a == s)) for a, e in m if e - (a == s)): c for m, c in hi.t.items()})
            q = pdiv(h1, x, cv.p)
            if q is None: return d
            d = ired(ctx, d - hi + q, cv.p)
    return d
def const_choice(rec, ctx, b, want, what):
    if isinstance(b, Agg): b = b.f[0]
    goal_eq0(rec, ctx, b.p - (1 if want else 0), what)

def eq_ob(prog, cv, op, kind):
    def f(rec):
        for case in CASES:
            def setup(ctx, m):
                p, q = case_points(ctx, case); note_aff(ctx, p, q)
                return [Ref(ctx.new_cell(point(ctx, cv, kind, n, x))) for n, x in (("p", p), ("q", q))]
            for ctx, v in crun(rec, prog, cv, op, setup):
                b = ctx.nrm(v.f[0] if isinstance(v, Agg) else v)
                const_choice(rec, ctx, b, case in ("same", "id id"), f"{cv.key}.{op}: {case}")
    return Ob(f"{cv.key}::{op}", f)
def sel_ob(prog, cv, op, kind):
    def f(rec):
        n = 3 if kind == "j" else 2
        def setup(ctx, m):
            a, b = ([sym(ctx, f"{k}{i}") for i in range(n)] for k in "ab")
            c = ctx.bool_sym("c"); ctx.env.update(a=a, b=b, c=c)
            return [Ref(ctx.new_cell(Agg([FE(cv.fld, x) for x in l]))) for l in (a, b)] + [Agg([c])]
        for ctx, v in crun(rec, prog, cv, op, setup):
            e = ctx.env
            for x, a, b in zip(v.f, e["a"], e["b"]):
                rec.goals += 1
                if fin(ctx, x.p - a - e["c"].p * (b - a)).mod(cv.p).t: raise Failed(f"{cv.key}.{op}: second operand exactly when the choice is set")
    return Ob(f"{cv.key}::{op}", f)
def on_ob(prog, cv, op, kind):
    """membership test, for every coordinate value (also off the curve)"""
    def f(rec):
        for case in ("id", "P"):
            def setup(ctx, m):
                x, y = sym(ctx, "x"), sym(ctx, "y", case == "P" and kind == "a")
                ctx.env["xy"] = (x, y)
                a = point(ctx, cv, kind, "p", None if case == "id" else (x, y))
                ctx.env["a"] = a
                return list(a.f) if op in ("from_xy", "new_jac") else [Ref(ctx.new_cell(a))]
            for ctx, v in crun(rec, prog, cv, op, setup):
                if op in ("from_xy", "new_jac"):
                    for g, w in zip(v.f[0].f, ctx.env["a"].f): goal_true(rec, not (g.p - w.p).mod(cv.p).t, f"{cv.key}.{op}: value is the given coordinates")
                    v = v.f[1]
                b = v.f[0]
                x, y = ctx.env["xy"]
                want = TRUE if case == "id" else ctx.fe_zero_ind(cv.fld, y * y - x * x * x - bconst(ctx, cv))
                goal_eq0(rec, ctx, fin(ctx, b.p - want.p), f"{cv.key}.{op}: {case}: true exactly on the curve")
        if kind == "a":     # points with y = 0 other than the identity: x^3 = -b has to be decided the same way
            def setup(ctx, m):
                x = sym(ctx, "x", True); ctx.env["xy"] = (x, Poly())
                a = Agg([FE(cv.fld, x), FE(cv.fld, Poly())])
                return list(a.f) if op == "from_xy" else [Ref(ctx.new_cell(a))]
            for ctx, v in crun(rec, prog, cv, op, setup):
                b = (v.f[1] if op == "from_xy" else v).f[0]; x, _ = ctx.env["xy"]
                want = ctx.fe_zero_ind(cv.fld, -(x * x * x) - bconst(ctx, cv))
                goal_eq0(rec, ctx, fin(ctx, b.p - want.p), f"{cv.key}.{op}: y = 0: true exactly on the curve")
    return Ob(f"{cv.key}::{op}", f)
def norm_ob(prog, cv, n):
    def f(rec):
        import itertools
        for live in itertools.product((0, 1), repeat=n):
            def setup(ctx, m):
                ps = []
                for i, l in enumerate(live): ps.append((sym(ctx, f"x{i}"), sym(ctx, f"y{i}", True)) if l else None)
                ctx.env["ps"] = ps
                return [Arr([point(ctx, cv, "j", f"p{i}", p) for i, p in enumerate(ps)])]
            for ctx, v in crun(rec, prog, cv, f"norm{n}", setup):
                goal_true(rec, len(v.items) == n, "length")
                for i, (g, w) in enumerate(zip(v.items, ctx.env["ps"])): affine_of(rec, ctx, cv, g, w, f"{cv.key}.batch_normalize of {n} (live: {live}), entry {i}")
    return Ob(f"{cv.key}::batch_normalize of {n} points", f, bounded=f"{n} points")
# ---- constants
def emul(a, b, p): return ((a[0] * b[0] - a[1] * b[1]) % p, (a[0] * b[1] + a[1] * b[0]) % p)
def esub(a, b, p): return ((a[0] - b[0]) % p, (a[1] - b[1]) % p)
def einv(a, p):
    n = pow(a[0] * a[0] + a[1] * a[1], -1, p); return (a[0] * n % p, -a[1] * n % p)
def eadd(P, R, p):
    if P is None: return R
    if R is None: return P
    if P[0] == R[0]:
        if P[1] != R[1]: return None
        n, d = emul((3, 0), emul(P[0], P[0], p), p), emul((2, 0), P[1], p)
    else: n, d = esub(R[1], P[1], p), esub(R[0], P[0], p)
    l = emul(n, einv(d, p), p)
    x = esub(esub(emul(l, l, p), P[0], p), R[0], p)
    return x, esub(emul(l, esub(P[0], x, p), p), P[1], p)
def cval(ctx, fe, p):
    d = [0, 0]
    for m, c in fe.p.t.items():
        if m == (): d[0] = c % p
        elif m == ((ctx.memo.get("imag"), 1),): d[1] = c % p
        else: raise Undecided("constant not evaluated")
    return tuple(d)
def const_obs(prog, cv):
    obs = []
    def val(op, want, what):
        def f(rec):
            for ctx, v in crun(rec, prog, cv, op, lambda ctx, m: []):
                got = tuple(cval(ctx, x, cv.p) for x in (v.f if isinstance(v, Agg) else [v]))
                goal_true(rec, want(got), f"{cv.key}.{op}: {what}", {"confirmed": True, "inputs": {"constant": str(got)[:300]}})
        obs.append(Ob(f"{cv.key}::{op}", f))
    bb = tuple(x % cv.p for x in cv.b)
    for op in ("b", "ab"): val(op, lambda g: g == (bb,), "curve coefficient b")
    for op in ("a", "aa"): val(op, lambda g: g == ((0, 0),), "curve coefficient a = 0")
    for op in ("id_j", "def_j", "gzero"): val(op, lambda g: g[2] == (0, 0), "identity")
    for op in ("id_a", "def_a"): val(op, lambda g: g == ((0, 0), (0, 0)), "identity")
    def gen(g):
        x, y = g[0], g[1]
        if len(g) == 3:
            if g[2] == (0, 0): return False
            zi = einv(g[2], cv.p); z2 = emul(zi, zi, cv.p); x, y = emul(x, z2, cv.p), emul(y, emul(z2, zi, cv.p), cv.p)
        p = cv.p
        x3 = emul(x, emul(x, x, p), p)
        if emul(y, y, p) != tuple((a + b) % p for a, b in zip(x3, bb)): return False
        acc, base, e = None, (x, y), cv.order
        while e:
            if e & 1: acc = eadd(acc, base, p)
            base = eadd(base, base, p); e >>= 1
        return acc is None
    for op in ("gen_j", "gen_a"): val(op, gen, "generator lies on the curve and has prime order")
    return obs
# ---- multiples of a point, in the exponent
def log_contracts(cv):
    lg = Fld("log " + cv.key, 0); C = {}
    def L(m, x):
        while isinstance(x, Ref): x = m.load(x.cell, x.path)
        if not isinstance(x, FE) or x.fld is not lg: raise Unsupported("point is not under contract")
        return x.p
    mk = lambda g: (lambda m, a, fn: FE(lg, g(m, a).idem(m.ctx.bools)))
    def up(g):
        def h(m, a, fn):
            m.store(a[0].cell, a[0].path, FE(lg, g(m, a).idem(m.ctx.bools))); return UNIT
        return h
    j, a_ = cv.j, cv.a
    add, sub = (lambda m, a: L(m, a[0]) + L(m, a[1])), (lambda m, a: L(m, a[0]) - L(m, a[1]))
    for T, nm, g in (("Add", "add", add), ("Sub", "sub", sub)):
        for l in (j, a_):
            for r in (j, a_):
                for pl in ("", "&"):
                    for pr in ("", "&"):
                        C[f"<{pl}{l} as std::ops::{T}<{pr}{r}>>::{nm}"] = mk(g)
                        if l == r and pl == pr: C[f"<{pl}{l} as std::ops::{T}>::{nm}"] = mk(g)
                        if l == j:
                            C[f"<{j} as std::ops::{T}Assign<{pr}{r}>>::{nm}_assign"] = up(g)
                            if r == j: C[f"<{j} as std::ops::{T}Assign>::{nm}_assign"] = up(g)
    C[f"<{j} as group::Group>::double"] = mk(lambda m, a: L(m, a[0]).scale(2))
    for l in (j, a_):
        for pl in ("", "&"): C[f"<{pl}{l} as std::ops::Neg>::neg"] = mk(lambda m, a: -L(m, a[0]))
        C[f"<{l} as std::clone::Clone>::clone"] = mk(lambda m, a: L(m, a[0]))
        def sel(m, a, fn):
            c = m.ctx.nrm(a[2].f[0]); x, y = L(m, a[0]), L(m, a[1])
            return FE(lg, (x + c.p * (y - x)).idem(m.ctx.bools))
        C[f"<{l} as subtle::ConditionallySelectable>::conditional_select"] = sel
        C[f"<{l} as std::default::Default>::default"] = mk(lambda m, a: Poly())
    C[f"<{j} as group::Group>::identity"] = C[f"<{a_} as group::prime::PrimeCurveAffine>::identity"] = mk(lambda m, a: Poly())
    for k in (f"<{a_} as group::prime::PrimeCurveAffine>::to_curve", f"<{j} as std::convert::From<{a_}>>::from", f"<{j} as std::convert::From<&{a_}>>::from",
              f"<{j} as group::Curve>::to_affine", f"<{a_} as std::convert::From<{j}>>::from", f"<{a_} as std::convert::From<&{j}>>::from"):
        C[k] = mk(lambda m, a: L(m, a[0]))
    def isid(m, a, fn):
        e = L(m, a[0]); ctx = m.ctx
        if not e.t: return Agg([TRUE])
        k = ("isid", e); b = ctx.memo.get(k)
        if b is None: b = ctx.memo[k] = ctx.bool_sym("isid")
        ctx.env.setdefault("isid", {})[list(b.p.syms())[0]] = e
        return Agg([b])
    C[f"<{j} as group::Group>::is_identity"] = C[f"<{a_} as group::prime::PrimeCurveAffine>::is_identity"] = isid
    nfr = FIELDS[cv.scalar][0]
    def rep(m, a, fn):
        ctx = m.ctx
        by = ctx.memo.get("bits")
        if by is None:
            by = []
            for i in range(32):
                p = Poly()
                for t in range(8):
                    if 8 * i + t < cv.bits: p = p + ctx.bool_sym(f"b{8*i+t}").p.scale(1 << t)
                by.append(ctx.mk(p, 0, 255))
            ctx.memo["bits"] = by
        ctx.env["n"] = total(by, 8)
        return Arr(list(by))
    C[f"<{nfr} as ff::PrimeField>::to_repr"] = rep
    return C, lg
def mul_ob(prog, cv, op, ref, inplace=False):
    def f(rec):
        C, lg = log_contracts(cv)
        sc = FIELDS[cv.scalar][0]
        def setup(ctx, m):
            pt = FE(lg, ONE); s = FE(FLD[cv.scalar], Poly.sym(ctx.sym("s")))
            ctx.env["ca"] = ctx.new_cell(pt)
            return [Ref(ctx.env["ca"]) if ref or inplace else pt, Ref(ctx.new_cell(s)) if ref else s]
        for ctx, v in crun(rec, prog, cv, op, setup, C, dict(cv.F, **adt_fields(cv.scalar)), max_paths=8):
            if inplace: v = ctx.cells[ctx.env["ca"]]
            if "n" not in ctx.env or not isinstance(v, FE): raise Undecided("scalar multiplication is not over the group contracts")
            d = v.p - ctx.env["n"]
            # point of order `order`: coefficients modulo the order (bits stay symbolic)
            goal_true(rec, not (d.mod(cv.order).t if cv.h == 1 else d.t), f"{cv.key}.{op}: the n-fold sum for every scalar n", {"inputs": {}})
    return Ob(f"{cv.key}::{op}", f)
def cof_obs(prog, cv):
    def cc(rec):
        C, lg = log_contracts(cv)
        for ctx, v in crun(rec, prog, cv, "clear_cofactor", lambda ctx, m: [Ref(ctx.new_cell(FE(lg, ONE)))], C, cv.F):
            if not v.p.is_const(): raise Undecided("multiple")
            e = v.p.cval()
            goal_true(rec, e % cv.h == 0 and e % cv.order != 0, f"{cv.key}.clear_cofactor: multiplies by a multiple of the cofactor prime to the order", {"confirmed": True, "inputs": {"multiple": hex(e)}})
    def tf(rec):
        from math import gcd
        C, lg = log_contracts(cv)
        for ctx, v in crun(rec, prog, cv, "torsion_free", lambda ctx, m: [Ref(ctx.new_cell(FE(lg, ONE)))], C, cv.F):
            b = ctx.nrm(v.f[0])
            if b.is_const():
                goal_true(rec, cv.h == 1 and b.c() == 1, f"{cv.key}.is_torsion_free: constant answer"); continue
            s = list(b.p.syms())
            if b.p != Poly.sym(s[0]): raise Undecided("torsion test")
            e = ctx.env["isid"].get(s[0])
            if e is None or not e.is_const(): raise Undecided("torsion test")
            goal_true(rec, gcd(e.cval(), cv.order * cv.h) == cv.order, f"{cv.key}.is_torsion_free: tests r * P = identity", {"confirmed": True, "inputs": {"multiple": hex(e.cval())}})
    return [Ob(f"{cv.key}::clear_cofactor", cc), Ob(f"{cv.key}::is_torsion_free", tf)]
def sum_ob(prog, cv):
    def f(rec):
        C, lg = log_contracts(cv)
        def setup(ctx, m):
            ctx.env["s"] = [sym(ctx, f"k{i}") for i in range(3)]
            return [Arr([FE(lg, s) for s in ctx.env["s"]])]
        for ctx, v in crun(rec, prog, cv, "sum3", setup, C, cv.F):
            goal_true(rec, not (v.p - sum(ctx.env["s"], Poly())).t, f"{cv.key}.sum: sum of all points")
    return Ob(f"{cv.key}::sum of 3 points", f, bounded="3 points")
def endo_ob(prog, cv):
    """the endomorphism: keeps the curve equation and acts as multiplication by a fixed scalar (checked on the generator)"""
    def f(rec):
        for case in ("id", "P"):
            def setup(ctx, m):
                p = None if case == "id" else (sym(ctx, "x1"), sym(ctx, "y1", True))
                note_aff(ctx, p); ctx.env["p"] = p
                return [Ref(ctx.new_cell(point(ctx, cv, "j", "p", p)))]
            for ctx, out in paths(rec, prog, "roots::curve::endo_g1", setup, contracts=cv.C(), fields=cv.F):
                v = no_panic(out, "endo")
                X, Y, Z = rdj(v)
                if case == "id":
                    goal_true(rec, not Z.t, "endo: identity to identity"); continue
                goal_true(rec, is_unit(ctx, Z, cv.p), "endo: non-identity to non-identity")
                d = curve_red(ctx, cv, Y * Y - X * X * X - bconst(ctx, cv) * Z * Z * Z * Z * Z * Z)
                goal_true(rec, not d.t, "endo: image lies on the curve")
                # x -> beta x with beta^3 = 1, beta != 1
                x, y = ctx.env["p"]
                q = pdiv(X, x, cv.p); q2 = q and pdiv(q, (Z * Z).mod(cv.p), cv.p)
                if not q2 or not q2.is_const(): raise Undecided("endomorphism has another form")
                goal_true(rec, q2.cval() != 1 and pow(q2.cval(), 3, cv.p) == 1, "endo: x is multiplied by a primitive cube root of one")
    return Ob(f"{cv.key}::endo", f)
def curve_obs(prog):
    obs = []
    for cv in curves():
        for k in ("jj", "ja", "aj", "aa"):
            for pre, sub in (("", 0), ("s", 1)):
                for mode in ("rr", "op"): obs.append(add_ob(prog, cv, f"{pre}{mode}_{k}", k[0], k[1], mode, sub))
                if k[0] == "j":
                    for mode in ("as", "ar"): obs.append(add_ob(prog, cv, f"{pre}{mode}_{k}", k[0], k[1], mode, sub))
        obs.append(add_ob(prog, cv, "gadd", "j", "j", "ar", 0)); obs.append(add_ob(prog, cv, "gsub", "j", "j", "ar", 1))
        obs.append(one_point(prog, cv, "double", "j", True, lambda p: p and dbl(p)))
        ng = lambda p: p and (p[0], -p[1], ONE)
        obs.append(one_point(prog, cv, "neg_j", "j", False, ng)); obs.append(one_point(prog, cv, "rneg_j", "j", True, ng))
        for op, byref in (("neg_a", False), ("rneg_a", True)):
            def f(rec, cv=cv, op=op, byref=byref):
                def setup(ctx, m):
                    ctx.env["xy"] = (sym(ctx, "x"), sym(ctx, "y"))
                    a = Agg([FE(cv.fld, c) for c in ctx.env["xy"]]); return [Ref(ctx.new_cell(a)) if byref else a]
                for ctx, v in crun(rec, prog, cv, op, setup): affine_of(rec, ctx, cv, v, (ctx.env["xy"][0], -ctx.env["xy"][1]), f"{cv.key}.{op}")
            obs.append(Ob(f"{cv.key}::{op}", f))
        for op in ("to_curve", "cur_from"): obs.append(one_point(prog, cv, op, "a", op == "to_curve", lambda p: p and (p[0], p[1], ONE)))
        for op in ("to_affine", "aff_from"):
            def chk(cv=cv, op=op):
                def f(rec):
                    for case in ("id", "P"):
                        def setup(ctx, m):
                            p = None if case == "id" else (sym(ctx, "x1"), sym(ctx, "y1", True)); ctx.env["p"] = p
                            a = point(ctx, cv, "j", "p", p); return [Ref(ctx.new_cell(a)) if op == "to_affine" else a]
                        for ctx, v in crun(rec, prog, cv, op, setup): affine_of(rec, ctx, cv, v, ctx.env["p"], f"{cv.key}.{op}: {case}")
                return Ob(f"{cv.key}::{op}", f)
            obs.append(chk())
        for op, kind in (("eq_j", "j"), ("ct_eq_j", "j"), ("eq_a", "a"), ("ct_eq_a", "a")): obs.append(eq_ob(prog, cv, op, kind))
        obs += [sel_ob(prog, cv, "sel_j", "j"), sel_ob(prog, cv, "sel_a", "a")]
        for op, kind in (("on_j", "j"), ("on_a", "a"), ("from_xy", "a"), ("new_jac", "j")): obs.append(on_ob(prog, cv, op, kind))
        for op, kind in (("is_id_j", "j"), ("is_id_a", "a")):
            def f(rec, cv=cv, op=op, kind=kind):
                for case in ("id", "P"):
                    def setup(ctx, m):
                        p = None if case == "id" else (sym(ctx, "x1"), sym(ctx, "y1", True)); return [Ref(ctx.new_cell(point(ctx, cv, kind, "p", p)))]
                    for ctx, v in crun(rec, prog, cv, op, setup): const_choice(rec, ctx, v, case == "id", f"{cv.key}.{op}: {case}")
            obs.append(Ob(f"{cv.key}::{op}", f))
        def jc(rec, cv=cv):
            def setup(ctx, m):
                ctx.env["v"] = [sym(ctx, n) for n in "xyz"]; return [Ref(ctx.new_cell(Agg([FE(cv.fld, c) for c in ctx.env["v"]])))]
            for ctx, v in crun(rec, prog, cv, "jac_coords", setup):
                goal_true(rec, [c.p for c in v.f] == ctx.env["v"], f"{cv.key}.jacobian_coordinates")
        obs.append(Ob(f"{cv.key}::jac_coords", jc))
        for n in range(4): obs.append(norm_ob(prog, cv, n))
        obs += const_obs(prog, cv)
        for op, ref, inp in (("mul_j", 0, 0), ("mul_a", 0, 0), ("rmul_j", 1, 0), ("rmul_a", 1, 0), ("amul_j", 0, 1), ("gscale", 1, 1)): obs.append(mul_ob(prog, cv, op, ref, inp))
        obs += cof_obs(prog, cv)
        obs.append(sum_ob(prog, cv))
        if cv.key == "g1": obs.append(endo_ob(prog, cv))
    return obs
