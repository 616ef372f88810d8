"""Contracts of the bn256 tower Fq2 / Fq6 / Fq12, over the field contract of Fq (P08).
Oracle: the single extension Fq[w]/(w^12 - 18 w^6 + 82), in which u = w^6 - 9 (u^2 = -1) and v = w^2 (v^3 = 9 + u)."""
from .common import *
from .fields import ring_contracts, field_contracts, adt_fields, fe_of, invert_contract, one_fe, repr_contract, elem, pow_all_ob
Q = FIELDS["bn_fq"][1]
FQ = FLD["bn_fq"]
N2, N6, N12 = (f"halo2curves::bn256::{x}" for x in ("Fq2", "Fq6", "Fq12"))
FLD2, FLD6 = Fld(N2, Q, base=FLD["bn_fq"]), Fld(N6, Q)
DIM = {"fq2": 2, "fq6": 6, "fq12": 12}

# ---- the oracle
def wred(c):
    c = list(c)
    for i in range(len(c) - 1, 11, -1):
        if c[i].t:
            c[i - 6] = (c[i - 6] + c[i].scale(18)).mod(Q); c[i - 12] = (c[i - 12] - c[i].scale(82)).mod(Q)
    return [x.mod(Q) for x in (c + [Poly()] * 12)[:12]]
def wmul(a, b):
    r = [Poly()] * 23
    for i, x in enumerate(a):
        if x.t:
            for j, y in enumerate(b):
                if y.t: r[i + j] = r[i + j] + x * y
    return wred(r)
def wconst(v): return [Poly.const(x % Q) for x in v]
def wmulc(a, b):
    r = [0] * 23
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b): r[i + j] += x * y
    for i in range(22, 11, -1):
        r[i - 6] += 18 * r[i]; r[i - 12] -= 82 * r[i]
    return [x % Q for x in r[:12]]
def wpowc(a, e):
    r = [1] + [0] * 11
    while e:
        if e & 1: r = wmulc(r, a)
        a = wmulc(a, a); e >>= 1
    return r
WGEN = [0, 1] + [0] * 10
_frob = {}
def wfrob_images(k):
    """w^(i q^k) for i = 0..11"""
    k %= 12
    if k not in _frob:
        g = WGEN
        for _ in range(k): g = wpowc(g, Q)
        im = [[1] + [0] * 11]
        for _ in range(11): im.append(wmulc(im[-1], g))
        _frob[k] = im
    return _frob[k]
def wfrob(a, k):
    im = wfrob_images(k)
    r = [Poly()] * 12
    for i, x in enumerate(a):
        if x.t:
            for j, c in enumerate(im[i]):
                if c: r[j] = r[j] + x.scale(c)
    return [x.mod(Q) for x in r]
def slots(dim):
    """coordinate order of the nested structs: (power of w, is-u)"""
    if dim == 2: return [(0, 0), (0, 1)]
    if dim == 6: return [(2 * j, k) for j in range(3) for k in range(2)]
    return [(2 * j + i, k) for i in range(2) for j in range(3) for k in range(2)]
def to_w(co):
    r = [Poly()] * 12
    for (m, k), x in zip(slots(len(co)), co):
        if k: r[m + 6] = r[m + 6] + x; r[m] = r[m] - x.scale(9)
        else: r[m] = r[m] + x
    return [x.mod(Q) for x in r]
# ---- reading and making values of the real types
def mk_el(ctx, co):
    d = len(co)
    fe = lambda p: FE(FQ, p)
    if d == 2: return Agg([fe(co[0]), fe(co[1])])
    if d == 6: return Agg([mk_el(ctx, co[i:i + 2]) for i in (0, 2, 4)])
    return Agg([mk_el(ctx, co[:6]), mk_el(ctx, co[6:])])
def rd_el(v, dim):
    n = {2: 2, 6: 3, 12: 2}[dim]
    if not (isinstance(v, Agg) and len(v.f) == n): raise Undecided("representation changed")
    if dim == 2:
        if not all(isinstance(x, FE) for x in v.f): raise Undecided("representation changed")
        return [v.f[0].p, v.f[1].p]
    return sum((rd_el(x, dim // n) for x in v.f), [])
def sym_el(ctx, name, dim):
    co = [Poly.sym(ctx.sym(f"{name}{i}")) for i in range(dim)]
    return mk_el(ctx, co), co
def flat(m, v):
    while isinstance(v, Ref): v = m.load(v.cell, v.path)
    return v
def same(rec, got, want, what, cex=None):
    rec.goals += 12
    for i, (a, b) in enumerate(zip(got, want)):
        d = (a - b).mod(Q)
        if d.t: raise Failed(f"{what}: coefficient of w^{i} differs by {d.show()[:120]}", cex)

FQC = lambda: field_contracts("bn_fq", extra=invert_contract("bn_fq"))
def run(rec, prog, root, setup, C=None, F=None):
    for ctx, out in paths(rec, prog, "roots::tower::" + root, setup, contracts=C or FQC(), fields=F or adt_fields("bn_fq")):
        yield ctx, no_panic(out, root)

def bin_ob(prog, fk, op):
    dim = DIM[fk]
    kind = op.rsplit("_", 1)[-1] if op != "mul_assign" else "mul"
    def f(rec):
        def setup(ctx, m):
            a, A = sym_el(ctx, "a", dim); b, B = sym_el(ctx, "b", dim)
            ctx.env.update(A=A, B=B, ca=ctx.new_cell(a))
            ra, rb = Ref(ctx.env["ca"]), Ref(ctx.new_cell(b))
            if op.startswith("op_"): return [a, b]
            if op.startswith("as_"): return [ra, b]
            return [ra, rb]
        for ctx, v in run(rec, prog, f"{fk}::{op}", setup):
            if op[:3] in ("as_", "ar_") or op == "mul_assign": v = ctx.cells[ctx.env["ca"]]
            A, B = to_w(ctx.env["A"]), to_w(ctx.env["B"])
            want = {"add": lambda: [x + y for x, y in zip(A, B)], "sub": lambda: [x - y for x, y in zip(A, B)], "mul": lambda: wmul(A, B)}[kind]()
            same(rec, to_w(rd_el(v, dim)), want, f"{fk}.{op}")
    return Ob(f"{fk}::{op}", f)
def un_ob(prog, fk, op, kind, inplace, root=None):
    dim = DIM[fk]
    def f(rec):
        def setup(ctx, m):
            a, A = sym_el(ctx, "a", dim)
            ctx.env.update(A=A, ca=ctx.new_cell(a))
            return [a if op == "op_neg" else Ref(ctx.env["ca"])]
        for ctx, v in run(rec, prog, root or f"{fk}::{op}", setup):
            if inplace: v = ctx.cells[ctx.env["ca"]]
            A = to_w(ctx.env["A"])
            want = {"neg": lambda: [-x for x in A], "double": lambda: [x.scale(2) for x in A], "square": lambda: wmul(A, A),
                    "conj2": lambda: wfrob(A, 1), "conj12": lambda: wfrob(A, 6),
                    "xi": lambda: wmul(A, wconst([0] * 6 + [1] + [0] * 5)), "v": lambda: wmul(A, wconst([0, 0, 1] + [0] * 9))}[kind]()
            same(rec, to_w(rd_el(v, dim)), want, f"{fk}.{op}")
    return Ob(f"{fk}::{op}", f)
def frob_ob(prog, fk):
    dim = DIM[fk]
    def f(rec):
        for r in range(12):
            def setup(ctx, m):
                a, A = sym_el(ctx, "a", dim); k = ctx.int_sym("k", 0, (2**64 - 1 - r) // 12)
                ctx.env.update(A=A, ca=ctx.new_cell(a))
                return [Ref(ctx.env["ca"]), ctx.mk(k.p.scale(12) + r)]
            for ctx, v in run(rec, prog, f"{fk}::frobenius", setup):
                same(rec, to_w(rd_el(ctx.cells[ctx.env["ca"]], dim)), wfrob(to_w(ctx.env["A"]), r), f"{fk}.frobenius_map(12k+{r})", {"inputs": {"power": hex(r)}})
    return Ob(f"{fk}::frobenius_map", f)
def sparse_ob(prog, root, dim, pos):
    """multiplication by the sparse element with the given coordinates; pos: power of w of each Fq2 argument"""
    def f(rec):
        def setup(ctx, m):
            a, A = sym_el(ctx, "a", dim)
            cs = [sym_el(ctx, f"c{i}", 2) for i in range(len(pos))]
            ctx.env.update(A=A, cs=[c[1] for c in cs], ca=ctx.new_cell(a))
            return [Ref(ctx.env["ca"])] + [Ref(ctx.new_cell(c[0])) for c in cs]
        for ctx, v in run(rec, prog, root, setup):
            s = [Poly()] * 12
            for c, pw in zip(ctx.env["cs"], pos):
                s = [x + y for x, y in zip(s, wmul(to_w(c), wconst([1 if i == pw else 0 for i in range(12)])))]
            same(rec, to_w(rd_el(ctx.cells[ctx.env["ca"]], dim)), wmul(to_w(ctx.env["A"]), s), root)
    return Ob(root, f)
def rank_reduce(rows, target, p):
    """is target in the span of rows (dict monomial->coef) mod p?"""
    piv = {}
    def red(r):
        r = dict(r)
        for m in sorted(r, key=repr):
            pass
        changed = True
        while True:
            hit = next((m for m in r if m in piv), None)
            if hit is None: return r
            c = r[hit]
            for m, x in piv[hit].items():
                v = (r.get(m, 0) - c * x) % p
                if v: r[m] = v
                else: r.pop(m, None)
    for r in rows:
        r = red(r)
        if r:
            m = next(iter(r)); iv = pow(r[m], -1, p)
            r = {k: v * iv % p for k, v in r.items()}
            for k2 in list(piv):
                if m in piv[k2]:
                    c = piv[k2][m]
                    for k, x in r.items():
                        v = (piv[k2].get(k, 0) - c * x) % p
                        if v: piv[k2][k] = v
                        else: piv[k2].pop(k, None)
            piv[m] = r
    return red(target)
def cyc_ob(prog):
    def f(rec):
        def setup(ctx, m):
            a, A = sym_el(ctx, "a", 12); ctx.env.update(A=A, ca=ctx.new_cell(a))
            return [Ref(ctx.env["ca"])]
        for ctx, v in run(rec, prog, "x12::cyclotomic_square", setup):
            A = to_w(ctx.env["A"])
            rel = [(x - y).mod(Q) for x, y in zip(wmul(A, wfrob(A, 4)), wfrob(A, 2))]     # f^(q^4 - q^2 + 1) = 1
            sq = wmul(A, A); got = to_w(rd_el(ctx.cells[ctx.env["ca"]], 12))
            for i in range(12):
                rec.goals += 1
                left = rank_reduce([r.t for r in rel], (got[i] - sq[i]).mod(Q).t, Q)
                if left: raise Failed(f"cyclotomic_square: coefficient of w^{i} is not that of f^2 on the cyclotomic subgroup")
    return Ob("fq12::cyclotomic_square (f^(q^4-q^2+1) = 1)", f)
def norm_ob(prog):
    def f(rec):
        def setup(ctx, m):
            a, A = sym_el(ctx, "a", 2); ctx.env.update(A=A); return [Ref(ctx.new_cell(a))]
        for ctx, v in run(rec, prog, "x2::norm", setup):
            A = to_w(ctx.env["A"]); w = wmul(A, wfrob(A, 1))
            same(rec, to_w([v.p, Poly()]), w, "fq2.norm = x * x^q")
    return Ob("fq2::norm", f)

# ---- inversion: one level at a time, over the contracts of the level below
def level_contracts(n, fld, nr):
    """ring operations + multiplication by the named non-residue symbol + invert of an abstract sub-field"""
    C = {}
    ring_contracts(C, n, Q, fld)
    def mnr(m, a, fn):
        m.store(a[0].cell, a[0].path, FE(fld, (fe_of(m, a[0]).p * Poly.sym(m.ctx.env["nr"])).mod(Q))); return UNIT
    for k in ("mul_by_nonresidue", "mul_by_xi", "mul_by_v"): C[f"{n}::{k}"] = mnr
    def inv(m, a, fn):
        ctx = m.ctx; x = fe_of(m, a[0]).p.mod(Q); z = ctx.fe_zero_ind(fld, x)
        key = ("inv", n, x); s = ctx.memo.get(key)
        if s is None:
            s = ctx.memo[key] = ctx.sym("inv"); ctx.env.setdefault("inverses", []).append((s, x, z))
            if z.is_const() and not z.c(): ctx.nz.append(Poly.sym(s))
        return Agg([FE(fld, Poly.sym(s)), Agg([ctx.not_(z)])])
    C[f"{n}::invert"] = C[f"<{n} as ff::Field>::invert"] = inv
    return C
def inv_reduce(d, invs):
    """s * x = 1 for the recorded inverses: divide d's s-part by x exactly"""
    for s, x, z in invs:
        while True:
            hi = Poly({m: c for m, c in d.t.items() if dict(m).get(s)}); lo = d - hi
            if not hi.t: break
            h1 = Poly({tuple((a, e - (a == s)) for a, e in m if e - (a == s)): c for m, c in hi.t.items()})
            q = pdiv(h1, x)
            if q is None: return d
            d = (lo + q).mod(Q)
    return d
def pdiv(a, b):
    """exact division of polynomials mod Q, or None"""
    key = lambda m: tuple(sorted(((s, e) for s, e in m), reverse=False))
    syms = sorted(a.syms() | b.syms())
    vec = lambda m: tuple(dict(m).get(s, 0) for s in syms)
    lm = max(b.t, key=vec); lc = pow(b.t[lm], -1, Q); lv = dict(lm)
    r = dict(a.t); q = {}
    while r:
        m = max(r, key=vec); mv = dict(m)
        if any(mv.get(s, 0) < e for s, e in lv.items()): return None
        qm = tuple((s, e - lv.get(s, 0)) for s, e in m if e - lv.get(s, 0))
        c = r[m] * lc % Q; q[qm] = c
        from mirvc.poly import mono_mul
        for n, x in b.t.items():
            k = mono_mul(qm, n); v = (r.get(k, 0) - c * x) % Q
            if v: r[k] = v
            else: r.pop(k, None)
    return Poly(q)
def invert_ob(prog, fk, root):
    """Some(i) => i * x = 1, over the level below; None exactly when the value inverted below is 0, which is the norm of x:
    a non-zero multiple condition is covered by x * i = 1 (so None only if norm = 0) and norm(x) = x * (cofactor)"""
    def f(rec):
        n = {"fq2": 2, "fq6": 3, "fq12": 2}[fk]
        fld, C, F = {"fq2": (FQ, FQC(), adt_fields("bn_fq")),
                     "fq6": (FLD2, level_contracts(N2, FLD2, "xi"), {N2: FLD2}),
                     "fq12": (FLD6, level_contracts(N6, FLD6, "v"), {N6: FLD6})}[fk]
        def setup(ctx, m):
            ctx.env["nr"] = ctx.sym("nr")
            A = [Poly.sym(ctx.sym(f"a{i}")) for i in range(n)]
            ctx.env["A"] = A
            return [Ref(ctx.new_cell(Agg([FE(fld, x) for x in A])))]
        for ctx, v in run(rec, prog, root, setup, C, F):
            A = ctx.env["A"]; nr = Poly.const(Q - 1) if fk == "fq2" else Poly.sym(ctx.env["nr"])
            if not ctx.env.get("inverses"): raise Undecided("invert does not reduce to the level below")
            (s, x, z), = ctx.env["inverses"]
            B = [c.p for c in v.f[0].f]
            # the body may branch on is_some: take the value it returns when Some
            pr = [Poly()] * n
            for i, a in enumerate(A):
                for j, b in enumerate(B):
                    t = a * b
                    k = i + j
                    if k >= n: k -= n; t = t * nr
                    pr[k] = (pr[k] + t).mod(Q)
            some = v.f[1].f[0]
            zz = ctx.nrm(z)
            if zz.is_const() and zz.c() == 1:
                goal_eq0(rec, ctx, some.p, f"{fk}.invert: zero norm gives None"); continue
            # selects between t and a default under is_some: evaluate with norm != 0
            zs = list(z.p.syms())
            for k in range(n):
                d = pr[k].subst({zs[0]: 0}).mod(Q) if zs else pr[k]
                d = inv_reduce(d, [(s, x, z)]) - (1 if k == 0 else 0)
                rec.goals += 1
                if d.mod(Q).t: raise Failed(f"{fk}.invert: i * x differs from 1 in coordinate {k}: {d.show()[:120]}")
            goal_eq0(rec, ctx, some.p - (1 - z.p), f"{fk}.invert: Some iff the norm is non-zero")
            # the value inverted below is the norm: it vanishes only at x = 0 (the tower is a field, by irreducibility)
            N = [Poly()] * n
            cof = [Poly() for _ in range(n)]
            for k in range(n):
                q, bad = Poly(), False
                for m_, c in B[k].subst({zs[0]: 0}).t.items() if zs else B[k].t.items():
                    dm = dict(m_)
                    if dm.get(s) != 1: raise Undecided("inverse is not cofactor * (1/norm)")
                    q = q + Poly({tuple((a, e) for a, e in m_ if a != s): c})
                cof[k] = q
            for i, a in enumerate(A):
                for j, b in enumerate(cof):
                    t = a * b; k = i + j
                    if k >= n: k -= n; t = t * nr
                    N[k] = (N[k] + t).mod(Q)
            goal_true(rec, not N[0].__sub__(x).mod(Q).t and not any(y.t for y in N[1:]), f"{fk}.invert: x * cofactor = the value inverted below")
            # x != 0 with zero norm would make x a zero divisor; cofactor non-zero at some coordinate
            goal_true(rec, any(c.t for c in cof), f"{fk}.invert: cofactor")
    return Ob(f"{fk}::{'invert' if root.endswith('invert') else 'inherent invert'}", f)
def eqz_obs(prog, fk):
    dim = DIM[fk]; obs = []
    def allz(ctx, co):
        b = TRUE
        for c in co: b = ctx.and_(b, ctx.fe_zero_ind(FQ, c))
        return b
    def decide_all(rec, op, root, mk):
        def f(rec):
            for ctx, v in run(rec, prog, root, mk):
                b = v.f[0] if isinstance(v, Agg) else v
                if fk == "fq12" and not isinstance(v, Agg): pass
                want = allz(ctx, ctx.env["D"])
                goal_eq0(rec, ctx, fin(ctx, b.p - want.p), f"{fk}.{op}")
        obs.append(Ob(f"{fk}::{op}", f))
    def one(ctx, m):
        a, A = sym_el(ctx, "a", dim); ctx.env["D"] = A; return [Ref(ctx.new_cell(a))]
    def two(ctx, m):
        a, A = sym_el(ctx, "a", dim); b, B = sym_el(ctx, "b", dim); ctx.env["D"] = [x - y for x, y in zip(A, B)]
        return [Ref(ctx.new_cell(a)), Ref(ctx.new_cell(b))]
    decide_all(None, "is_zero", f"{fk}::is_zero", one)
    decide_all(None, "ct_eq", f"{fk}::ct_eq", two)
    decide_all(None, "eq", f"x{dim}::eq", two)
    def sel(rec):
        def setup(ctx, m):
            a, A = sym_el(ctx, "a", dim); b, B = sym_el(ctx, "b", dim); c = ctx.bool_sym("c")
            ctx.env.update(A=A, B=B, c=c.p); return [Ref(ctx.new_cell(a)), Ref(ctx.new_cell(b)), Agg([c])]
        for ctx, v in run(rec, prog, f"{fk}::select", setup):
            e = ctx.env
            for g, x, y in zip(rd_el(v, dim), e["A"], e["B"]):
                rec.goals += 1
                if fin(ctx, g - (x + e["c"] * (y - x))).mod(Q).t: raise Failed(f"{fk}.select")
    obs.append(Ob(f"{fk}::conditional_select", sel))
    for op, w in (("zero", 0), ("one", 1)):
        def k(rec, op=op, w=w):
            for ctx, v in run(rec, prog, f"{fk}::{op}", lambda ctx, m: []):
                same(rec, to_w(rd_el(v, dim)), wconst([w] + [0] * 11), f"{fk}.{op}")
        obs.append(Ob(f"{fk}::{op}", k))
    return obs

# ---- Fq2 square root, over powers of one abstract Fq2 element
def sqrt_ob(prog):
    e2 = Q * Q - 1
    def f(rec):
        C = {}
        ring_contracts(C, N2, Q, FLD2)
        I = {}
        def norm(ctx, p):
            """exponents of the input live modulo q^2 - 1 (x != 0), i^2 = -1"""
            s = ctx.env["x"]; i = ctx.env["i"]; t = {}
            for m, c in p.t.items():
                d = dict(m)
                if d.get(s): d[s] %= e2
                if d.get(i):
                    if (d[i] // 2) % 2: c = -c
                    d[i] %= 2
                k = tuple(sorted((a, e) for a, e in d.items() if e))
                t[k] = (t.get(k, 0) + c) % Q
            return Poly({k: c for k, c in t.items() if c})
        def frob(m, a, fn):
            ctx = m.ctx; k = a[1].c() % 2; p = fe_of(m, a[0]).p
            if k:
                t = {}
                for mm, c in p.t.items():
                    t[tuple((s, e * Q) for s, e in mm)] = c
                p = norm(ctx, Poly(t))
            m.store(a[0].cell, a[0].path, FE(FLD2, p)); return UNIT
        C[f"{N2}::frobenius_map"] = frob
        def conj(m, a, fn): return frob(m, [a[0], K(1)], fn)
        C[f"{N2}::conjugate"] = conj
        def pw(m, a, fn):
            ctx = m.ctx; b = fe_of(m, a[0]).p
            ex = a[1]
            while isinstance(ex, Ref) and ex.meta is None: ex = m.load(ex.cell, ex.path)
            items = m.slice_items(ex) if isinstance(ex, Ref) else ex.items
            e = sum(x.c() << (64 * i) for i, x in enumerate(items))
            if len(b.t) == 1 and list(b.t.values())[0] == 1:
                (mm, c), = b.t.items()
                return FE(FLD2, norm(ctx, Poly({tuple((s, x * e) for s, x in mm): 1})))
            s = ctx.sym("pw"); ctx.env.setdefault("pows", {})[s] = (b, e)
            return FE(FLD2, Poly.sym(s))
        C["<%s as ff::Field>::pow" % N2] = pw
        C["<%s as ff::Field>::pow_vartime" % N2] = pw
        C["<%s as halo2curves::FieldExt>::pow" % N2] = pw
        def setup(ctx, m):
            ctx.env["x"] = ctx.sym("x"); ctx.env["i"] = ctx.imag(); ctx.env["fld2"] = FLD2
            return [Ref(ctx.new_cell(FE(FLD2, Poly.sym(ctx.env["x"]))))]
        seen = set()
        def decide(m):
            pass
        for ctx, v in run(rec, prog, "x2::sqrt", setup, dict(FQC(), **C), {N2: FLD2, **adt_fields("bn_fq")}):
            x = ctx.env["x"]
            some = ctx.nrm(v.f[1].f[0])
            r = norm(ctx, v.f[0].p)
            dec = {q: ctx.asg[b] for b, (k, fld, q) in ((b, d) for b, d in ctx.defs.items() if d[0] == "fz") if b in ctx.asg}
            mono = lambda e, c=1: Poly({((x, e % e2),): c} if e % e2 else {(): c})
            zx = dec.get(Poly.sym(x))
            if zx == 1:
                goal_true(rec, some.is_const() and some.c() == 1 and not r.subst({x: 0}).mod(Q).t, "sqrt(0) = Some(0)"); continue
            # which sign did the path learn for powers of x
            fs = {}
            for q, val in dec.items():
                fs[norm(ctx, q)] = val
            leg = fs.get((mono(e2 // 2) + 1).mod(Q))          # x^((q^2-1)/2) = -1 ?
            if some.is_const() and some.c() == 0:
                goal_true(rec, leg == 1, "Fq2.sqrt: None only for a non-residue"); continue
            goal_true(rec, leg == 0, "Fq2.sqrt: a root is returned only for a residue")
            # the root squared, using alpha^(q+1) = 1 for alpha = x^((q-1)/2) and the path's facts
            sq = norm(ctx, r * r)
            al = mono((Q - 1) // 2)
            am1 = fs.get((al + 1).mod(Q))
            if am1 == 1:
                # x^((q-1)/2) = -1
                (mm, c), = sq.t.items(); d = dict(mm)
                k = (d.pop(x, 0) - 1) % e2
                goal_true(rec, not d and k % ((Q - 1) // 2) == 0 and (c * (-1) ** (k // ((Q - 1) // 2)) - 1) % Q == 0, "Fq2.sqrt: root^2 = x when x^((q-1)/2) = -1")
            else:
                pows = ctx.env.get("pows", {})
                if len(sq.t) != 1: raise Undecided("shape of the root")
                (mm, c), = sq.t.items(); d = dict(mm)
                ps = [s for s in d if s in pows]
                if len(ps) != 1 or d[ps[0]] != 2: raise Undecided("shape of the root")
                b, e = pows[ps[0]]
                # b^(2e) with 2e = q - 1 and b = 1 + alpha: b^(q-1) = (1 + alpha^q)/(1 + alpha) = alpha^-1
                goal_true(rec, not (b - al - 1).mod(Q).t and 2 * e == Q - 1, "Fq2.sqrt: correction factor (1 + alpha)^((q-1)/2)")
                k = (d[x] - 1 - (Q - 1) // 2) % e2
                goal_true(rec, c == 1 and k % (e2 // 2) == 0, "Fq2.sqrt: root^2 = x")
    return Ob("fq2::sqrt", f)

def tower_obs(prog):
    obs = []
    for fk in ("fq2", "fq6", "fq12"):
        d = DIM[fk]
        obs += [bin_ob(prog, fk, o) for o in ("add", "sub", "mul", "mul_assign", "op_add", "op_sub", "op_mul", "rr_add", "rr_sub", "rr_mul", "as_add", "as_sub", "as_mul", "ar_add", "ar_sub", "ar_mul")]
        obs += [un_ob(prog, fk, o, k, i) for o, k, i in (("neg", "neg", 0), ("op_neg", "neg", 0), ("r_neg", "neg", 0), ("square", "square", 0), ("tr_square", "square", 0), ("square_assign", "square", 1),
                                                       ("double", "double", 0), ("tr_double", "double", 0), ("double_assign", "double", 1))]
        obs += [frob_ob(prog, fk), invert_ob(prog, fk, f"{fk}::invert")] + eqz_obs(prog, fk)
    obs += [invert_ob(prog, "fq2", "x2::inv"), invert_ob(prog, "fq12", "x12::inv")]
    obs += [un_ob(prog, "fq2", "conjugate", "conj2", 1, "x2::conjugate"), un_ob(prog, "fq12", "conjugate", "conj12", 1, "x12::conjugate"),
            un_ob(prog, "fq2", "mul_by_nonresidue", "xi", 1, "x2::mul_by_nonresidue"), un_ob(prog, "fq2", "mul_by_xi", "xi", 1, "x2::mul_by_xi"),
            un_ob(prog, "fq6", "mul_by_nonresidue", "v", 1, "x6::mul_by_nonresidue"), un_ob(prog, "fq6", "mul_by_v", "v", 1, "x6::mul_by_v"),
            sparse_ob(prog, "x6::mul_by_1", 6, [2]), sparse_ob(prog, "x6::mul_by_01", 6, [0, 2]),
            sparse_ob(prog, "x12::mul_by_014", 12, [0, 2, 3]), sparse_ob(prog, "x12::mul_by_034", 12, [0, 1, 3]),
            norm_ob(prog), cyc_ob(prog), sqrt_ob(prog), pow_all_ob(prog, "roots::tower::x2::pow", "fq2::pow", N2, None)]
    return obs
