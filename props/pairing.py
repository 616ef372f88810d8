"""The optimal-ate pairing on bn256: Miller loop, line functions, final exponentiation, target group."""
from .tower import *
from .tower import run as trun
BN_U = 4965661367192848881
FR = FIELDS["bn_fr"][1]
N1A, N2A, NG2 = "halo2curves::bn256::G1Affine", "halo2curves::bn256::G2Affine", "halo2curves::bn256::G2"
def frun(rec, prog, root, setup, C, F, **kw):
    for ctx, out in paths(rec, prog, root, setup, contracts=C, fields=F, **kw):
        yield ctx, no_panic(out, root)
C2 = lambda: level_contracts(N2, FLD2, "xi")
def ratio(rec, lhs, rhs, what):
    rec.goals += 1
    d = (lhs - rhs).mod(Q)
    if d.t: raise Failed(f"{what}: {d.show()[:160]}")
def step_ob(prog, kind):
    """line through T (tangent) / through T and q, evaluated at P as A*yP + B*xP*w + C*w^3; T <- 2T / T + q (Jacobian)"""
    def f(rec):
        def setup(ctx, m):
            ctx.env["nr"] = ctx.sym("nr")
            n = ["X", "Y", "Z"] + (["qx", "qy"] if kind == "addition" else [])
            v = [Poly.sym(ctx.sym(k)) for k in n]
            ctx.env["v"] = v; ctx.env["r"] = ctx.new_cell(Agg([FE(FLD2, x) for x in v[:3]]))
            return [Ref(ctx.env["r"])] + ([Ref(ctx.new_cell(Agg([FE(FLD2, x) for x in v[3:]])))] if kind == "addition" else [])
        for ctx, v in frun(rec, prog, f"fn:G2Prepared::from_affine::{kind}_step", setup, C2(), {N2: FLD2}):
            X, Y, Z = ctx.env["v"][:3]
            r = ctx.cells[ctx.env["r"]]
            X3, Y3, Z3 = (c.p for c in r.f)
            A, B, Cc = (c.p for c in v.f)
            if kind == "doubling":
                # slope = num / den, line through (X/Z^2, Y/Z^3)
                num, den = (X * X).scale(3), (Y * Z).scale(2)
                base = (X, Y, Z)
                xs = X.scale(2)                    # (xT + xT) * Z^2
                good = Y * Z
            else:
                qx, qy = ctx.env["v"][3:]
                Hh = qx * Z * Z - X
                num, den = qy * Z * Z * Z - Y, Z * Hh
                xs = X + qx * Z * Z
                good = Z * Hh
            # A is a non-zero constant times factors that do not vanish for T of order r (T != +-q)
            def unit(pz, what):
                t = pz; n = 0
                g2 = [Z, Y] if kind == "doubling" else [Z, Hh]
                for g in g2:
                    while True:
                        q = pdiv(t, g)
                        if q is None: break
                        t = q
                goal_true(rec, t.is_const() and t.cval() % Q != 0, f"{kind}_step: {what} is non-zero")
            unit(A, "scale of the line"); unit(Z3, "new z")
            ratio(rec, B * den, -(num * A), f"{kind}_step: coefficient of xP is -slope")
            if kind == "doubling":
                # C/A = slope*xT - yT:   C*den*Z^3 = A*(num*X*Z - Y*den)
                ratio(rec, Cc * den * Z * Z * Z, A * (num * X * Z - Y * den), "doubling_step: constant coefficient of the line")
            else:
                ratio(rec, Cc * den, A * (num * qx - qy * den), "addition_step: constant coefficient of the line")
            # x3 = slope^2 - xT - xq ; y3 = slope*(xT - x3) - yT      (affine values X3/Z3^2, Y3/Z3^3)
            ratio(rec, X3 * den * den * Z * Z, Z3 * Z3 * (num * num * Z * Z - xs * den * den), f"{kind}_step: x of the new point")
            Z2, Z33 = Z * Z, Z3 * Z3 * Z3
            ratio(rec, Y3 * den * Z2 * Z, Z3 * (num * Z * (X * Z3 * Z3 - X3 * Z2)) - Y * den * Z33, f"{kind}_step: y of the new point")
    return Ob(f"G2Prepared::{kind}_step", f)
def ell_ob(prog):
    def f(rec):
        def setup(ctx, m):
            a, A = sym_el(ctx, "f", 12)
            cs = [sym_el(ctx, f"c{i}", 2) for i in range(3)]
            P = [Poly.sym(ctx.sym("px")), Poly.sym(ctx.sym("py"))]
            ctx.env.update(A=A, cs=[c[1] for c in cs], ca=ctx.new_cell(a), P=P)
            return [Ref(ctx.env["ca"]), Ref(ctx.new_cell(Agg([c[0] for c in cs]))), Ref(ctx.new_cell(Agg([FE(FQ, x) for x in P])))]
        for ctx, v in frun(rec, prog, "fn:multi_miller_loop::ell", setup, FQC(), adt_fields("bn_fq")):
            px, py = ctx.env["P"]; s = [Poly()] * 12
            for c, pw, k in zip(ctx.env["cs"], (0, 1, 3), (py, px, Poly.const(1))):
                s = [x + y * k for x, y in zip(s, wmul(to_w(c), wconst([1 if i == pw else 0 for i in range(12)])))]
            same(rec, to_w(rd_el(ctx.cells[ctx.env["ca"]], 12)), wmul(to_w(ctx.env["A"]), s), "ell: f * (A*yP + B*xP*w + C*w^3)")
    return Ob("multi_miller_loop::ell", f)

# ---- prepared lines: which lines are pushed, in which order
def twist_frob(co, k):
    """psi^-1 . Frob^k . psi on a twist coordinate pair given as (x coords, y coords): x -> x^(q^k) * w^(2(q^k-1))"""
    out = []
    for c, e in ((co[0], 2), (co[1], 3)):
        x = to_w(c)
        shift = wconst([1 if i == e else 0 for i in range(12)])
        y = wfrob(wmul(x, shift), k)
        winv = wconst(wpowc(WGEN, Q ** 12 - 1 - e))
        out.append(wmul(y, winv))
    return out
def lines_of(rec, prog, root="roots::tower::pairing::prepare"):
    """run from_affine; returns the ghost list of lines, each (T, q) with points as (a, b, c) = aQ + b*piQ + c*(-pi^2 Q)"""
    res = []
    def setup(ctx, m):
        x, X = sym_el(ctx, "qx", 2); y, Y = sym_el(ctx, "qy", 2)
        ctx.env.update(q=(X, Y), lines=[])
        return [Agg([x, y])]
    def rdp(m, a):
        v = flat(m, a); return v
    def point(m, a):
        v = flat(m, a)
        if isinstance(v, Nat) and v.kind == "pt": return v.v
        co = [rd_el(x, 2) for x in v.f]
        q = m.ctx.env["q"]
        if len(co) == 3:
            z = to_w(co[2])
            for i, p in enumerate(z):
                if not m.ctx.solver.prove(("eq0", fin(m.ctx, p - (1 if i == 0 else 0))))[0]: raise Undecided("start point is not normalised")
        ws = [to_w(c) for c in co[:2]]
        cand = {(1, 0, 0): [to_w(q[0]), to_w(q[1])], (0, 1, 0): twist_frob(q, 1), (0, 0, -1): twist_frob(q, 2)}
        for k, (cx, cy) in cand.items():
            if all(not (a_ - b_).mod(Q).t for a_, b_ in zip(ws[0], cx)):
                if all(not (a_ - b_).mod(Q).t for a_, b_ in zip(ws[1], cy)): return k
                if all(not (a_ + b_).mod(Q).t for a_, b_ in zip(ws[1], cy)): return tuple(-i for i in k)
        raise Failed("addition_step: the added point is none of Q, -Q, +-pi(Q), +-pi^2(Q)")
    def dbl(m, a, fn):
        t = point(m, a[0]); m.ctx.env["lines"].append((t, t))
        m.store(a[0].cell, a[0].path, Nat("pt", v=tuple(2 * i for i in t)))
        return Agg([Nat("ln", i=len(m.ctx.env["lines"]) - 1, c=k) for k in range(3)])
    def add(m, a, fn):
        t, q = point(m, a[0]), point(m, a[1]); m.ctx.env["lines"].append((t, q))
        m.store(a[0].cell, a[0].path, Nat("pt", v=tuple(i + j for i, j in zip(t, q))))
        return Agg([Nat("ln", i=len(m.ctx.env["lines"]) - 1, c=k) for k in range(3)])
    C = FQC()
    hit = 0
    for n, ids in prog.byname.items():
        if n.endswith("from_affine::doubling_step"): C[n] = dbl; hit += 1
        if n.endswith("from_affine::addition_step"): C[n] = add; hit += 1
    if hit != 2: raise Undecided("doubling_step / addition_step not found")
    for ctx, v in frun(rec, prog, root, setup, C, adt_fields("bn_fq")):
        idq = TRUE
        for c in ctx.env["q"][0] + ctx.env["q"][1]: idq = ctx.and_(idq, ctx.fe_zero_ind(FQ, c))
        idq = ctx.nrm(idq)
        if not idq.is_const():
            # decide by the solver under the path condition
            if ctx.solver.prove(("eq0", fin(ctx, idq.p)))[0]: idq = FALSE
            elif ctx.solver.prove(("eq0", fin(ctx, 1 - idq.p)))[0]: idq = TRUE
            else: raise Undecided("identity test")
        vec, inf = v.f
        inf = ctx.nrm(inf)
        goal_true(rec, inf.is_const() and inf.c() == idq.c(), "G2Prepared::from_affine: infinity flag set exactly for the identity")
        items = seq_items(ctx, vec)
        if idq.c(): continue
        order = []
        for it in items:
            if not (isinstance(it, Agg) and len(it.f) == 3 and all(isinstance(x, Nat) and x.kind == "ln" and x.c == k and x.i == it.f[0].i for k, x in enumerate(it.f))):
                raise Failed("G2Prepared::from_affine: a coefficient triple is not the one its step returned")
            order.append(ctx.env["lines"][it.f[0].i])
        res.append(order)
    return res
def seq_items(ctx, v):
    if isinstance(v, Arr): return v.items
    if isinstance(v, Agg) and len(v.f) == 1: return seq_items(ctx, v.f[0])
    if isinstance(v, Ref): return seq_items(ctx, ctx.m.load(v.cell, v.path))
    raise Undecided("coefficient list is symbolic")
def miller_mults(rec, prog, nlines, npairs):
    """run multi_miller_loop; per path: set of live pairs and multiplicity of every line in the result"""
    def setup(ctx, m):
        args = []
        ctx.env["p"] = []
        for k in range(npairs):
            P = [Poly.sym(ctx.sym(f"px{k}")), Poly.sym(ctx.sym(f"py{k}"))]
            inf = ctx.bool_sym(f"inf{k}")
            ctx.env["p"].append((P, inf))
            co = Arr([Agg([Nat("ln", i=i, c=c, pair=k) for c in range(3)]) for i in range(nlines)])
            args += [Ref(ctx.new_cell(Agg([FE(FQ, x) for x in P]))), Ref(ctx.new_cell(Agg([co, inf])))]
        return args
    lg = Fld("miller", 0)
    C = FQC()
    def fsum(m, a):
        v = flat(m, a)
        if isinstance(v, Nat) and v.kind == "f": return v.d
        raise Undecided("Miller accumulator is not under contract")
    def sq(m, a, fn):
        d = fsum(m, a[0]); m.store(a[0].cell, a[0].path, Nat("f", d={k: 2 * x for k, x in d.items()})); return UNIT
    def sqr(m, a, fn): return Nat("f", d={k: 2 * x for k, x in fsum(m, a[0]).items()})
    def one(m, a, fn): return Nat("f", d={})
    def mulc(m, a, fn):
        d, e = dict(fsum(m, a[0])), fsum(m, a[1])
        for k, x in e.items(): d[k] = d.get(k, 0) + x
        return Nat("f", d=d)
    def ell(m, a, fn):
        d = dict(fsum(m, a[0])); c = flat(m, a[1]); p = flat(m, a[2])
        i, pair = c.f[0].i, c.f[0].pair
        if not all(isinstance(x, Nat) and x.i == i and x.c == k and x.pair == pair for k, x in enumerate(c.f)): raise Undecided("line triple")
        P = m.ctx.env["p"][pair][0]
        if [x.p for x in p.f] != P: raise Failed("multi_miller_loop: a line of one pair is evaluated at another pair's point")
        d[(pair, i)] = d.get((pair, i), 0) + 1
        m.store(a[0].cell, a[0].path, Nat("f", d=d)); return UNIT
    C.update({f"{N12}::square_assign": sq, f"{N12}::square": sqr, f"<{N12} as ff::Field>::square": sqr, f"{N12}::one": one, f"<{N12} as ff::Field>::one": one, f"{N12}::mul": mulc})
    hit = [n for n in prog.byname if n.endswith("multi_miller_loop::ell")]
    if len(hit) != 1: raise Undecided("ell not found")
    C[hit[0]] = ell
    for ctx, out in paths(rec, prog, f"roots::tower::pairing::miller{npairs}", setup, contracts=C, fields=adt_fields("bn_fq")):
        if out[0] != "ok": raise Failed(f"multi_miller_loop panics on {nlines} prepared lines per pair: {out[1]}")
        v = out[1]
        live = []
        for P, inf in ctx.env["p"]:
            z = ctx.nrm(ctx.or_(inf, ctx.and_(ctx.fe_zero_ind(FQ, P[0]), ctx.fe_zero_ind(FQ, P[1]))))
            if not z.is_const():
                if ctx.solver.prove(("eq0", fin(ctx, z.p)))[0]: z = FALSE
                elif ctx.solver.prove(("eq0", fin(ctx, 1 - z.p)))[0]: z = TRUE
                else: raise Undecided("identity test")
            live.append(not z.c())
        yield live, v.f[0].d
def divisor_ob(prog, npairs, root="roots::tower::pairing::prepare"):
    """the product of the lines has divisor s(Q) + (piQ) + (-pi^2 Q) - (sQ + piQ - pi^2 Q) - ... modulo vertical lines, s = 6u+2"""
    def f(rec):
        ls = lines_of(rec, prog, root)
        if not ls: raise Undecided("no path")
        s = 6 * BN_U + 2
        for order in ls:
            for live, d in miller_mults(rec, prog, len(order), npairs):
                for k, lv in enumerate(live):
                    div = {}
                    def ad(pt, c):
                        if pt == (0, 0, 0): return
                        div[pt] = div.get(pt, 0) + c
                        if not div[pt]: div.pop(pt)
                    for (pair, i), mult in d.items():
                        if pair != k: continue
                        t, q = order[i]
                        ad(t, mult); ad(q, mult); ad(tuple(a + b for a, b in zip(t, q)), -mult)
                    # (-Q) = -(Q) modulo verticals
                    norm = {}
                    for pt, c in div.items():
                        lead = next(x for x in pt if x)
                        if lead < 0: pt, c = tuple(-x for x in pt), -c
                        norm[pt] = norm.get(pt, 0) + c
                    norm = {p: c for p, c in norm.items() if c}
                    want = {(1, 0, 0): s, (0, 1, 0): 1, (0, 0, 1): 1, (s, 1, 1): -1} if lv else {}
                    goal_true(rec, norm == want, f"Miller loop: divisor of pair {k} ({'live' if lv else 'identity'}) is not that of the optimal ate function: "
                              f"{sorted((tuple(p), c) for p, c in norm.items())[:4]}")
    return Ob(f"multi_miller_loop: {npairs} pair(s)" + (" via From" if root.endswith("2") else ""), f)

# ---- final exponentiation in the exponent
ORD = Q ** 12 - 1
PHI = Q ** 4 - Q ** 2 + 1
def log12():
    n = N12; lg = Fld("log12", 0); C = {}
    E = lambda m, x: fe_of(m, x).p
    red = lambda p: Poly({k: c % ORD for k, c in p.t.items() if c % ORD})
    def mk(g): return lambda m, a, fn: FE(lg, red(g(m, a).idem(m.ctx.bools)))
    def up(g):
        def h(m, a, fn):
            m.store(a[0].cell, a[0].path, FE(lg, red(g(m, a).idem(m.ctx.bools)))); return UNIT
        return h
    mul = lambda m, a: E(m, a[0]) + E(m, a[1])
    sq = lambda m, a: E(m, a[0]).scale(2)
    def cyc(m, a):
        e = E(m, a[0])
        if red(e.scale(PHI)).t: raise Failed("cyclotomic_square is applied outside the cyclotomic subgroup")
        return e.scale(2)
    C[f"{n}::mul"] = mk(mul); C[f"{n}::mul_assign"] = up(mul)
    for l in (n, "&" + n):
        for rr in ("", f"<{n}>", f"<&{n}>"): C[f"<{l} as std::ops::Mul{rr}>::mul"] = mk(mul)
    for rr in ("", f"<{n}>", f"<&{n}>"): C[f"<{n} as std::ops::MulAssign{rr}>::mul_assign"] = up(mul)
    C[f"{n}::square"] = C[f"<{n} as ff::Field>::square"] = mk(sq); C[f"{n}::square_assign"] = up(sq)
    C[f"{n}::cyclotomic_square"] = up(cyc)
    C[f"{n}::conjugate"] = up(lambda m, a: E(m, a[0]).scale(Q ** 6))
    C[f"{n}::frobenius_map"] = up(lambda m, a: E(m, a[0]).scale(Q ** (a[1].c() % 12)))
    C[f"{n}::one"] = C[f"<{n} as ff::Field>::one"] = mk(lambda m, a: Poly())
    C[f"{n}::invert"] = C[f"<{n} as ff::Field>::invert"] = lambda m, a, fn: Agg([FE(lg, red(-E(m, a[0]))), Agg([TRUE])])
    C[f"<{n} as subtle::ConditionallySelectable>::conditional_select"] = mk(lambda m, a: E(m, a[0]) + a[2].f[0].p * (E(m, a[1]) - E(m, a[0])))
    C[f"<{n} as std::default::Default>::default"] = mk(lambda m, a: Poly.sym(m.ctx.sym("default")))
    C[f"<{n} as std::clone::Clone>::clone"] = mk(lambda m, a: E(m, a[0]))
    return C, {n: lg}, lg
def finexp_ob(prog):
    def f(rec):
        C, F, lg = log12()
        def setup(ctx, m): return [Ref(ctx.new_cell(Agg([FE(lg, Poly.const(1))])))]
        for ctx, v in frun(rec, prog, "roots::tower::pairing::final_exp", setup, C, F):
            e = v.f[0].p
            if not e.is_const(): raise Undecided("exponent")
            e = e.cval() % ORD
            h = ORD // FR
            goal_true(rec, e % h == 0, "final_exponentiation: the exponent is a multiple of (q^12-1)/r")
            goal_true(rec, (e // h) % FR != 0, "final_exponentiation: the exponent is non-degenerate")
    return Ob("final_exponentiation", f)
def gt_obs(prog):
    obs = []
    def g(op, want, n):
        def f(rec):
            C, F, lg = log12()
            def setup(ctx, m):
                s = [Poly.sym(ctx.sym("ab"[i])) for i in range(n)]
                ctx.env["s"] = s
                return [Ref(ctx.new_cell(Agg([FE(lg, x)]))) for x in s]
            for ctx, v in frun(rec, prog, f"roots::tower::pairing::gt_{op}", setup, C, F):
                e = v.f[0].p - want(ctx.env["s"])
                # elements of the target group: exponents modulo r times (q^12-1)/r, i.e. coefficients modulo r; q^6 = -1 mod r
                goal_true(rec, not Poly({k: c % FR for k, c in e.t.items() if c % FR}).t, f"Gt.{op}")
        obs.append(Ob(f"Gt::{op}", f))
    g("add", lambda s: s[0] + s[1], 2); g("sub", lambda s: s[0] - s[1], 2); g("neg", lambda s: -s[0], 1)
    g("double", lambda s: s[0].scale(2), 1); g("tr_double", lambda s: s[0].scale(2), 1); g("id", lambda s: Poly(), 0)
    def isid(rec):
        def setup(ctx, m):
            a, A = sym_el(ctx, "a", 12); ctx.env["A"] = A; return [Ref(ctx.new_cell(Agg([a])))]
        for ctx, v in frun(rec, prog, "roots::tower::pairing::gt_is_id", setup, FQC(), adt_fields("bn_fq")):
            b = TRUE
            for i, c in enumerate(ctx.env["A"]): b = ctx.and_(b, ctx.fe_zero_ind(FQ, c - (1 if i == 0 else 0)))
            goal_eq0(rec, ctx, fin(ctx, v.f[0].p - b.p), "Gt.is_identity: true exactly for one")
    obs.append(Ob("Gt::is_identity", isid))
    def sm(rec):
        C, F, lg = log12()
        nfr = FIELDS["bn_fr"][0]
        def rep(m, a, fn):
            ctx = m.ctx
            by = []
            for i in range(32):
                p = Poly()
                for j in range(8):
                    if 8 * i + j < 254: p = p + ctx.bool_sym(f"b{8*i+j}").p.scale(1 << j)
                by.append(ctx.mk(p, 0, 255))
            ctx.env["n"] = total(by, 8)
            return Arr(by)
        C[f"<{nfr} as ff::PrimeField>::to_repr"] = rep
        def setup(ctx, m): return [Ref(ctx.new_cell(Agg([FE(lg, Poly.const(1))]))), Ref(ctx.new_cell(FE(FLD["bn_fr"], Poly.sym(ctx.sym("s")))))]
        for ctx, v in frun(rec, prog, "roots::tower::pairing::gt_mul", setup, C, dict(F, **adt_fields("bn_fr")), max_paths=4):
            d = v.f[0].p - ctx.env["n"]
            goal_true(rec, not d.t, "Gt * s is the s-fold sum for every scalar")
    obs.append(Ob("Gt::mul scalar", sm))
    return obs
def pair_ob(prog, op, order):
    """pairing(p, q) = final_exponentiation(miller([(p, prepare(q))]))"""
    def f(rec):
        C = FQC()
        for n in prog.byname:
            if n.endswith("G2Prepared::from_affine"): C[n] = lambda m, a, fn: Nat("prep", q=flat(m, a[0]))
            if n.endswith("bn256::multi_miller_loop"):
                def ml(m, a, fn):
                    it = m.slice_items(a[0])
                    return Nat("ml", t=[(flat(m, x.f[0]), flat(m, x.f[1])) for x in it])
                C[n] = ml
            if n.endswith("MillerLoopResult>::final_exponentiation"): C[n] = lambda m, a, fn: Nat("fe", x=flat(m, a[0]))
        def setup(ctx, m):
            P = Agg([FE(FQ, Poly.sym(ctx.sym(f"p{i}"))) for i in range(2)])
            q = Agg([sym_el(ctx, "qx", 2)[0], sym_el(ctx, "qy", 2)[0]])
            ctx.env.update(P=P, q=q)
            r = [Ref(ctx.new_cell(P)), Ref(ctx.new_cell(q))]
            return r if order else r[::-1]
        for ctx, v in frun(rec, prog, f"roots::tower::pairing::{op}", setup, C, adt_fields("bn_fq")):
            ok = isinstance(v, Nat) and v.kind == "fe" and isinstance(v.x, Nat) and v.x.kind == "ml" and len(v.x.t) == 1
            if not ok: raise Undecided("pairing is composed differently")
            p, q = v.x.t[0]
            goal_true(rec, repr(p) == repr(ctx.env["P"]) and isinstance(q, Nat) and q.kind == "prep" and repr(q.q) == repr(ctx.env["q"]), f"{op}: pairs its two arguments")
    return Ob(f"pairing entry {op}", f)
def pairing_obs(prog):
    return [step_ob(prog, "doubling"), step_ob(prog, "addition"), ell_ob(prog), divisor_ob(prog, 1), divisor_ob(prog, 2), divisor_ob(prog, 1, "roots::tower::pairing::prepare2"),
            finexp_ob(prog)] + gt_obs(prog) + [pair_ob(prog, "pair", 1), pair_ob(prog, "pair_with", 1), pair_ob(prog, "pair_with2", 0)]
