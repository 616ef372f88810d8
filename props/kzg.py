"""halo2_proofs: KZG parameters, SHPLONK and GWC multi-openings, pairing check and strategies, over the contracts of Fr, G1, G2,
the pairing (P08, P11, P12), multiexp and interpolation (P14)."""
from .common import *
from .fields import adt_fields, fe_of, invert_contract
from .poly import *
from .poly import P, FR, NFR, GL, L, G1, G1A
from .poly import FIELDS_ADT
from .plonk import names_of, adt, struct, Opaque, Blake, sitems, contracts as plonk_contracts, coeffs_in, path_zero
R = "roots::kzg::"
c_ = Poly.const
B = "halo2curves::bn256::"
G2L = Fld("G2 element", P); GTL = Fld("Gt element", P)
KF = {**FIELDS_ADT, B + "G2": G2L, B + "G2Affine": G2L, B + "G2Prepared": G2L, B + "Gt": GTL}
def ok(v): return Agg([v], 0)
def lv(m, x):
    while isinstance(x, Ref): x = m.load(x.cell, x.path)
    if isinstance(x, FE): return x.p
    raise Unsupported("element is not under contract")
class Enc(Nat):
    """byte i of the injective encoding of an element"""
    def __init__(self, what, p, i): self.kind = "enc"; self.what = what; self.p = p; self.i = i
    def copy(self): return self
def kzg_contracts(prog, interp=True, mul=False):
    C = plonk_contracts(prog)
    def log(m): return m.ctx.env.setdefault("log", [])
    def fresh(m, tag):
        n = sum(1 for t, _ in log(m) if t == tag)
        pre = m.ctx.env.get("script", {}).get((tag, n))
        s = pre if pre is not None else Poly.sym(m.ctx.sym(f"{tag}{n}")); log(m).append((tag, s)); return s
    def put(tag, f):
        def h(m, a, fn): log(m).append((tag, f(m, a[1]))); return ok(UNIT)
        return h
    C[R + "ghost_read_point"] = lambda m, a, fn: ok(ge(fresh(m, "pt")))
    C[R + "ghost_read_scalar"] = lambda m, a, fn: ok(fe(fresh(m, "ev")))
    C[R + "ghost_squeeze"] = lambda m, a, fn: fe(fresh(m, "ch"))
    C[R + "ghost_common_point"] = put("absorb_point", L); C[R + "ghost_common_scalar"] = put("absorb_scalar", lambda m, x: fe_of(m, x).p)
    C[R + "ghost_write_point"] = put("pt", L); C[R + "ghost_write_scalar"] = put("ev", lambda m, x: fe_of(m, x).p)
    def rnd(m, a, fn):
        s = Poly.sym(m.ctx.sym("rho")); m.ctx.env.setdefault("random", []).append((s, a[0])); return fe(s)
    def seeded(m, a, fn):
        v = a[0]
        while isinstance(v, Ref): v = m.load(v.cell, v.path)
        return Opaque("constant" if isinstance(v, Int) and v.is_const() or isinstance(v, Arr) and all(isinstance(x, Int) and x.is_const() for x in v.items) else "seeded")
    def enc(kind):
        def h(m, a, fn):
            x = lv(m, a[0]); r = Arr([Enc(kind, x, i) for i in range(32)]); return Agg([r]) if kind == "point" else r
        return h
    C[f"<{NFR} as ff::PrimeField>::to_repr"] = C[f"{NFR}::to_bytes"] = enc("scalar")
    for n in (G1, G1A): C[f"<{n} as group::GroupEncoding>::to_bytes"] = enc("point")
    def interp_(m, a, fn):
        pts, evs = [fe_of(m, x).p for x in sitems(m, a[0])], [fe_of(m, x).p for x in sitems(m, a[1])]
        if len(pts) != len(evs): raise Panic("lagrange_interpolate: lengths differ")
        e = m.ctx.env.setdefault("interp", {}); k = frozenset((x.mod(P).key(), y.mod(P).key()) for x, y in zip(pts, evs))
        if k not in e: e[k] = [Poly.sym(m.ctx.sym("r")) for _ in pts]
        return Arr([fe(x) for x in e[k]])
    g2 = lambda f: (lambda m, a, fn: FE(G2L, f(m, a).mod(P)))
    for pl in ("", "&"):
        C[f"<{pl}{B}G2Affine as std::ops::Neg>::neg"] = g2(lambda m, a: -lv(m, a[0]))
        for ps in ("", "&"): C[f"<{pl}{B}G2Affine as std::ops::Mul<{ps}{NFR}>>::mul"] = g2(lambda m, a: lv(m, a[0]) * fe_of(m, a[1]).p)
    for n in (f"<{B}G2Affine as std::convert::From<{B}G2>>::from", f"<{B}G2 as std::convert::From<{B}G2Affine>>::from", f"<{B}G2Prepared as std::convert::From<{B}G2Affine>>::from", f"<{B}G2 as group::Curve>::to_affine",
              f"<{B}G2 as std::convert::Into<{B}G2Affine>>::into"): C[n] = g2(lambda m, a: lv(m, a[0]))
    C[f"<{B}G2Affine as group::prime::PrimeCurveAffine>::generator"] = C[f"{B}G2Affine::generator"] = g2(lambda m, a: c_(1))
    for n in (f"<{G1A} as group::prime::PrimeCurveAffine>::generator", f"{G1A}::generator", f"<{G1A} as halo2curves::CurveAffine>::generator"): C[n] = lambda m, a, fn: ge(c_(1))
    def mml(m, a, fn):
        s = Poly()
        for t in sitems(m, a[0]):
            while isinstance(t, Ref): t = m.load(t.cell, t.path)
            s = s + lv(m, t.f[0]) * lv(m, t.f[1])
        return FE(GTL, s.mod(P))
    C[f"<{B}Bn256 as halo2curves::pairing::MultiMillerLoop>::multi_miller_loop"] = C[f"{B}multi_miller_loop"] = mml
    C[f"<{B}Gt as halo2curves::pairing::MillerLoopResult>::final_exponentiation"] = lambda m, a, fn: FE(GTL, lv(m, a[0]))
    def isid(fld): return lambda m, a, fn: Agg([m.ctx.fe_zero_ind(fld, lv(m, a[0]))])
    C[f"<{B}Gt as group::Group>::is_identity"] = isid(GTL); C[f"<{G1} as group::Group>::is_identity"] = isid(GL)
    for n in prog.byname:
        if n.startswith(f"<{NFR} as ff::Field>::random::<"): C[n] = rnd
        if "SeedableRng>::seed_from_u64" in n or "SeedableRng>::from_seed" in n or n.endswith("SeedableRng::seed_from_u64"): C[n] = seeded
        if interp and "arithmetic::lagrange_interpolate::<" in n: C[n] = interp_
        if n.endswith("::from_bytes_wide") and NFR in n: C[n] = wide
    if mul:                                    # proved as its own obligation
        def pm(m, a, fn):
            k = fe_of(m, a[1]).p; return Agg([Arr([fe(x.p * k) for x in f.items]) if isinstance(f, Arr) else f for f in a[0].f], a[0].v, a[0].ty)
        C["<halo2_proofs::poly::Polynomial<F, B> as std::ops::Mul<F>>::mul"] = pm
    return C
def wide(m, a, fn):
    v = a[0]
    while isinstance(v, Ref): v = m.load(v.cell, v.path)
    if isinstance(v, Blake) and not v.data: return fe(Poly.const(0x5eed))     # a digest of nothing is a constant
    s = Poly.sym(m.ctx.sym("digest")); m.ctx.env.setdefault("digests", []).append((s, getattr(v, "data", None))); return fe(s)
def mk_params(prog, ctx, k, g=None, gl=None, s_=None):
    n = 1 << k; t = adt(prog, r"ParamsKZG<halo2curves::bn256::Bn256>$")
    s = s_ if s_ is not None else Poly.sym(ctx.sym("s")); ctx.env["s"] = s
    g = g if g is not None else [ppow(s, i) for i in range(n)]
    gl = gl if gl is not None else syms(ctx, "gl", n)
    ctx.env["gl"] = gl; ctx.env["g"] = g
    return struct(prog, t, k=K(k), n=K(n), g=Arr([ge(x) for x in g]), g_lagrange=Arr([ge(x) for x in gl]), g2=FE(G2L, c_(1)), s_g2=FE(G2L, s))
def msm_ty(prog): return adt(prog, r"^halo2_proofs::[a-z:0-9_]*MSMKZG<halo2curves::bn256::Bn256>$")
def mk_msm(prog, sc, bs): return struct(prog, msm_ty(prog), scalars=Arr([fe(x) for x in sc]), bases=Arr([ge(x) for x in bs]))
def msm_val(prog, v):
    f = dict(zip(names_of(prog, msm_ty(prog)), v.f))
    if set(f) != {"scalars", "bases"}: raise Undecided("MSM layout")
    a, b = f["scalars"].items, f["bases"].items
    if len(a) != len(b): raise Failed("an MSM holds as many bases as scalars")
    return sum((x.p * y.p for x, y in zip(a, b)), Poly()).mod(P)
def dual_ty(prog): return adt(prog, r"^halo2_proofs::.*::DualMSM<'?_?,? ?halo2curves::bn256::Bn256>$")
def mk_dual(prog, pref, l, r): return struct(prog, dual_ty(prog), params=pref, left=l, right=r)
def dual_val(prog, v):
    f = dict(zip(names_of(prog, dual_ty(prog)), v.f)); return msm_val(prog, f["left"]), msm_val(prog, f["right"])
PATTERNS = {
    "one opening": [(0, 0)],
    "two commitments at one point": [(0, 0), (1, 0)],
    "one commitment at two points": [(0, 0), (0, 1)],
    "mixed sets": [(0, 0), (1, 0), (0, 1), (2, 1), (1, 2), (3, 0), (3, 1)],
    "MSM claim": [(0, 0), ("M", 0), (0, 1), (1, 1)],
    "repeated query": [(0, 0), (1, 1), (0, 0)],
    "sets met in another order": [(0, 1), (1, 0), (1, 1), (0, 0), (2, 2), (3, 2), ("M", 1)],
}
def queries(prog, ctx, m, pat, pts):
    t = adt(prog, r"^halo2_proofs::poly::(query::)?VerifierQuery<.*G1Affine, .*MSMKZG<.*>>$"); ct = adt(prog, r"^halo2_proofs::poly::(query::)?CommitmentReference<.*G1Affine, .*MSMKZG<.*>>$")
    vs = {v["name"]: i for i, v in enumerate(prog.tys[ct]["v"])}
    com = {}; ev = {}; out = []
    for cidx, pi in pat:
        if cidx not in com:
            if cidx == "M":
                sc, bs = syms(ctx, "ms", 2), syms(ctx, "mb", 2)
                com[cidx] = (Agg([Ref(ctx.new_cell(mk_msm(prog, sc, bs)))], vs["MSM"]), sum((a * b for a, b in zip(sc, bs)), Poly()))
            else:
                s = Poly.sym(ctx.sym(f"C{cidx}")); com[cidx] = (Agg([Ref(ctx.new_cell(ge(s)))], vs["Commitment"]), s)
        if (cidx, pi) not in ev: ev[(cidx, pi)] = Poly.sym(ctx.sym(f"e{cidx}_{pi}_"))
        out.append(struct(prog, t, point=fe(pts[pi]), commitment=com[cidx][0], eval=fe(ev[(cidx, pi)])))
    return out, {k: v[1] for k, v in com.items()}, ev
def distinct(ctx, pts):
    for i in range(len(pts)):
        for j in range(i):
            if not (pts[i] - pts[j]).mod(P).is_const(): ctx.nz.append(pts[i] - pts[j])
def tags(log): return [t for t, _ in log]
def order(pat):
    """rotation sets in order of first appearance: [(points, [commitments])]"""
    cs = []; ps = {}
    for c, p in pat:
        if c not in ps: cs.append(c); ps[c] = []
        if p not in ps[c]: ps[c].append(p)
    sets = []
    for c in cs:
        for s in sets:
            if set(s[0]) == set(ps[c]): s[1].append(c); break
        else: sets.append((ps[c], [c]))
    return sets
def shplonk_eq(pat, pts, com, r_at, y, v, u, h1, h2, inv0):
    """(left, right) of the pairing check e(left, [s]G2) = e(right, G2); inv0: 1 / Z_{T\\S_0}(u)"""
    sets = order(pat); T = sorted({p for _, p in pat})
    def Z(l):
        z = c_(1)
        for p in l: z = z * (u - pts[p])
        return z
    rt = Poly()
    for i, (S, cs) in enumerate(sets):
        inner = sum((ppow(y, j) * (com[c] - r_at(S, c)) for j, c in enumerate(cs)), Poly())
        zi = c_(1) if i == 0 else Z([p for p in T if p not in S]) * inv0
        rt = rt + ppow(v, i) * zi * inner
    return h2, rt - Z(sets[0][0]) * h1 + u * h2
def gwc_eq(pat, pts, com, ev, v, u, W):
    sets = []
    for c, p in pat:
        for s in sets:
            if s[0] == p: s[1].append(c); break
        else: sets.append((p, [c]))
    if len(W) != len(sets): raise Failed("one witness per opening point")
    l = sum((ppow(u, i) * w for i, w in enumerate(W)), Poly())
    r = sum((ppow(u, i) * pts[p] * w for i, ((p, _), w) in enumerate(zip(sets, W))), Poly())
    for i, (p, cs) in enumerate(sets): r = r + ppow(u, i) * sum((ppow(v, j) * (com[c] - ev[(c, p)]) for j, c in enumerate(cs)), Poly())
    return l, r
def inv0_of(ctx, pat, pts, u):
    sets = order(pat); T = {p for _, p in pat}; z = c_(1)
    for p in sorted(T):
        if p not in sets[0][0]: z = z * (u - pts[p])
    for s_, d, zz in ctx.env.get("inverses", []):
        if not (d - z).mod(P).t: return Poly.sym(s_) if not isinstance(s_, Poly) else s_
    if z.is_const(): return c_(pow(z.cval(), -1, P))
    raise Undecided("no inverse of the first difference polynomial")
def verify_ob(prog, root, pat, rev):
    def f(rec):
        C = kzg_contracts(prog); done = 0
        def setup(ctx, m):
            npt = max(p for _, p in pat) + 1
            pts = syms(ctx, "x", npt); distinct(ctx, pts)
            rk = {x.key(): (-i if rev else i) for i, x in enumerate(pts)}
            ctx.env["rank"] = lambda k: rk.get(k.p.mod(P).key()) if isinstance(k, FE) else None
            pr = Ref(ctx.new_cell(mk_params(prog, ctx, 1)))
            q, com, ev = queries(prog, ctx, m, pat, pts)
            al, ar = syms(ctx, "al", 2), syms(ctx, "ar", 2)
            ctx.env.update(pts=pts, com=com, ev=ev, acc=(al[0] * al[1], ar[0] * ar[1]))
            return [pr, Ref(ctx.new_cell(Agg([K(1)]))), Arr(q), mk_dual(prog, pr, mk_msm(prog, al[:1], al[1:]), mk_msm(prog, ar[:1], ar[1:]))]
        for ctx, out in paths(rec, prog, R + root, setup, contracts=C, fields=KF):
            e = ctx.env; log = e.get("log", []); pts = e["pts"]
            ch = [p for t, p in log if t == "ch"]; pt = [p for t, p in log if t == "pt"]
            if out[0] == "panic":
                # the challenge u meets an opening point: its inverse does not exist
                if root == "shplonk_verify" and len(ch) == 3:
                    z = c_(1)
                    for p in sorted({p for _, p in pat}):
                        if p not in order(pat)[0][0]: z = z * (ch[2] - pts[p])
                    if path_zero(ctx, z): continue
                raise Failed(f"{root} panics: {out[1]}")
            r = out[1]
            if r.v != 0: raise Failed(f"{root} refuses to continue")
            gt = adt(prog, r"^halo2_proofs::.*GuardKZG<'?_?,? ?halo2curves::bn256::Bn256>$"); d = r.f[0].f[names_of(prog, gt).index("msm_accumulator")]
            l, rr = dual_val(prog, d)
            if root == "shplonk_verify":
                goal_true(rec, tags(log) == ["ch", "ch", "pt", "ch", "pt"], f"transcript order y, v, h1, u, h2: {tags(log)}")
                def r_at(S, c):
                    k = frozenset((pts[p].mod(P).key(), e["ev"][(c, p)].mod(P).key()) for p in S)
                    if k not in e.get("interp", {}): raise Failed(f"no interpolation of the claims about commitment {c} over its own points")
                    return evalp(e["interp"][k], ch[2])
                wl, wr = shplonk_eq(pat, pts, e["com"], r_at, ch[0], ch[1], ch[2], pt[0], pt[1], inv0_of(ctx, pat, pts, ch[2]))
            else:
                n = len({p for _, p in pat})
                goal_true(rec, tags(log) == ["ch"] + ["pt"] * n + ["ch"], f"transcript order v, witnesses, u: {tags(log)}")
                wl, wr = gwc_eq(pat, pts, e["com"], e["ev"], ch[0], ch[1], pt)
            goal_zero(rec, ctx, l - wl - e["acc"][0], "left side of the opening equation")
            goal_zero(rec, ctx, rr - wr - e["acc"][1], "right side of the opening equation")
            done += 1
        if not done: raise Undecided("no accepting path")
    return f
def prove_ob(prog, root, pat, xs):
    """the prover's messages satisfy the verifier's equation (n = 4 coefficients, all symbolic)"""
    def f(rec):
        C = kzg_contracts(prog, interp=False, mul=True); n = 4; done = 0
        def setup(ctx, m):
            pr = Ref(ctx.new_cell(mk_params(prog, ctx, 2)))
            t = adt(prog, r"^halo2_proofs::poly::(query::)?ProverQuery<.*G1Affine>$"); bt = adt(prog, r"^halo2_proofs::poly::(commitment::)?Blind<halo2curves::bn256::Fr>$"); pt = adt(prog, r"^halo2_proofs::poly::Polynomial<halo2curves::bn256::Fr, halo2_proofs::poly::Coeff>$")
            pol = {}; ref = {}
            for c, _ in pat:
                if c not in pol:
                    pol[c] = syms(ctx, f"p{c}_", n)
                    ns = names_of(prog, pt)
                    ref[c] = Ref(ctx.new_cell(Agg([Arr([fe(x) for x in pol[c]]) if nm == "values" else UNIT for nm in ns], 0, pt)))
            q = [struct(prog, t, point=fe(xs[p]), poly=ref[c], blind=Agg([fe(c_(1))], 0, bt)) for c, p in pat]
            ctx.env.update(pol=pol)
            return [pr, Ref(ctx.new_cell(Agg([K(1)]))), Arr(q)]
        for ctx, out in paths(rec, prog, R + root, setup, contracts=C, fields=KF):
            e = ctx.env; log = e.get("log", []); s = e["s"]
            ch = [p for t, p in log if t == "ch"]; w = [p for t, p in log if t == "pt"]
            if out[0] == "panic":
                if root == "shplonk_prove" and len(ch) == 3:
                    z = c_(1)
                    for p in sorted({p for _, p in pat}):
                        if p not in order(pat)[0][0]: z = z * (ch[2] - c_(xs[p]))
                    if path_zero(ctx, z): continue
                raise Failed(f"{root} panics: {out[1]}")
            if out[1].v != 0: raise Failed(f"{root} fails")
            com = {c: evalp(v, s) for c, v in e["pol"].items()}; pts = [c_(x) for x in xs]
            ev = {(c, p): evalp(e["pol"][c], pts[p]) for c, p in pat}
            if root == "shplonk_prove":
                goal_true(rec, tags(log) == ["ch", "ch", "pt", "ch", "pt"], f"transcript order y, v, h1, u, h2: {tags(log)}")
                u = ch[2]
                def r_at(S, c):
                    r = Poly()
                    for p in S:
                        num, den = c_(1), 1
                        for q_ in S:
                            if q_ != p: num = num * (u - pts[q_]); den = den * (xs[p] - xs[q_]) % P
                        r = r + (ev[(c, p)] * num).scale(pow(den, -1, P))
                    return r.mod(P)
                l, r = shplonk_eq(pat, pts, com, r_at, ch[0], ch[1], u, w[0], w[1], inv0_of(ctx, pat, pts, u))
            else:
                # the last challenge is the verifier's own: the equation must hold for every u
                goal_true(rec, tags(log) == ["ch"] + ["pt"] * len({p for _, p in pat}), f"transcript order v, witnesses: {tags(log)}")
                l, r = gwc_eq(pat, pts, com, ev, ch[0], Poly.sym(ctx.sym("u")), w)
            goal_zero(rec, ctx, s * l - r, "the honest opening satisfies the verifier's equation"); done += 1
        if not done: raise Undecided("no completed proof")
    return f
def open_obs(prog):
    obs = []
    bd = "query patterns: 7; commitments, points, evaluations, challenges and witnesses symbolic"
    for nm, pat in PATTERNS.items():
        for rev in (False, True):
            if rev and len({p for _, p in pat}) == 1: continue
            obs.append(Ob(f"VerifierSHPLONK: {nm}{' (points ordered the other way)' if rev else ''}", verify_ob(prog, "shplonk_verify", pat, rev), timeout=120, bounded=bd))
        obs.append(Ob(f"VerifierGWC: {nm}", verify_ob(prog, "gwc_verify", pat, False), timeout=120, bounded=bd))
        if not any(c == "M" for c, _ in pat):
            for xs in ([5, 11, 2], [P - 3, 7, 1 << 200]):
                for r in ("shplonk_prove", "gwc_prove"): obs.append(Ob(f"{r}: {nm} at points {['%x' % x for x in xs]}", prove_ob(prog, r, pat, xs), timeout=240, bounded="4 coefficients per polynomial, sampled opening points; coefficients, secret and challenges symbolic"))
    return obs

# ---------------------------------------------------------------- commitments, MSMs, strategies, parameters
def truth(ctx, r, poly, what):
    """-> 1/0 when the boolean r (on this path) says  poly == 0 / != 0,  else Failed"""
    poly = poly.mod(P)
    if poly.is_const(): want = 1 if not poly.t else 0
    else: want = None
    r = ctx.asg.get(next(iter(r.p.syms())), r.p) if isinstance(r, Int) and not r.is_const() and len(r.p.syms()) == 1 else r
    if isinstance(r, Poly): r = r.cval() if r.is_const() else r
    if isinstance(r, Int) and r.is_const(): r = r.c()
    if isinstance(r, int):
        if want is not None: return r == want
        m0 = next(iter(poly.t))
        for b, v in ctx.asg.items():
            t = ctx.defs.get(b)
            if isinstance(v, Poly): v = v.cval() if v.is_const() else None
            if t and t[0] == "fz" and v == r:
                q = fin(ctx, t[2]).mod(P); k = q.t.get(m0, 0) * pow(poly.t[m0], -1, P) % P
                if k and not (q - poly.scale(k)).mod(P).t: return True
        return False
    p = r if isinstance(r, Poly) else r.p
    ss = list(p.syms())
    if len(ss) == 1:
        t = ctx.defs.get(ss[0])
        if t and t[0] == "fz" and p == Poly.sym(ss[0]) and want is None:
            m0 = next(iter(poly.t)); q = fin(ctx, t[2]).mod(P); k = q.t.get(m0, 0) * pow(poly.t[m0], -1, P) % P
            return bool(k) and not (q - poly.scale(k)).mod(P).t
    raise Undecided(f"{what}: result not understood")
def omega_of(prog, k):
    rec = Rec()
    t = adt(prog, r"^halo2_proofs::.*EvaluationDomain<halo2curves::bn256::Fr>$")
    for ctx, out in paths(rec, prog, R + "domain", lambda ctx, m: [K(2), K(k)], contracts=kzg_contracts(prog), fields=KF):
        if out[0] == "panic": raise Undecided("EvaluationDomain::new panics")
        w = fin(ctx, out[1].f[names_of(prog, t).index("omega")].p).mod(P)
        if w.is_const(): return w.cval() % P
    raise Undecided("omega")
def pvals(prog, v):
    f = dict(zip(names_of(prog, adt(prog, r"ParamsKZG<halo2curves::bn256::Bn256>$")), v.f))
    if not {"k", "n", "g", "g_lagrange", "g2", "s_g2"} <= set(f): raise Undecided("parameter layout")
    return f
def basics(prog):
    obs = []
    def ob(name, f, **kw): obs.append(Ob(name, f, **{"timeout": 200, **kw}))
    pt = lambda: adt(prog, r"^halo2_proofs::poly::Polynomial<halo2curves::bn256::Fr, halo2_proofs::poly::Coeff>$")
    lt = lambda: adt(prog, r"^halo2_proofs::poly::Polynomial<halo2curves::bn256::Fr, halo2_proofs::poly::LagrangeCoeff>$")
    def mkp(t, vals): return Agg([Arr([fe(x) for x in vals]) if nm == "values" else UNIT for nm in names_of(prog, t)], 0, t)
    def pv(t, v): return [x.p for x in v.f[names_of(prog, t).index("values")].items]
    for n in (1, 4):
        def f(rec, n=n):
            def setup(ctx, m):
                a, k = syms(ctx, "a", n), Poly.sym(ctx.sym("k")); ctx.env.update(a=a, k=k); return [mkp(pt(), a), fe(k)]
            for ctx, out in paths(rec, prog, R + "poly_mul", setup, contracts=kzg_contracts(prog), fields=KF):
                r = pv(pt(), no_panic(out, "poly * scalar"))
                goal_true(rec, len(r) == n, "length kept")
                for x, y in zip(r, ctx.env["a"]): goal_zero(rec, ctx, x - y * ctx.env["k"], "coefficient of poly * scalar")
        ob(f"Polynomial * scalar, {n} coefficients", f, bounded=f"{n} coefficients")
        for op, sg in (("add", 1), ("sub", -1)):
            def f(rec, n=n, op=op, sg=sg):
                def setup(ctx, m):
                    a, b = syms(ctx, "a", n), syms(ctx, "b", n); ctx.env.update(a=a, b=b); return [mkp(pt(), a), Ref(ctx.new_cell(mkp(pt(), b)))]
                for ctx, out in paths(rec, prog, R + "poly_" + op, setup, contracts=kzg_contracts(prog), fields=KF):
                    r = pv(pt(), no_panic(out, f"polynomial {op}"))
                    goal_true(rec, len(r) == n, "length kept")
                    for x, y, z in zip(r, ctx.env["a"], ctx.env["b"]): goal_zero(rec, ctx, x - y - z.scale(sg), f"coefficient of polynomial {op}")
            ob(f"Polynomial {op}, {n} coefficients", f, bounded=f"{n} coefficients")
    for root, key, t in (("commit", "g", pt), ("commit_lagrange", "gl", lt)):
        for n in (1, 3, 4):
            def f(rec, n=n, root=root, key=key, t=t):
                def setup(ctx, m):
                    a = syms(ctx, "a", n); pr = mk_params(prog, ctx, 2, g=syms(ctx, "g", 4)); ctx.env.update(a=a)
                    bt = adt(prog, r"^halo2_proofs::poly::(commitment::)?Blind<halo2curves::bn256::Fr>$")
                    return [Ref(ctx.new_cell(pr)), Ref(ctx.new_cell(mkp(t(), a))), Agg([fe(Poly.sym(ctx.sym("bl")))], 0, bt)]
                for ctx, out in paths(rec, prog, R + root, setup, contracts=kzg_contracts(prog), fields=KF):
                    r = lv(None, no_panic(out, root))
                    goal_zero(rec, ctx, r - sum((x * y for x, y in zip(ctx.env["a"], ctx.env[key])), Poly()), f"{root} is the linear combination of the basis")
            ob(f"{root}: {n} coefficients", f, bounded=f"{n} coefficients")
    # MSMs: their value is a homomorphic image of the operations
    for sz in (0, 2, 3):
        def mk(ctx, nm, sz=sz):
            s, b = syms(ctx, nm + "s", sz), syms(ctx, nm + "b", sz); return mk_msm(prog, s, b), sum((x * y for x, y in zip(s, b)), Poly()), s, b
        def run(rec, root, extra, want, sz=sz, mk=mk):
            def setup(ctx, m):
                v, val, s, b = mk(ctx, "m"); cell = ctx.new_cell(v); ctx.env.update(val=val, cell=cell, ms=s, mb=b)
                return [Ref(cell)] + extra(ctx)
            for ctx, out in paths(rec, prog, R + root, setup, contracts=kzg_contracts(prog), fields=KF):
                no_panic(out, root); want(rec, ctx, out[1])
        def after(ctx): return msm_val(prog, ctx.cells[ctx.env["cell"]] if isinstance(ctx.env["cell"], int) else ctx.env["cell"].v)
        def f(rec, run=run):
            def ex(ctx):
                k, p = Poly.sym(ctx.sym("k")), Poly.sym(ctx.sym("p")); ctx.env.update(k=k, p=p); return [fe(k), ge(p)]
            run(rec, "msm_append", ex, lambda rec, ctx, r: goal_zero(rec, ctx, after(ctx) - ctx.env["val"] - ctx.env["k"] * ctx.env["p"], "append_term adds scalar * point"))
        ob(f"MSMKZG::append_term, {sz} terms", f, bounded=f"{sz} terms")
        def f(rec, run=run):
            def ex(ctx):
                k = Poly.sym(ctx.sym("k")); ctx.env.update(k=k); return [fe(k)]
            run(rec, "msm_scale", ex, lambda rec, ctx, r: goal_zero(rec, ctx, after(ctx) - ctx.env["val"] * ctx.env["k"], "scale multiplies the value"))
        ob(f"MSMKZG::scale, {sz} terms", f, bounded=f"{sz} terms")
        def f(rec, run=run, sz=sz):
            def ex(ctx):
                k = Poly.sym(ctx.sym("k")); ctx.env.update(k=k); return [fe(k)]
            run(rec, "msm_combine", ex, lambda rec, ctx, r: goal_zero(rec, ctx, after(ctx) - sum((ppow(ctx.env["k"], sz - 1 - i) * x * y for i, (x, y) in enumerate(zip(ctx.env["ms"], ctx.env["mb"]))), Poly()), "combine_with_base weighs the terms by powers"))
        ob(f"MSMKZG::combine_with_base, {sz} terms", f, bounded=f"{sz} terms")
        def f(rec, run=run, mk=mk):
            def ex(ctx):
                v, val, s, b = mk(ctx, "o"); ctx.env["o"] = val; return [Ref(ctx.new_cell(v))]
            run(rec, "msm_add", ex, lambda rec, ctx, r: goal_zero(rec, ctx, after(ctx) - ctx.env["val"] - ctx.env["o"], "add_msm adds the values"))
        ob(f"MSMKZG::add_msm, {sz} terms", f, bounded=f"{sz} terms")
        def f(rec, run=run): run(rec, "msm_eval", lambda ctx: [], lambda rec, ctx, r: goal_zero(rec, ctx, lv(None, r) - ctx.env["val"], "eval is the sum of scalar * base"))
        ob(f"MSMKZG::eval, {sz} terms", f, bounded=f"{sz} terms")
        def f(rec, run=run): run(rec, "msm_check", lambda ctx: [], lambda rec, ctx, r: goal_true(rec, truth(ctx, r, ctx.env["val"], "MSM check"), "check holds exactly when the sum is the identity"))
        ob(f"MSMKZG::check, {sz} terms", f, bounded=f"{sz} terms")
    # the pairing check
    def duo(ctx, nm, sz):
        a, b, c, d = (syms(ctx, nm + x, sz) for x in "abcd")
        return (mk_msm(prog, a, b), mk_msm(prog, c, d), sum((x * y for x, y in zip(a, b)), Poly()), sum((x * y for x, y in zip(c, d)), Poly()))
    for sz in (0, 1, 2):
        def f(rec, sz=sz):
            def setup(ctx, m):
                pr = Ref(ctx.new_cell(mk_params(prog, ctx, 1))); l, r, lval, rval = duo(ctx, "d", sz); ctx.env.update(l=lval, r=rval)
                return [mk_dual(prog, pr, l, r)]
            for ctx, out in paths(rec, prog, R + "dual_check", setup, contracts=kzg_contracts(prog), fields=KF):
                goal_true(rec, truth(ctx, no_panic(out, "check"), ctx.env["s"] * ctx.env["l"] - ctx.env["r"], "pairing check"), "check holds exactly when e(left, [s]G2) = e(right, G2)")
        ob(f"DualMSM::check, {sz} terms", f, bounded=f"{sz} terms on each side")
        def f(rec, sz=sz):
            gt = adt(prog, r"^halo2_proofs::.*GuardKZG<'?_?,? ?halo2curves::bn256::Bn256>$")
            def setup(ctx, m):
                pr = Ref(ctx.new_cell(mk_params(prog, ctx, 1))); l, r, lval, rval = duo(ctx, "d", sz); ctx.env.update(l=lval, r=rval)
                return [pr, Agg([struct(prog, gt, msm_accumulator=mk_dual(prog, pr, l, r))], 0)]
            for ctx, out in paths(rec, prog, R + "single", setup, contracts=kzg_contracts(prog), fields=KF):
                r = no_panic(out, "SingleStrategy::process")
                goal_true(rec, truth(ctx, K(1 if r.v == 0 else 0), ctx.env["s"] * ctx.env["l"] - ctx.env["r"], "SingleStrategy"), "a proof is accepted exactly when its pairing check holds")
        ob(f"SingleStrategy accepts exactly on a passing pairing check, {sz} terms", f, bounded=f"{sz} terms on each side")
    def f(rec):
        et = adt(prog, r"^halo2_proofs::plonk::(error::)?Error$")
        def setup(ctx, m): return [Ref(ctx.new_cell(mk_params(prog, ctx, 1))), Agg([Agg([], [v["name"] for v in prog.tys[et]["v"]].index("Opening"), et)], 1)]
        for ctx, out in paths(rec, prog, R + "single", setup, contracts=kzg_contracts(prog), fields=KF):
            goal_true(rec, no_panic(out, "process").v == 1, "a failed opening is never accepted")
    ob("SingleStrategy passes on a failed opening", f)
    st = lambda: adt(prog, r"^halo2_proofs::.*AccumulatorStrategy<'?_?,? ?halo2curves::bn256::Bn256>$")
    for nm, pat in (("one opening", [(0, 0)]), ("two openings", [(0, 0), (1, 0), (0, 1)])):
        def f(rec, pat=pat):
            done = 0
            def setup(ctx, m):
                pts = syms(ctx, "x", 2); distinct(ctx, pts)
                pr = Ref(ctx.new_cell(mk_params(prog, ctx, 1))); l, r, lval, rval = duo(ctx, "d", 1)
                q, com, ev = queries(prog, ctx, m, pat, pts); ctx.env.update(l=lval, r=rval, pts=pts, com=com, ev=ev)
                return [pr, struct(prog, st(), msm_accumulator=mk_dual(prog, pr, l, r)), Ref(ctx.new_cell(Agg([K(1)]))), Arr(q)]
            for ctx, out in paths(rec, prog, R + "accumulate", setup, contracts=kzg_contracts(prog), fields=KF):
                r = no_panic(out, "AccumulatorStrategy::process")
                if r.v != 0: raise Failed("a well-formed proof is not accumulated")
                e = ctx.env; log = e["log"]; ch = [p for t, p in log if t == "ch"]; w = [p for t, p in log if t == "pt"]
                gl_, gr_ = gwc_eq(pat, e["pts"], e["com"], e["ev"], ch[0], ch[1], w)
                al, ar = dual_val(prog, r.f[0].f[names_of(prog, st()).index("msm_accumulator")])
                cand = [(s, None) for s, a in e.get("random", []) if not (isinstance(a, Opaque) and a.nm == "constant")] + [(s, d) for s, d in e.get("digests", [])]
                fixed = [s for s, a in e.get("random", []) if isinstance(a, Opaque) and a.nm == "constant"]
                okc = None
                for s, d in cand + [(s, "fixed") for s in fixed] + [(c_(1), "fixed")]:
                    for a, b in ((s, c_(1)), (c_(1), s)):
                        if zero(ctx, al - a * e["l"] - b * gl_) and zero(ctx, ar - a * e["r"] - b * gr_): okc = okc or (s, d)
                if okc is None: raise Failed("the accumulator is not  challenge * accumulated + new  (or the other way round) on both sides")
                s, d = okc; rec.goals += 1
                if isinstance(d, str): raise Failed("the batching challenge is a constant anyone can compute beforehand: proofs whose errors cancel under it are accepted as a batch")
                if d is not None:
                    have = set()
                    for x in d:
                        if isinstance(x, Enc): have |= x.p.syms()
                        elif isinstance(x, Int): have |= x.p.syms()
                    for val, what in ((e["l"], "accumulated left side"), (e["r"], "accumulated right side"), (gl_, "left side of the new proof"), (gr_, "right side of the new proof")):
                        miss = [i for i in val.mod(P).syms() if i not in have and not any(i in p.syms() for p in ch) and i not in set().union(*[p.syms() for p in e["pts"]])]
                        goal_true(rec, not miss, f"the batching challenge does not depend on the {what}")
                done += 1
            if not done: raise Undecided("no accumulated proof")
        ob(f"AccumulatorStrategy: {nm}", f, bounded="one accumulated term on each side, GWC openings")
    def f(rec):
        def setup(ctx, m): return [Ref(ctx.new_cell(mk_params(prog, ctx, 1)))]
        for ctx, out in paths(rec, prog, R + "acc_new", setup, contracts=kzg_contracts(prog), fields=KF):
            l, r = dual_val(prog, no_panic(out, "new").f[names_of(prog, st()).index("msm_accumulator")])
            goal_zero(rec, ctx, l, "a new accumulator is neutral"); goal_zero(rec, ctx, r, "a new accumulator is neutral")
        def setup(ctx, m):
            pr = Ref(ctx.new_cell(mk_params(prog, ctx, 1))); l, r, lval, rval = duo(ctx, "d", 2); ctx.env.update(l=lval, r=rval)
            return [struct(prog, st(), msm_accumulator=mk_dual(prog, pr, l, r))]
        for ctx, out in paths(rec, prog, R + "acc_finalize", setup, contracts=kzg_contracts(prog), fields=KF):
            goal_true(rec, truth(ctx, no_panic(out, "finalize"), ctx.env["s"] * ctx.env["l"] - ctx.env["r"], "finalize"), "finalize is the pairing check of the accumulated sides")
    ob("AccumulatorStrategy::new and finalize", f)
    # parameters
    def lagr(rec, ctx, w, n, gl, g):
        for j in range(n): goal_zero(rec, ctx, sum((gl[i].scale(pow(w, i * j, P)) for i in range(n)), Poly()).mod(P) - g[j], f"the Lagrange basis interpolates: sum of omega^(i*{j}) gl_i = g_{j}")
    for k in range(4):
        def f(rec, k=k):
            w = omega_of(prog, k); n = 1 << k; done = 0
            def setup(ctx, m): ctx.env["s"] = Poly.sym(ctx.sym("s")); return [K(k), fe(ctx.env["s"])]
            for ctx, out in paths(rec, prog, R + "setup_s", setup, contracts=kzg_contracts(prog), fields=KF):
                s = ctx.env["s"]
                if out[0] == "panic":
                    if any(path_zero(ctx, s - c_(pow(w, i, P))) for i in range(n)): continue
                    raise Failed(f"setup panics for a secret outside the domain: {out[1]}")
                check(rec, ctx, out[1], s, n, k, w); done += 1
            if not done: raise Undecided("no parameters")
        def check(rec, ctx, v, s, n, k, w):
            p = pvals(prog, v)
            g, gl = [x.p for x in p["g"].items], [x.p for x in p["g_lagrange"].items]
            goal_true(rec, p["k"].is_const() and p["k"].c() == k and p["n"].is_const() and p["n"].c() == n and len(g) == n and len(gl) == n, "k, n and the lengths of both bases agree")
            for i in range(n): goal_zero(rec, ctx, g[i] - ppow(s, i), f"g[{i}] = [s^{i}] G1")
            lagr(rec, ctx, w, n, gl, g)
            goal_zero(rec, ctx, p["g2"].p - c_(1), "g2 is the generator"); goal_zero(rec, ctx, p["s_g2"].p - s, "s_g2 = [s] G2")
        ob(f"unsafe_setup_with_s, k = {k}", f, bounded=f"k = {k}")
        def f(rec, k=k, check=check):
            w = omega_of(prog, k); n = 1 << k; done = 0
            def setup(ctx, m): return [K(k)]
            for ctx, out in paths(rec, prog, R + "setup", setup, contracts=kzg_contracts(prog), fields=KF):
                rn = ctx.env.get("random", [])
                if len(rn) != 1: raise Undecided("secret drawn another way")
                s = rn[0][0]
                goal_true(rec, not isinstance(rn[0][1], Opaque), "the secret comes from the caller's generator")
                if out[0] == "panic":
                    if any(path_zero(ctx, s - c_(pow(w, i, P))) for i in range(n)): continue
                    raise Failed(f"setup panics: {out[1]}")
                check(rec, ctx, out[1], s, n, k, w); done += 1
            if not done: raise Undecided("no parameters")
        if k < 3: ob(f"setup draws its secret from the given generator, k = {k}", f, bounded=f"k = {k}")
    for k, k2 in ((0, 0), (1, 0), (2, 1), (2, 2), (3, 2)):
        def f(rec, k=k, k2=k2):
            w = omega_of(prog, k2); n = 1 << k2
            def setup(ctx, m):
                g = syms(ctx, "g", 1 << k); c = ctx.new_cell(mk_params(prog, ctx, k, g=g)); ctx.env["cell"] = c; return [Ref(c), K(k2)]
            for ctx, out in paths(rec, prog, R + "downsize", setup, contracts=kzg_contracts(prog), fields=KF):
                no_panic(out, "downsize"); p = pvals(prog, ctx.cells[ctx.env["cell"]]); g, gl = [x.p for x in p["g"].items], [x.p for x in p["g_lagrange"].items]
                goal_true(rec, p["k"].c() == k2 and p["n"].c() == n and len(g) == n and len(gl) == n, "k, n and the lengths of both bases agree")
                for i in range(n): goal_zero(rec, ctx, g[i] - ctx.env["g"][i], "the first 2^k powers are kept")
                lagr(rec, ctx, w, n, gl, g)
                goal_zero(rec, ctx, p["s_g2"].p - ctx.env["s"], "s_g2 is kept")
        ob(f"downsize from 2^{k} to 2^{k2}", f, bounded=f"2^{k} to 2^{k2}")
        def f(rec, k=k, k2=k2):
            def setup(ctx, m):
                g = syms(ctx, "g", 1 << k); c = ctx.new_cell(mk_params(prog, ctx, k, g=g)); ctx.env["cell"] = c; return [Ref(c), K(k2)]
            for ctx, out in paths(rec, prog, R + "shrink", setup, contracts=kzg_contracts(prog), fields=KF):
                no_panic(out, "shrink"); p = pvals(prog, ctx.cells[ctx.env["cell"]]); g, gl = [x.p for x in p["g"].items], [x.p for x in p["g_lagrange"].items]
                goal_true(rec, len(g) >= 1 << k2 and len(gl) >= 1 << k2 and p["k"].c() == k and p["n"].c() == 1 << k, "shrink keeps k, n and at least the first 2^k' elements")
                for i in range(len(g)): goal_zero(rec, ctx, g[i] - ctx.env["g"][i], "a prefix of g is kept")
                for i in range(len(gl)): goal_zero(rec, ctx, gl[i] - ctx.env["gl"][i], "a prefix of g_lagrange is kept")
                goal_zero(rec, ctx, p["s_g2"].p - ctx.env["s"], "s_g2 is kept"); goal_zero(rec, ctx, p["g2"].p - c_(1), "g2 is kept")
        ob(f"shrink from 2^{k} to 2^{k2}", f, bounded=f"2^{k} to 2^{k2}")
    return obs
def kzg_obs(prog): return open_obs(prog) + basics(prog)
