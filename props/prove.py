"""halo2_proofs: the plonk prover against the verifier: over the contracts of Fr, G1 (P08, P12), multiexp, the domain transforms and eval_polynomial (P14).
Products beyond a size get a name; polynomial identities over names, inverses and contracted results are then decided by evaluating both
sides at random points of the 254-bit field (Schwartz-Zippel: degree < 2^12, so an identity that fails passes a point with probability < 2^-240)."""
import random, functools
from .common import *
from .fields import fe_of
from .poly import *
from .poly import P, FR, NFR, GL, L, FIELDS_ADT
from . import plonk as PK
from .plonk import names_of, adt, field_of, params, sitems, spec, ok, domain_omega_p, delta_of, path_zero, Env
from mirvc import iters
R = "roots::prove::"
D = "halo2_proofs::poly::EvaluationDomain::<G>::"
def deref(m, x):
    while isinstance(x, Ref) and x.meta is None: x = m.load(x.cell, x.path)
    return x
def key(ps): return tuple(p.mod(P).key() for p in ps)
class Tab:
    """ghost state of a run: what the contracted calls returned"""
    def __init__(self): self.named = {}; self.rows = {}; self.coset = {}; self.evals = {}; self.points = {}; self.perm = {}; self.inv = {}; self.cells = {}; self.h = None; self.memo = {}; self.pairs = []; self.opens = []
def T(m): return m.ctx.env.setdefault("tab", Tab())
def contracts(prog):
    C = PK.ghost_contracts(prog, PK.contracts(prog))
    def prod(m, x, y):
        if len(x.t) * len(y.t) <= 48: return (x * y).mod(P)
        k = tuple(sorted((x.key(), y.key()))); t = T(m)
        if ("mul", k) not in t.memo:
            s = m.ctx.sym("w"); t.memo[("mul", k)] = s; t.named[s] = (x, y)
        return Poly.sym(t.memo[("mul", k)])
    n = NFR
    bi = lambda m, a, fn: FE(FR, prod(m, fe_of(m, a[0]).p, fe_of(m, a[1]).p))
    def asg(m, a, fn):
        m.store(a[0].cell, a[0].path, FE(FR, prod(m, fe_of(m, a[0]).p, fe_of(m, a[1]).p))); return UNIT
    C[f"{n}::mul"] = bi
    for rr in ("", f"<{n}>", f"<&{n}>"):
        for l in (n, "&" + n): C[f"<{l} as std::ops::Mul{rr}>::mul"] = bi
        C[f"<{n} as std::ops::MulAssign{rr}>::mul_assign"] = asg
    C[f"{n}::square"] = C[f"<{n} as ff::Field>::square"] = lambda m, a, fn: FE(FR, prod(m, fe_of(m, a[0]).p, fe_of(m, a[0]).p))
    C[f"<{n} as ff::Field>::random"] = lambda m, a, fn: fe(Poly.sym(m.ctx.sym("rnd")))
    def log(m): return m.ctx.env.setdefault("log", [])
    def wp(m, a, fn): log(m).append(("pt", L(m, a[1]))); return ok(UNIT)
    def ws(m, a, fn): log(m).append(("ev", fe_of(m, a[1]).p)); return ok(UNIT)
    C[R + "ghost_write_point"] = wp; C[R + "ghost_write_scalar"] = ws
    def op(m, a, fn):
        q = deref(m, a[0]); T(m).opens.append(q); return UNIT
    for nm in prog.byname:
        if nm.startswith(R + "ghost_open"): C[nm] = op
        if "ghost_adv" in nm: C[nm] = adv
        if "ghost_value" in nm: C[nm] = val
    def sq(m, a, fn):
        # the challenges of prover and verifier are the same symbols: same transcript prefix (compared by the obligation), same challenge (P18)
        e = m.ctx.env; i = sum(1 for t, _ in log(m) if t == "ch"); l = e.setdefault("chal", [])
        while len(l) <= i: l.append(Poly.sym(m.ctx.sym(f"ch{len(l)}")))
        m.ctx.nz += [ppow(l[i], e["n"]) - Poly.const(1), l[i], l[i] - Poly.const(1)]       # a challenge is neither zero nor in the domain
        log(m).append(("ch", l[i])); return fe(l[i])
    C[PK.R + "ghost_squeeze"] = sq
    def l2c(m, a, fn):
        v = plist(a[1]); t = T(m); k = key(v)
        if ("l2c", k) not in t.memo:
            c = syms(m.ctx, "co", len(v)); t.memo[("l2c", k)] = c; t.rows[key(c)] = v
        return pol([fe(x) for x in t.memo[("l2c", k)]])
    C[D + "lagrange_to_coeff"] = l2c
    def ext(m, a, fn):
        c = key(plist(a[1])); f = fe_of(m, a[2]).p.mod(P); t = T(m)
        if not f.is_const(): raise Unsupported("symbolic coset factor")
        f = f.cval() % P
        if c not in t.rows: raise Unsupported("coset of a polynomial without known row values")
        d = deref(m, a[0]); dt = adt(prog, r"EvaluationDomain<halo2curves::bn256::Fr>$")
        shift = field_of(prog, d, dt, "g_coset")[0].p.cval() % P
        if (c, f) not in t.memo:
            s = [m.ctx.sym("ext") for _ in range(len(plist(a[1])))]; t.memo[(c, f)] = s
            for i, x in enumerate(s): t.coset[x] = (c, f * shift % P, i)
        return pol([fe(Poly.sym(x)) for x in t.memo[(c, f)]])
    C[D + "coeff_to_extended_part"] = ext
    def div(m, a, fn):
        t = T(m); v = plist(a[1])
        if t.h is not None: raise Unsupported("second division by the vanishing polynomial")
        t.h = v; t.hd = syms(m.ctx, "hd", len(v)); return pol([fe(x) for x in t.hd])
    C[D + "divide_by_vanishing_poly"] = div
    def e2c(m, a, fn):
        t = T(m); v = plist(a[1])
        if t.h is None or key(v) != key(t.hd): raise Failed("the committed quotient is not the quotient by the vanishing polynomial")
        d = deref(m, a[0]); dt = adt(prog, r"EvaluationDomain<halo2curves::bn256::Fr>$")
        q = field_of(prog, d, dt, "quotient_poly_degree")[0].c(); t.hc = syms(m.ctx, "hc", m.ctx.env["n"] * q)
        return Arr([fe(x) for x in t.hc])
    C[D + "extended_to_coeff"] = e2c
    def ev(m, a, fn):
        c = [fe_of(m, x).p for x in sitems(m, a[0])]; x = fe_of(m, a[1]).p; t = T(m); k = (key(c), x.mod(P).key())
        t.points[k[1]] = x
        if k not in t.evals: t.evals[k] = Poly.sym(m.ctx.sym("eval"))
        return fe(t.evals[k])
    C["halo2_proofs::arithmetic::eval_polynomial"] = ev
    def binv(m, a, fn):
        t = T(m); acc = Poly.const(1)
        for r in refs(m, a, fn):
            x = fe_of(m, r).p.mod(P)
            if x.is_const(): v = Poly.const(pow(x.cval(), -1, P)) if x.cval() % P else Poly()
            else:
                s = t.memo.get(("inv", x.key()))
                if s is None: s = m.ctx.sym("inv"); t.memo[("inv", x.key())] = s; t.inv[s] = x
                v = Poly.sym(s)
            m.store(r.cell, r.path, fe(v))
        return fe(Poly.sym(m.ctx.sym("prod_inv")))
    C["<I as ff::BatchInvert<F>>::batch_invert"] = binv
    def pep(m, a, fn):
        t = T(m); A, S_ = plist(deref(m, a[-2])), plist(deref(m, a[-1]))
        o = [syms(m.ctx, nm, len(A)) for nm in ("A", "S")]
        t.pairs.append((A, S_, o[0], o[1]))
        return ok(Agg([pol([fe(x) for x in o[0]]), pol([fe(x) for x in o[1]])]))
    C["halo2_proofs::plonk::lookup::prover::permute_expression_pair"] = pep
    return C
def col_of(m, c):
    c = deref(m, c)
    l = [x for x in c.f if isinstance(x, Int)]
    if len(l) != 1: raise Unsupported("column layout")
    return l[0].c()
def one_int(x):
    while isinstance(x, Agg) and len(x.f) == 1: x = x.f[0]
    return x.c()
def adv(m, a, fn):
    t = T(m); k = ("a", col_of(m, a[0]), a[1].c(), one_int(a[2]))
    if k not in t.cells: t.cells[k] = Poly.sym(m.ctx.sym("a%d_%d_%d_" % k[1:]))
    return fe(t.cells[k])
def val(m, a, fn):
    t = T(m); k = ("f", col_of(m, a[0]), a[1].c())
    if k not in t.cells: t.cells[k] = Poly.sym(m.ctx.sym("f%d_%d_" % k[1:])); m.ctx.env.setdefault("fixval", []).append((deref(m, a[0]), k[2], t.cells[k]))
    return fe(t.cells[k])
def refs(m, a, fn):
    """the &mut F an iterable yields"""
    x = a[0]
    if isinstance(x, Nat) and x.kind == "iter": return [elem_ref(m, x.s, i) for i in range(x.i, x.n)]
    if isinstance(x, Ref):
        y = x
        while y.meta is None and isinstance(m.load(y.cell, y.path), Ref): y = m.load(y.cell, y.path)
        if y.meta is not None: return [elem_ref(m, y, i) for i in range(y.meta[1])]
        v = m.load(y.cell, y.path)
        if isinstance(v, Arr): return [elem_ref(m, Ref(y.cell, y.path, (0, len(v.items))), i) for i in range(len(v.items))]
    r, t = iters.arg_iter(m, a, fn)
    return list(iters.items(m, r, t))
class Interp:
    """value of a polynomial under a random assignment of the free symbols; names, inverses and cosets by their contracts"""
    def __init__(self, ctx, rng, omega, n, fixed=None):
        self.t = ctx.env["tab"]; self.ctx = ctx; self.r = rng; self.w = omega; self.n = n; self.free = fixed if fixed is not None else {}; self.v = {}; self.pc = {}
        self.x = None; self.xs = None
        e = ctx.env
        self.linv = {v.syms().copy().pop(): i for i, v in e.get("lag", {}).items()}
        self.inv = {s: d for s, d, z in e.get("inverses", [])}
        self.ptmap, self.evmap = e.get("ptmap", {}), e.get("evmap", {})
    def child(self, xs, x):
        """the same assignment, with the last challenge set to x"""
        o = Interp(self.ctx, self.r, self.w, self.n, self.free); o.pc = self.pc; o.x, o.xs = x, xs; o.v[xs] = x; o.base = self; return o
    def sym(self, s):
        v = self.v.get(s)
        if v is not None: return v
        t = self.t; b = getattr(self, "base", None)
        if s in t.named: a, b = t.named[s]; v = self(a) * self(b) % P
        elif s in t.inv:
            v = self(t.inv[s])
            v = pow(v, -1, P) if v else 0
        elif s in self.inv: v = pow(self(self.inv[s]), -1, P)
        elif s in self.ptmap: v = self(self.ptmap[s])
        elif s in self.evmap: c, pt = self.evmap[s]; v = self.at(c, self(pt))
        elif s in self.linv:
            if self.x is None: raise Undecided("Lagrange value before x")
            v = self.lag(self.x)[self.linv[s]]
        elif s in t.coset: c, f, i = t.coset[s]; v = self.at(c, f * pow(self.w, i, P) % P)
        elif s in self.free: v = self.free[s]
        else: v = self.free[s] = self.r.randrange(1, P)
        self.v[s] = v; return v
    def __call__(self, p):
        r = 0
        for m, c in p.t.items():
            for s, e in m:
                x = self.sym(s)
                c = c * (x if e == 1 else pow(x, e, P)) % P
            r += c
        return r % P
    def lag(self, x):
        """all l_i(x), x outside the domain"""
        if x not in self.pc:
            xn = (pow(x, self.n, P) - 1) * pow(self.n, -1, P) % P
            self.pc[x] = [xn * pow(self.w, i, P) * pow(x - pow(self.w, i, P), -1, P) % P for i in range(self.n)]
        return self.pc[x]
    def row(self, c):
        k = ("row", c)
        if k not in self.pc: self.pc[k] = [self(x) for x in self.t.rows[c]]
        return self.pc[k]
    def at(self, c, x): return sum(a * b for a, b in zip(self.row(c), self.lag(x))) % P
def run(rec, prog, ci, k, insts, q):
    C = contracts(prog); S = spec(ci)
    def setup(ctx, m):
        e = ctx.env; e["n"] = 1 << k; np_ = len(insts)
        p = Ref(ctx.new_cell(params(prog, ctx, k)))
        vk = m.call(prog.roots[PK.R + f"vk{ci}"], [p])
        if vk.v != 0: raise Failed("keygen_vk fails")
        e["vk"] = vk.f[0]
        vkr = Ref(ctx.new_cell(vk.f[0]))
        pk = m.call(prog.roots[R + f"c{ci}::pk"], [p, m.load(vkr.cell, vkr.path)])
        if pk.v != 0: raise Failed("keygen_pk fails")
        e["pk"] = pk.f[0]
        e["inst"] = [[syms(ctx, f"i{a}_{b}_", n) for b, n in enumerate(cols)] for a, cols in enumerate(insts)]
        rows = sl(ctx, [sl(ctx, [sl(ctx, [fe(x) for x in col]) for col in cols]) for cols in e["inst"]])
        cs = sl(ctx, [Agg([K(i + 1)]) for i in range(np_)])
        tr = Ref(ctx.new_cell(Agg([K(1)])))
        r = m.call(prog.roots[R + f"c{ci}::prove{'_q' if q else ''}"], [p, Ref(ctx.new_cell(pk.f[0])), cs, rows, Agg([K(1)]), tr])
        if r.v != 0: raise Failed("create_proof refuses an assignment")
        e["plog"] = e.pop("log"); e["log"] = []
        return [p, vkr, rows, tr]
    for ctx, out in paths(rec, prog, PK.R + ("verify_q" if q else "verify"), setup, contracts=C, fields=FIELDS_ADT):
        yield ctx, out

def sym1(p):
    if len(p.t) == 1:
        (mm, c), = p.t.items()
        if c == 1 and len(mm) == 1 and mm[0][1] == 1: return mm[0][0]
    return None
def goals(rec, prog, ctx, S, k, insts, q, omega, delta, seed):
    n = 1 << k; e = ctx.env; t = e["tab"]; pl, vl = e["plog"], e["log"]; rng = random.Random(seed); np_ = len(insts)
    # ---- transcripts
    goal_true(rec, [a for a, _ in pl] == [a for a, _ in vl], f"prover and verifier make the same transcript steps ({next((i for i, (a, b) in enumerate(zip(pl, vl)) if a[0] != b[0]), min(len(pl), len(vl)))} differs)")
    e["ptmap"] = {sym1(b[1]): a[1] for a, b in zip(pl, vl) if a[0] == "pt"}
    rev = {sym1(v): kk for kk, v in t.evals.items()}
    pts = {}
    e["evmap"] = {}
    for i, (a, b) in enumerate(zip(pl, vl)):
        if a[0] == "ev":
            s = sym1(a[1])
            if s not in rev: raise Failed(f"evaluation {i} written by the prover is not the evaluation of a polynomial")
            ck, pk_ = rev[s]
            if ck not in t.rows: raise Undecided("evaluation of a polynomial without known rows")
            e["evmap"][sym1(b[1])] = (ck, t.points[pk_])
    I = Interp(ctx, rng, omega, n)
    xs = sym1([p for a, p in vl if a == "ch"][-1])
    eq = lambda a, b, what: goal_true(rec, I(a) == I(b), what)
    for i, (a, b) in enumerate(zip(pl, vl)):
        if a[0] in ("absorb_point", "absorb_scalar", "ch"): eq(a[1], b[1], f"transcript step {i} ({a[0]}): prover and verifier absorb the same value")
    # ---- openings
    tq = adt(prog, r"^halo2_proofs::poly::(query::)?VerifierQuery<.*G1Affine, .*MSMKZG<.*>>$"); qn = names_of(prog, tq)
    tp = adt(prog, r"^halo2_proofs::poly::(query::)?ProverQuery<.*G1Affine>$"); pn = names_of(prog, tp)
    mt = adt(prog, r"MSMKZG<halo2curves::bn256::Bn256>$")
    if not {"point", "commitment", "eval"} <= set(qn) or not {"point", "poly"} <= set(pn): raise Undecided("query layout")
    vq = [dict(zip(qn, x.f)) for x in e.get("queries", [])]; pq = [dict(zip(pn, x.f)) for x in t.opens]
    goal_true(rec, len(vq) == len(pq), f"prover opens {len(pq)} times, verifier checks {len(vq)} openings")
    hv = None
    for i, (a, b) in enumerate(zip(pq, vq)):
        eq(a["point"].p, b["point"].p, f"opening {i}: same point")
        r = b["commitment"].f[0]
        while isinstance(r, Ref): r = ctx.m.load(r.cell, r.path)
        co = plist(deref(ctx.m, a["poly"])); ck = key(co)
        want = [I(sum((c * g for c, g in zip(co, e["g"])), Poly()))]
        if ck in t.rows: want.append(I(sum((c * g for c, g in zip(t.rows[ck], e["gl"])), Poly())))
        if isinstance(r, FE): com = r.p
        else:
            mf = dict(zip(names_of(prog, mt), r.f))
            if set(mf) != {"scalars", "bases"}: raise Undecided("MSM layout")
            com = sum((x.p * y.p for x, y in zip(mf["scalars"].items, mf["bases"].items)), Poly())
            goal_true(rec, hv is None, "one opening of the quotient"); hv = b["eval"].p
            goal_true(rec, I(com) in want, f"opening {i}: the prover opens the polynomial the verifier's quotient commitment commits to"); continue
        goal_true(rec, I(com) in want, f"opening {i}: the prover opens the polynomial the verifier's commitment commits to")
        ev = e["evmap"].get(sym1(b["eval"].p))
        goal_true(rec, ev is not None and ev[0] == ck and I(ev[1]) == I(a["point"].p), f"opening {i}: the claimed evaluation is the evaluation of the opened polynomial at the opened point")
    goal_true(rec, hv is not None, "the quotient is opened")
    # ---- commitments written before the openings
    pos = [0]
    def take(tag):
        goal_true(rec, pos[0] < len(pl) and pl[pos[0]][0] == tag, f"transcript step {pos[0]}"); pos[0] += 1; return pl[pos[0] - 1][1]
    while pl[pos[0]][0].startswith("absorb"): pos[0] += 1
    adv = [[None] * len(S.adv) for _ in range(np_)]; ch = []
    for ph in range(max(S.adv, default=0) + 1):
        for a in range(np_):
            for c, p in enumerate(S.adv):
                if p == ph: adv[a][c] = take("pt")
        if ph == 0: ch += [take("ch") for _ in range(S.nch)]
    theta = take("ch")
    E0 = Env(); E0.adv = E0.fix = E0.ins = lambda c, r: Poly(); E0.sel = E0.ch = lambda c: Poly()
    nl = len(S.lookups(E0))
    lp = [[(take("pt"), take("pt")) for _ in range(nl)] for _ in range(np_)]
    beta, gamma = I(take("ch")), I(take("ch"))
    rest = 0
    while pl[pos[0] + rest][0] == "pt": rest += 1
    nset = (rest - 1 - nl * np_) // np_
    zp = [[take("pt") for _ in range(nset)] for _ in range(np_)]; zl = [[take("pt") for _ in range(nl)] for _ in range(np_)]
    # ---- an assignment that satisfies the copy constraints and the lookups: copied cells take one value, (A', S') permutes (A, S)
    pt_ = adt(prog, r"^halo2_proofs::plonk::ProvingKey<halo2curves::bn256::G1Affine>$")
    ll = key(plist(field_of(prog, e["pk"], pt_, "l_last")[0]))
    if ll not in t.rows: raise Undecided("l_last")
    u = [I(x) for x in t.rows[ll]].index(1)
    free = {}
    J = Interp(ctx, rng, omega, n, free)
    cells = dict(t.cells)
    for a in range(np_):
        par = {}
        def find(x):
            par.setdefault(x, x)
            while par[x] != x: x = par[x]
            return x
        for c1, c2 in S.copies: par[find(c1)] = find(c2)
        def symof(c):
            kd, cc, r = c
            if kd == "a": return cells.get(("a", cc, r, a + 1), Poly())
            if kd == "f": return cells.get(("f", cc, r), Poly())
            col = e["inst"][a][cc]; return col[r] if r < len(col) else Poly()
        for rep in {find(c) for c in list(par)}:
            mem = [symof(c) for c in par if find(c) == rep]
            v = 0 if any(not x.t for x in mem) else next((free[sym1(x)] for x in mem if sym1(x) in free), rng.randrange(1, P))
            for x in mem:
                if x.t: free[sym1(x)] = v
    def rows(p): return [J(x) for x in PK.rows_of(ctx, p)]
    fixed, perm = PK.vk_view(prog, e["vk"])
    F = [rows(p) for p in fixed]; SG = [rows(p) for p in perm]
    selc = {j: [int(r in S.sel[j]) for r in range(n)] for j in range(len(S.sel))}
    beta, gamma, th = J(Poly.sym(sym1([p for a, p in pl if a == "ch"][len(ch) + 1]))), J(Poly.sym(sym1([p for a, p in pl if a == "ch"][len(ch) + 2]))), J(theta)
    pi = 0
    goal_true(rec, len(t.pairs) == nl * np_, "one permuted pair per lookup")
    for a in range(np_):
        A = [rows(p) for p in adv[a]]
        for c in range(len(A)):
            for r in range(u): goal_true(rec, A[c][r] == J(cells.get(("a", c, r, a + 1), Poly())), f"advice column {c} row {r} of proof {a} is what the circuit assigned")
        N = [[J(col[r]) if r < len(col) else 0 for r in range(n)] for col in e["inst"][a]]
        for j in range(nl):
            ia, is_, oa, os_ = t.pairs[pi]; pi += 1
            def comp(side, r):
                E = Env(); cst = lambda v: Poly.const(v)
                E.adv = lambda c, rt: cst(A[c][(r + rt) % n]); E.fix = lambda c, rt: cst(F[c][(r + rt) % n]); E.ins = lambda c, rt: cst(N[c][(r + rt) % n])
                E.sel = lambda s_: cst(selc[s_][r]); E.ch = lambda i: cst(J(ch[i]))
                return functools.reduce(lambda s_, v: (s_ * th + (v.mod(P).cval() if v.t else 0)) % P, S.lookups(E)[j][side], 0)
            ca, cs_ = [comp(0, r) for r in range(n)], [comp(1, r) for r in range(n)]
            for r in range(u):
                goal_true(rec, J(ia[r]) == ca[r], f"lookup {j} of proof {a}: compressed input at row {r}"); goal_true(rec, J(is_[r]) == cs_[r], f"lookup {j} of proof {a}: compressed table at row {r}")
            for o, v in ((oa, ca), (os_, cs_)):
                pm = list(range(u)); rng.shuffle(pm)
                for r in range(u): J.v[sym1(o[r])] = v[pm[r]]
            ra, rs = rows(lp[a][j][0]), rows(lp[a][j][1])
            goal_true(rec, ra[:u] == [J(x) for x in oa[:u]] and rs[:u] == [J(x) for x in os_[:u]], f"lookup {j} of proof {a}: the permuted pair is committed")
            z = rows(zl[a][j])
            goal_true(rec, z[0] == 1, f"lookup {j} of proof {a}: product starts at 1")
            for r in range(u): goal_true(rec, z[r + 1] * (ra[r] + beta) * (rs[r] + gamma) % P == z[r] * (ca[r] + beta) * (cs_[r] + gamma) % P, f"lookup {j} of proof {a}: product step at row {r}")
            goal_true(rec, z[u] == 1, f"lookup {j} of proof {a}: product ends at 1")
        if S.perm:
            Z = [rows(p) for p in zp[a]]; cols = [{"a": A, "f": F, "i": N}[kd][c] for kd, c in S.perm]; err = None
            for chunk in range(1, len(cols) + 1):
                if -(-len(cols) // chunk) != nset: continue
                err = None; last = 1
                for i, z in enumerate(Z):
                    if z[0] != last: err = f"product {i} of proof {a} starts at {'1' if i == 0 else 'the end of the one before'}"; break
                    for r in range(u):
                        l, rr = z[r + 1], z[r]
                        for j in range(i * chunk, min(len(cols), (i + 1) * chunk)):
                            l = l * (cols[j][r] + beta * SG[j][r] + gamma) % P; rr = rr * (cols[j][r] + beta * pow(delta, j, P) * pow(omega, r, P) + gamma) % P
                        if l != rr: err = f"product {i} of proof {a}: step at row {r}"; break
                    if err: break
                    last = z[u]
                if not err and last != 1: err = f"the products of proof {a} end at 1 when copied cells are equal"
                if not err: break
            goal_true(rec, nset > 0 and not err, f"permutation: {err}")
    # ---- the quotient numerator: the prover's coset values are the verifier's expression, and it fits the degree the prover allots
    vt = adt(prog, r"^halo2_proofs::plonk::VerifyingKey<halo2curves::bn256::G1Affine>$"); d, dt = field_of(prog, e["vk"], vt, "domain")
    ew = field_of(prog, d, dt, "extended_omega")[0].p.cval() % P; sh = field_of(prog, d, dt, "g_coset")[0].p.cval() % P
    for i in range(len(t.h)):
        x = sh * pow(ew, i, P) % P
        V = J.child(xs, x)
        goal_true(rec, V(hv) * (pow(x, n, P) - 1) % P == J(t.h[i]), f"quotient numerator at extended index {i}: prover and verifier compute the same combination of constraints")
    m_ = len(t.hc) + n
    X = [rng.randrange(2, P) for _ in range(m_ + 1)]; Y = [J.child(xs, x)(hv) * (pow(x, n, P) - 1) % P for x in X]
    dd = 0
    for i in range(m_ + 1):
        den = 1
        for j in range(m_ + 1):
            if j != i: den = den * (X[i] - X[j]) % P
        dd += Y[i] * pow(den, -1, P)
    goal_true(rec, dd % P == 0, f"the quotient has fewer than {len(t.hc)} coefficients")
PEP = "halo2_proofs::plonk::lookup::prover::permute_expression_pair"
def pep_obs(prog):
    """permute_expression_pair itself: its values are only compared, so an order pattern stands for all its instances"""
    def run_pep(rec, pats, u, k):
        n = 1 << k
        ids = [i for nm, l in prog.byname.items() if (nm.startswith(PEP + "::<") or nm == PEP) and "{closure" not in nm for i in l]
        if not ids: raise Undecided("permute_expression_pair is not instantiated")
        C = contracts(prog); C.pop(PEP)
        for nm in prog.byname:
            if nm.endswith("::blinding_factors") and "ConstraintSystem" in nm: C[nm] = lambda m, a, fn: K(n - u - 1)
        C["halo2_proofs::plonk::ConstraintSystem::<F>::blinding_factors"] = lambda m, a, fn: K(n - u - 1)
        got = []
        def setup(ctx, m):
            e = ctx.env; e["n"] = n
            p = Ref(ctx.new_cell(params(prog, ctx, k)))
            C2 = dict(m.contracts); m.contracts = {**C2}; 
            for nm in list(m.contracts):
                if nm.endswith("blinding_factors"): del m.contracts[nm]
            vk = m.call(prog.roots[PK.R + "vk0"], [p]).f[0]
            pk = Ref(ctx.new_cell(m.call(prog.roots[R + "c0::pk"], [p, vk]).f[0])); m.contracts = C2
            vt = adt(prog, r"^halo2_proofs::plonk::VerifyingKey<halo2curves::bn256::G1Affine>$"); d, dt = field_of(prog, vk, vt, "domain")
            dom = Ref(ctx.new_cell(d))
            for A, S_ in pats:
                args = [pk, p, dom, Agg([K(1)]), Ref(ctx.new_cell(pol([fe(x + 1) for x in A] + [fe(9)] * (n - u)))), Ref(ctx.new_cell(pol([fe(x + 1) for x in S_] + [fe(8)] * (n - u))))]
                fn = prog.fns[ids[0]]
                if "locals" in fn and prog.tys[fn["locals"][4]]["k"] == "ref": args[3] = Ref(ctx.new_cell(args[3]))
                try: r = m.call(ids[0], args)
                except Panic as ex: r = ex
                except Unsupported as ex: raise Unsupported(f"{ex} [in {m.stack[-1][:120]}]")
                got.append((A, S_, r))
            return [p]
        for ctx, o in paths(rec, prog, PK.R + "vk0", setup, contracts=C, fields=FIELDS_ADT): pass
        for A, S_, r in got:
            cex = {"inputs": {"input": list(A), "table": list(S_)}}
            if isinstance(r, Panic): raise Failed(f"permute_expression_pair panics on input {A}, table {S_} (usable rows, as ranks)", cex)
            inside = set(A) <= set(S_)
            goal_true(rec, (r.v == 0) == inside, f"permute_expression_pair on input {A}, table {S_} {'refuses' if inside else 'accepts'}", cex)
            if r.v: continue
            a, s = [[x.cval() - 1 if x.is_const() else None for x in plist(v)] for v in r.f[0].f]
            goal_true(rec, len(a) == len(s) == n, "permuted columns have n rows", cex)
            goal_true(rec, sorted(a[:u], key=str) == sorted(A, key=str) and sorted(s[:u], key=str) == sorted(S_, key=str), f"permuted columns are permutations on the usable rows (input {A}, table {S_})", cex)
            goal_true(rec, a[0] == s[0] and all(a[i] == s[i] or a[i] == a[i - 1] for i in range(1, u)), f"each permuted input equals its table entry or its predecessor (input {A}, table {S_})", cex)
            goal_true(rec, None not in a[:u] and None not in s[:u], "usable rows hold no randomness", cex)
    import itertools
    def allof(u):
        def f(rec):
            c = list(itertools.product(range(u), repeat=u))
            run_pep(rec, [(a, b) for a in c for b in c], u, 4)
        return f
    def some_(rec):
        g = random.Random(5); pats = []
        for _ in range(150):
            v = g.randrange(1, 9); S_ = tuple(g.randrange(v) for _ in range(9))
            pats.append((tuple(g.choice(S_) for _ in range(9)), S_))
        run_pep(rec, pats, 9, 4)
    return [Ob(f"plonk::lookup::permute_expression_pair, all order patterns of {u} usable rows", allof(u), timeout=400, bounded=f"{u} usable rows") for u in (1, 2, 3)] + [
            Ob("plonk::lookup::permute_expression_pair, sampled order patterns of 9 usable rows", some_, timeout=400, bounded="9 usable rows, 150 patterns")]
def obs(prog):
    out = pep_obs(prog)
    def one(ci, k, insts, q):
        def f(rec):
            S = spec(ci); omega = domain_omega_p(prog, k); delta = delta_of(prog); done = 0
            for ctx, o in run(rec, prog, ci, k, insts, q):
                if o[0] == "panic": raise Failed(f"create_proof or verify_proof panics: {o[1]}")
                if o[1].v != 0: raise Failed("verify_proof refuses the prover's transcript")
                for seed in (1, 2): goals(rec, prog, ctx, S, k, insts, q, omega, delta, seed)
                done += 1
            if not done: raise Undecided("no completing path")
        out.append(Ob(f"plonk::create_proof of circuit {ci}, k={k}, instances {insts}{' (committed)' if q else ''}", f, timeout=600, bounded="circuit shape: 4 circuits; all witness values, challenges, randomness symbolic"))
    one(3, 4, ((),), False); one(3, 5, ((), ()), True)
    one(2, 4, ((1, 3), (2, 0)), True); one(2, 4, ((1, 3),), False); one(1, 4, ((2,), (3,)), False); one(1, 5, ((2,),), False); one(1, 4, ((2,),), True)
    one(0, 4, ((),), False); one(0, 4, ((), ()), False); one(0, 5, ((),), False)
    return out
