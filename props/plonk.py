"""halo2_proofs: the plonk verifier and key generation, over the contracts of Fr, G1 (P08, P12), multiexp and the Lagrange values (P14)."""
from .common import *
from .fields import adt_fields, fe_of, invert_contract
from .poly import *
from .poly import P, FR, NFR, GL, L
from .poly import FIELDS_ADT
from . import poly as PL
R = "roots::plonk::"
SCH = "halo2_proofs"
def names_of(prog, tid): return [n for n, _ in prog.tys[tid]["v"][0]["f"]]
def adt(prog, rx):
    import re
    l = [i for i, t in prog.tys.items() if t.get("k") == "adt" and re.search(rx, t["s"]) and t.get("v")]
    if len(l) != 1: raise Undecided(f"type {rx}: {len(l)} candidates")
    return l[0]
def struct(prog, tid, **kw):
    ns = names_of(prog, tid)
    if set(ns) != set(kw): raise Undecided(f"fields of {prog.tys[tid]['s']}: {ns}")
    return Agg([kw[n] for n in ns], 0, tid)
def params(prog, ctx, k):
    n = 1 << k
    g = syms(ctx, "g", n); gl = syms(ctx, "gl", n)
    ctx.env["g"] = g; ctx.env["gl"] = gl
    t = adt(prog, r"ParamsKZG<halo2curves::bn256::Bn256>$")
    return struct(prog, t, k=K(k), n=K(n), g=Arr([ge(x) for x in g]), g_lagrange=Arr([ge(x) for x in gl]), g2=Opaque("g2"), s_g2=Opaque("s_g2"))
class Opaque(Nat):
    def __init__(self, nm): self.kind = "opaque"; self.nm = nm
    def copy(self): return self
class Blake(Nat):
    """ghost view of a blake2b state: its parameters and the byte sequences absorbed so far"""
    def __init__(self, par=(), data=(), kind="blake"): self.kind = kind; self.par = tuple(par); self.data = tuple(data)
    def copy(self, **kw): return Blake(**{"par": self.par, "data": self.data, "kind": self.kind, **kw})
def sitems(m, x):
    """items behind a slice / array / vector reference"""
    while isinstance(x, Ref):
        if x.meta is not None: return m.slice_items(x)
        x = m.load(x.cell, x.path)
    if isinstance(x, Arr): return x.items
    return [x]
def blake_contracts(C):
    def upd(f):
        def h(m, a, fn):
            r = a[0]
            v = m.load(r.cell, r.path); m.store(r.cell, r.path, f(m, v, a)); return r
        return h
    b = "blake2b_simd::"
    C[b + "Params::new"] = lambda m, a, fn: Blake()
    C[b + "Params::hash_length"] = upd(lambda m, v, a: v.copy(par=v.par + (("len", a[1].c()),)))
    for nm in ("personal", "salt", "key"): C[b + "Params::" + nm] = upd(lambda m, v, a, nm=nm: v.copy(par=v.par + ((nm, tuple(x.c() for x in sitems(m, a[1]))),)))
    C[b + "Params::to_state"] = lambda m, a, fn: m.load(a[0].cell, a[0].path).copy()
    C[b + "State::update"] = upd(lambda m, v, a: v.copy(data=v.data + tuple(sitems(m, a[1]))))
    C[b + "State::finalize"] = lambda m, a, fn: m.load(a[0].cell, a[0].path).copy(kind="digest")
    C["<blake2b_simd::State as std::clone::Clone>::clone"] = lambda m, a, fn: m.load(a[0].cell, a[0].path).copy()
    def arr(m, a, fn):
        v = m.load(a[0].cell, a[0].path)
        return Ref(m.ctx.new_cell(v))
    C[b + "Hash::as_array"] = arr; C[b + "Hash::as_bytes"] = arr
def contracts(prog):
    C = fr_contracts()
    blake_contracts(C)
    fmt = lambda m, a, fn: Agg([Arr([m.ctx.int_sym("fmt", 0, 255)])])
    for n in prog.byname:
        if n.endswith("::fmt::format") or n == "std::fmt::format": C[n] = fmt
    def msm(m, a, fn):
        def items(x):
            while isinstance(x, Ref) and x.meta is None: x = m.load(x.cell, x.path)
            if isinstance(x, Ref): return m.load(x.cell, x.path).items[x.meta[0]:x.meta[0] + x.meta[1]]
            return x.items
        c, b = items(a[0]), items(a[1])
        if len(c) != len(b): raise Panic("best_multiexp: lengths differ")
        return FE(GL, sum((fe_of(m, x).p * L(m, y) for x, y in zip(c, b)), Poly()).mod(P))
    for n in prog.byname:
        if n.startswith("halo2_proofs::arithmetic::best_multiexp") or n.startswith("halo2_proofs::arithmetic::small_multiexp"): C[n] = msm
        if n.endswith("::from_bytes_wide") and NFR in n: C[n] = lambda m, a, fn: m.ctx.env.setdefault("repr", fe(Poly.sym(m.ctx.sym("vk_repr"))))
        if "ghost_value" in n: C[n] = ghost_value
    return C
def ghost_value(m, a, fn):
    c = a[0]
    while isinstance(c, Ref): c = m.load(c.cell, c.path)
    s = Poly.sym(m.ctx.sym("fv")); m.ctx.env.setdefault("fixval", []).append((c, a[1].c(), s))
    return fe(s)
def ok(v): return Agg([v], 0)
def ghost_contracts(prog, C):
    def log(m): return m.ctx.env.setdefault("log", [])
    def fresh(m, tag):
        n = sum(1 for t, _ in log(m) if t == tag)
        s = Poly.sym(m.ctx.sym(f"{tag}{n}")); log(m).append((tag, s)); return s
    C[R + "ghost_read_point"] = lambda m, a, fn: ok(ge(fresh(m, "pt")))
    C[R + "ghost_read_scalar"] = lambda m, a, fn: ok(fe(fresh(m, "ev")))
    C[R + "ghost_squeeze"] = lambda m, a, fn: fe(fresh(m, "ch"))
    def cp(m, a, fn): log(m).append(("absorb_point", L(m, a[1]))); return ok(UNIT)
    def cs(m, a, fn): log(m).append(("absorb_scalar", fe_of(m, a[1]).p)); return ok(UNIT)
    C[R + "ghost_common_point"] = cp; C[R + "ghost_common_scalar"] = cs
    def q(m, a, fn):
        x = a[0]
        while isinstance(x, Ref): x = m.load(x.cell, x.path)
        m.ctx.env.setdefault("queries", []).append(x); return UNIT
    def li(m, a, fn):
        x, xn, r = fe_of(m, a[1]).p, fe_of(m, a[2]).p, a[3]
        lo, hi = r.f[0].c(), r.f[1].c() + (1 if len(r.f) == 3 else 0)
        e = m.ctx.env; e.setdefault("lagx", []).append((x, xn))
        return Arr([fe(lag(m.ctx, i)) for i in range(lo, hi)])
    for n in prog.byname:
        if "::l_i_range::<" in n and NFR in n: C[n] = li
        if n.startswith(R + "ghost_query"): C[n] = q
    return C
def lag(ctx, i):
    """symbol of the i-th Lagrange basis value at x (contract of l_i_range, P14)"""
    d = ctx.env.setdefault("lag", {}); i %= ctx.env["n"]
    if i not in d: d[i] = Poly.sym(ctx.sym(f"l{i}_"))
    return d[i]
def test_vk(prog, i=0, k=4):
    rec = Rec()
    def setup(ctx, m): return [Ref(ctx.new_cell(params(prog, ctx, k)))]
    for ctx, out in paths(rec, prog, R + f"vk{i}", setup, contracts=contracts(prog), fields=FIELDS_ADT):
        print(out[0], str(out[1])[:300])
def run_verify(rec, prog, ci, k, insts, q=False):
    """the real keygen_vk and verify_proof of circuit ci; insts: per proof, per instance column, number of values"""
    C = ghost_contracts(prog, contracts(prog))
    def setup(ctx, m):
        ctx.env["n"] = 1 << k
        p = Ref(ctx.new_cell(params(prog, ctx, k)))
        r = m.call(prog.roots[R + f"vk{ci}"], [p])
        if r.v != 0: raise Failed("keygen_vk fails")
        ctx.env["vk"] = r.f[0]
        ctx.env["inst"] = [[syms(ctx, f"i{a}_{b}_", n) for b, n in enumerate(cols)] for a, cols in enumerate(insts)]
        rows = [sl(ctx, [sl(ctx, [fe(x) for x in col]) for col in cols]) for cols in ctx.env["inst"]]
        return [p, Ref(ctx.new_cell(r.f[0])), sl(ctx, rows), Ref(ctx.new_cell(Agg([K(1)])))]
    for ctx, out in paths(rec, prog, R + ("verify_q" if q else "verify"), setup, contracts=C, fields=FIELDS_ADT):
        yield ctx, out
# ---------------------------------------------------------------- the circuits of roots/src/plonk.rs, as a specification
c_ = Poly.const
class Spec: pass
def spec(ci):
    S = Spec(); S.sel = []; S.fixed_cells = []; S.copies = []; S.perm = []; S.lookups = lambda E: []; S.nch = 0
    if ci == 0:
        S.adv = [0, 0]; S.nfix = 1; S.nins = 0
        def gates(E):
            x, y, z, q = E.adv(0, 0), E.adv(1, 1), E.adv(0, -1), E.fix(0, 0)
            return [(None, q * (x * y - z)), (None, q * (x + y.scale(5) - z + c_(7)))]
        S.fixed_cells = [(0, 0), (0, 3)]
    elif ci == 1:
        S.adv = [0, 0]; S.nfix = 1; S.nins = 1
        def gates(E):
            x, y, z, zn = E.adv(0, 0), E.adv(1, 0), E.ins(0, 0), E.ins(0, 1)
            return [(0, x * y - z + zn), (2, x - y.scale(3)), (2, x + y), (3, x - c_(11))]
        S.sel = [[0, 2], [1, 2, 3], [1, 4], [0, 5]]
        S.lookups = lambda E: [([E.sel(1) * E.adv(0, 0)], [E.fix(0, 0)])]
        S.perm = [("a", 0), ("i", 0)]; S.fixed_cells = [(0, 0), (0, 1), (0, 2)]
        S.copies = [(("a", 0, 0), ("i", 0, 1)), (("a", 0, 2), ("a", 0, 5)), (("i", 0, 1), ("a", 0, 2)), (("a", 0, 0), ("a", 0, 5))]
    elif ci == 3:
        S.adv = [0, 0]; S.nfix = 2; S.nins = 0
        def gates(E):
            x, y, xf, yf, q = E.adv(0, 0), E.adv(1, 0), E.adv(0, -5), E.adv(1, 7), E.fix(0, 0)
            return [(None, g) for g in (q * (x.scale(2) + (x * y).scale(2)), q * (x * x + y + y * y * y), q * (-x - y + yf.scale(10) + xf.scale(2)), q * (-x.scale(3) + xf + x - y + y * yf), q * (x + y) * (x + y) * (xf - yf))]
        S.lookups = lambda E: [([-(E.fix(0, 0) * E.adv(0, 0)) + E.adv(1, 0) * E.adv(1, 0) * E.fix(0, 0), E.adv(0, 0)], [E.fix(1, 2), (E.sel(0) * E.fix(1, 2)).scale(2)])]
        S.sel = [[2, 3, 5]]; S.fixed_cells = [(0, 0), (0, 3), (1, 1), (1, 4)]
    else:
        S.adv = [0, 0, 0, 0, 0, 1]; S.nfix = 4; S.nins = 2; S.nch = 1
        def gates(E):
            q, x, y, z, c, v = E.fix(0, 0), E.adv(0, 0), E.adv(1, 2), E.adv(5, 0), E.ch(0), E.ins(1, -1)
            return [(None, q * (x * c + y - z)), (None, q * (z - c * x) * v)]
        S.lookups = lambda E: [([E.fix(0, 0) * E.adv(2, 0), E.fix(0, 0) * E.adv(3, 1)], [E.fix(2, 0), E.fix(3, 0)]), ([E.adv(0, 0)], [E.fix(2, 0)])]
        S.perm = [("a", i) for i in range(5)] + [("i", 0), ("i", 1), ("a", 5), ("f", 1)]
        S.fixed_cells = [(0, 1), (1, 2), (2, 0), (3, 0), (3, 4)]
        S.copies = [(("a", 0, 0), ("a", 4, 3)), (("a", 4, 3), ("a", 5, 1)), (("f", 1, 2), ("a", 1, 2)), (("i", 0, 0), ("a", 2, 0)), (("i", 1, 3), ("a", 3, 4)), (("a", 0, 0), ("a", 5, 1)), (("a", 2, 0), ("a", 2, 0))]
    S.gates = gates
    return S
def field_of(prog, v, tid, name):
    ns = names_of(prog, tid)
    if name not in ns: raise Undecided(f"{prog.tys[tid]['s'][:60]} has no field {name}")
    k = ns.index(name); return v.f[k], prog.tys[tid]["v"][0]["f"][k][1]
def vk_view(prog, vk):
    t = adt(prog, r"^halo2_proofs::plonk::VerifyingKey<halo2curves::bn256::G1Affine>$")
    fc, _ = field_of(prog, vk, t, "fixed_commitments"); pm, pt = field_of(prog, vk, t, "permutation"); cm, _ = field_of(prog, pm, pt, "commitments")
    return [x.p for x in fc.items], [x.p for x in cm.items]
def rows_of(ctx, p):
    """row values of a commitment that is a combination of the Lagrange basis"""
    out = []; rest = p
    for g in ctx.env["gl"]:
        s, = g.syms(); co = Poly()
        for mm, c in p.t.items():
            d = dict(mm)
            if d.pop(s, 0) == 1: co = co + Poly({tuple(sorted(d.items())): c})
        out.append(co.mod(P)); rest = rest - co * g
    if rest.mod(P).t: raise Failed("a key commitment is not a combination of the Lagrange basis of the parameters")
    return out
def keygen_goals(rec, prog, ctx, S, omega, delta):
    n = ctx.env["n"]; fixed, perm = vk_view(prog, ctx.env["vk"])
    names = {}
    for col, row, s in ctx.env.get("fixval", []): names[(col.f[0].c() if isinstance(col.f[0], Int) else None, row)] = s
    goal_true(rec, len(fixed) >= S.nfix, "one commitment per fixed column")
    for c in range(S.nfix):
        got = rows_of(ctx, fixed[c])
        for r in range(n): goal_zero(rec, ctx, got[r] - names.get((c, r), Poly()), f"keygen: fixed column {c} row {r} is what the circuit assigned")
    selcols = []
    for c in range(S.nfix, len(fixed)):
        got = rows_of(ctx, fixed[c]); goal_true(rec, all(x.is_const() for x in got), "selector columns are constants")
        selcols.append([x.cval() % P if x.t else 0 for x in got])
    # permutation columns: identity labels delta^i omega^r; the map must be a permutation whose cycles are the copy classes
    goal_true(rec, len(perm) == len(S.perm), "one permutation commitment per equality-enabled column")
    lab = {}
    for i in range(len(S.perm)):
        for r in range(n): lab[pow(delta, i, P) * pow(omega, r, P) % P] = (i, r)
    goal_true(rec, len(lab) == n * len(S.perm), "cell labels are distinct")
    sig = {}
    for i, p in enumerate(perm):
        for r, x in enumerate(rows_of(ctx, p)):
            goal_true(rec, x.is_const() and (x.cval() % P) in lab, f"permutation column {i} row {r} holds a cell label"); sig[(i, r)] = lab[x.cval() % P]
    goal_true(rec, len(set(sig.values())) == len(sig), "the copy map is a permutation")
    par = {c: c for c in sig}
    def find(x):
        while par[x] != x: x = par[x]
        return x
    ix = {c: i for i, c in enumerate(S.perm)}
    for (k1, c1, r1), (k2, c2, r2) in S.copies: par[find((ix[(k1, c1)], r1))] = find((ix[(k2, c2)], r2))
    seen = set()
    for c0 in sig:
        if c0 in seen: continue
        cyc = set(); x = c0
        while x not in cyc: cyc.add(x); x = sig[x]
        seen |= cyc
        cls = {c for c in sig if find(c) == find(c0)}
        goal_true(rec, cyc == cls, f"keygen: the cycle of cell {c0} is its copy class")
    return fixed, perm, selcols
class Env: pass
def coeffs_in(p, s):
    out = {}
    for mm, c in p.t.items():
        d = dict(mm); e = d.pop(s, 0)
        out[e] = out.get(e, Poly()) + Poly({tuple(sorted(d.items())): c})
    return out
def verify_goals(rec, prog, ctx, S, k, insts, q, omega, delta):
    n = 1 << k; e = ctx.env; log = list(e["log"])
    fixed, perm, selcols = keygen_goals(rec, prog, ctx, S, omega, delta)
    pos = [0]
    def take(tag, what):
        goal_true(rec, pos[0] < len(log) and log[pos[0]][0] == tag, f"transcript: {what} expected at step {pos[0]}, found {log[pos[0]][0] if pos[0] < len(log) else 'end'}")
        pos[0] += 1; return log[pos[0] - 1][1]
    np_ = len(insts)
    goal_zero(rec, ctx, take("absorb_scalar", "the verifying key digest") - e["repr"].p, "the verifying key digest is absorbed first")
    icom = []
    for a in range(np_):
        icom.append([])
        for b, col in enumerate(e["inst"][a]):
            if q:
                p = take("absorb_point", "instance commitment"); want = sum((v * g for v, g in zip(col, e["gl"])), Poly())
                goal_zero(rec, ctx, p - want, "the absorbed point commits to the public values"); icom[a].append(p)
            else:
                for v in col: goal_zero(rec, ctx, take("absorb_scalar", "public value") - v, "every public value is absorbed")
    adv = [[None] * len(S.adv) for _ in range(np_)]; ch = []
    for ph in range(max(S.adv, default=0) + 1):
        for a in range(np_):
            for c, p in enumerate(S.adv):
                if p == ph: adv[a][c] = take("pt", "advice commitment")
        if ph == 0: ch += [take("ch", "phase challenge") for _ in range(S.nch)]
    theta = take("ch", "theta")
    E0 = Env(); E0.adv = E0.fix = E0.ins = lambda c, r: Poly(); E0.sel = E0.ch = lambda c: Poly()
    nl = len(S.lookups(E0))
    lp = [[(take("pt", "permuted input"), take("pt", "permuted table")) for _ in range(nl)] for _ in range(np_)]
    beta, gamma = take("ch", "beta"), take("ch", "gamma")
    rest = 0
    while pos[0] + rest < len(log) and log[pos[0] + rest][0] == "pt": rest += 1
    nset, r_ = divmod(rest - 1 - nl * np_, np_) if np_ else (0, 0)
    goal_true(rec, r_ == 0 and nset >= (1 if S.perm else 0), "permutation product commitments")
    zp = [[take("pt", "permutation product") for _ in range(nset)] for _ in range(np_)]
    zl = [[take("pt", "lookup product") for _ in range(nl)] for _ in range(np_)]
    rnd = take("pt", "random polynomial"); y = take("ch", "y")
    h = []
    while log[pos[0]][0] == "pt": h.append(take("pt", "h piece"))
    goal_true(rec, len(h) >= 1, "the quotient is committed to"); x = take("ch", "x")
    while pos[0] < len(log): take("ev", "evaluation")
    for xx, xn in e.get("lagx", []):
        goal_zero(rec, ctx, xx - x, "Lagrange values are taken at x"); goal_zero(rec, ctx, xn - ppow(x, n), "x^n")
    # openings
    W = {pow(omega, i, P): i for i in range(n)}
    xs, = x.syms()
    O = {}; msm = []
    tq = adt(prog, r"^halo2_proofs::poly::(query::)?VerifierQuery<.*G1Affine, .*MSMKZG<.*>>$"); qn = names_of(prog, tq)
    evs = {s for t, p in log if t == "ev" for s in p.syms()}
    for Q in e.get("queries", []):
        f = dict(zip(qn, Q.f))
        if set(qn) != {"point", "commitment", "eval"}: raise Undecided("query layout")
        pt = coeffs_in(f["point"].p, xs)
        goal_true(rec, set(pt) == {1} and pt[1].is_const() and pt[1].cval() % P in W, "opening points are rotations of x")
        rot = W[pt[1].cval() % P]
        cr = f["commitment"]; r = cr.f[0]
        while isinstance(r, Ref): r = ctx.m.load(r.cell, r.path)
        if isinstance(r, FE): O.setdefault((r.p.mod(P).key(), rot), []).append(f["eval"].p)
        else: msm.append((r, rot, f["eval"].p))
    def op(com, rot):
        l = O.get((com.mod(P).key(), rot % n))
        if not l: raise Failed(f"a commitment used by the constraints is not opened at rotation {rot}")
        return l[0]
    xn = ppow(x, n)
    goal_true(rec, len(msm) == 1 and msm[0][1] == 0, "one opening of the quotient, at x")
    mt = adt(prog, r"MSMKZG<halo2curves::bn256::Bn256>$"); mf = dict(zip(names_of(prog, mt), msm[0][0].f))
    if set(mf) != {"scalars", "bases"}: raise Undecided("MSM layout")
    hs = sum((a.p * b.p for a, b in zip(mf["scalars"].items, mf["bases"].items)), Poly())
    goal_zero(rec, ctx, hs - sum((xn_i * hh for xn_i, hh in zip([ppow(x, n * i) for i in range(len(h))], h)), Poly()), "the quotient commitment is recombined with powers of x^n")
    op(rnd, 0)
    # spec expressions
    l0, = [lag(ctx, 0)]
    bf = None
    def lagrange(lo, hi): return sum((lag(ctx, i) for i in range(lo, hi)), Poly())
    def build(chunk, bf):
        t = bf + 1
        llast, lblind = lag(ctx, -t), lagrange(-bf, 0); act = c_(1) - llast - lblind
        out = []
        for a in range(np_):
            E = Env()
            E.adv = lambda c, r: op(adv[a][c], r)
            E.fix = lambda c, r: op(fixed[c], r)
            E.ins = lambda c, r: op(icom[a][c], r) if q else sum((v * lag(ctx, i - r) for i, v in enumerate(e["inst"][a][c])), Poly())
            E.ch = lambda i: ch[i]
            def sel(j):
                for kk, col in enumerate(selcols):
                    if col == [int(r in S.sel[j]) for r in range(n)]: return op(fixed[S.nfix + kk], 0)
                raise Failed(f"no fixed column holds the values of selector {j}")
            E.sel = sel
            for s_, g in S.gates(E): out.append((s_, g))
            cols = [{"a": E.adv, "f": E.fix, "i": E.ins}[kd](c, 0) for kd, c in S.perm]
            if S.perm:
                z0 = [op(z, 0) for z in zp[a]]; z1 = [op(z, 1) for z in zp[a]]
                out.append((None, l0 * (c_(1) - z0[0]))); out.append((None, llast * (z0[-1] * z0[-1] - z0[-1])))
                for i in range(1, nset): out.append((None, l0 * (z0[i] - op(zp[a][i - 1], -t))))
                for i in range(nset):
                    L_, R_ = z1[i], z0[i]
                    for j in range(i * chunk, min(len(cols), (i + 1) * chunk)):
                        L_ = L_ * (cols[j] + beta * op(perm[j], 0) + gamma); R_ = R_ * (cols[j] + (beta * x).scale(pow(delta, j, P)) + gamma)
                    out.append((None, (L_ - R_) * act))
            for i, (inp, tab) in enumerate(S.lookups(E)):
                cmp_ = lambda l: __import__("functools").reduce(lambda s, v: s * theta + v, l, Poly())
                z, zn, ap, ai, sp = op(zl[a][i], 0), op(zl[a][i], 1), op(lp[a][i][0], 0), op(lp[a][i][0], -1), op(lp[a][i][1], 0)
                out += [(None, l0 * (c_(1) - z)), (None, llast * (z * z - z)), (None, act * (zn * (ap + beta) * (sp + gamma) - z * (cmp_(inp) + beta) * (cmp_(tab) + gamma))), (None, l0 * (ap - sp)), (None, act * (ap - sp) * (ap - ai))]
        return [(s_, g.mod(P)) for s_, g in out]
    # the claimed quotient value: (sum of constraint expressions, separated by powers of y) / (x^n - 1)
    hv = msm[0][2]; ys, = y.syms()
    inv = [(s_, d) for s_, d, z in e.get("inverses", []) if s_ in hv.syms()]
    goal_true(rec, len(inv) == 1, "the quotient value is a single division")
    sx = inv[0][0]; goal_zero(rec, ctx, inv[0][1] - (xn - c_(1)), "the divisor is x^n - 1")
    cf = coeffs_in(hv, sx); goal_true(rec, set(cf) == {1}, "the quotient value is proportional to 1/(x^n-1)")
    got = {i: p.mod(P) for i, p in coeffs_in(cf[1], ys).items()}
    got = {i: p for i, p in got.items() if p.t}   # expressions that vanish identically take no power
    # blinding factors: as many unusable rows as the code reserves; at least the largest number of openings of an advice column + 2
    bfs = sorted({-i for i in e["lag"] if False} | set(range(3, n - 2)))
    errs = None
    lim = [i for i in range(n) if i in e["lag"]]
    # t = bf+1 is fixed by the wrapping row: the Lagrange values asked for are -t..0
    neg = sorted(i - n for i in lim if i > n // 2)
    if not neg: raise Undecided("no blinding rows")
    bf = -neg[0] - 1 if not (S.nins and not q) else None
    cand = [bf] if bf is not None else [b for b in range(3, n // 2) if all((-(b + 1) + j) % n in e["lag"] for j in range(b + 2))]
    maxop = max((len({rt for (kk, rt) in O if kk == p.mod(P).key()}) for ad in adv for p in ad), default=0)
    best = None
    for b in cand:
        for chunk in range(1, max(2, len(S.perm) + 1)):
            if S.perm and -(-len(S.perm) // chunk) != nset: continue
            try: want = [w for w in build(chunk, b) if w[1].t]
            except Failed as ex: best = best or [str(ex)]; continue
            miss = match(rec, ctx, S, list(got.values()), want, selcols, fixed, op)
            if miss is None:
                goal_true(rec, len(got) == len(want), "as many powers of y as constraints")
                goal_true(rec, b >= max(3, maxop) + 1, f"{b} blinding rows hide {maxop} openings of an advice column and the lookup polynomials")
                return
            best = miss if best is None or len(miss) < len(best) else best
    raise Failed(f"the verifier's identity does not contain: {best[0] if best else 'the specified constraints'}")
def match(rec, ctx, S, got, want, selcols, fixed, op):
    """None if every specified constraint is (up to order and, for selectors, the combined-selector encoding) one of the expressions"""
    keys = {}
    for g in got: keys.setdefault(g.key(), []).append(g)
    miss = []
    for s_, w in want:
        rec.goals += 1
        if s_ is None:
            l = keys.get(w.key())
            if l: l.pop()
            else: miss.append(w.show()[:200])
            continue
        okk = False
        for kk, l in keys.items():
            if l and sel_match(S, s_, l[0], w, selcols, fixed, op): l.pop(); okk = True; break
        if not okk: miss.append(f"selector {s_} times {w.show()[:160]}")
    left = sum(len(l) for l in keys.values())
    if left and not miss: miss.append(f"{left} further expressions")
    return miss or None
def sel_match(S, j, g, w, selcols, fixed, op):
    n = len(selcols[0]) if selcols else 0
    m0 = next(iter(w.t))
    for kk, col in enumerate(selcols):
        try: q = op(fixed[S.nfix + kk], 0)
        except Failed: continue
        s, = q.syms()
        if s not in g.syms(): continue
        good = True
        for r in range(n):
            v = g.subst({s: c_(col[r])}).mod(P)
            c = v.t.get(m0, 0) * pow(w.t[m0], -1, P) % P
            if (v - w.scale(c)).mod(P).t or (c != 0) != (r in S.sel[j]): good = False; break
        if good: return True
    return False
def path_zero(ctx, p):
    """the path condition contains p == 0"""
    p = p.mod(P); m0 = next(iter(p.t))
    for b, v in ctx.asg.items():
        t = ctx.defs.get(b)
        one = v == 1 or (isinstance(v, Poly) and v.is_const() and v.cval() == 1)
        if one and t and t[0] == "fz":
            q = fin(ctx, t[2]).mod(P); c = q.t.get(m0, 0) * pow(p.t[m0], -1, P) % P
            if c and not (q - p.scale(c)).mod(P).t: return True
    return False
def verifier_obs(prog):
    obs = []
    def one(ci, k, insts, q):
        def f(rec):
            S = spec(ci); omega = domain_omega_p(prog, k); delta = delta_of(prog)
            done = 0
            for ctx, out in run_verify(rec, prog, ci, k, insts, q):
                if out[0] == "panic":
                    # x inside the domain: x^n = 1 has no quotient
                    x = [p for t, p in ctx.env.get("log", []) if t == "ch"][-1:]
                    if x and path_zero(ctx, ppow(x[0], 1 << k) - c_(1)): continue
                    raise Failed(f"verify_proof panics: {out[1]}")
                r = out[1]
                if r.v != 0: raise Failed("verify_proof refuses a well-formed proof")
                verify_goals(rec, prog, ctx, S, k, insts, q, omega, delta); done += 1
            if not done: raise Undecided("no accepting path")
        obs.append(Ob(f"plonk::verify_proof of circuit {ci}, k={k}, instances {insts}{' (committed)' if q else ''}", f, timeout=300, bounded="circuit shape: 4 circuits; all values, challenges, keys symbolic"))
    for k in (4, 5):
        one(0, k, ((),), False); one(1, k, ((2,),), False); one(2, k, ((1, 3),), False)
    one(3, 4, ((),), False); one(3, 4, ((), ()), True)
    one(0, 4, ((), ()), False); one(1, 4, ((0,), (3,)), False); one(2, 4, ((1, 0), (2, 2)), False)
    one(1, 4, ((2,),), True); one(2, 4, ((1, 3), (2, 0)), True)
    return obs
_c = {}
def domain_omega_p(prog, k):
    w = pow(7, (P - 1) >> 28, P)
    import functools
    # the omega of the code, read off the real EvaluationDomain (its order is proved in P14)
    t = adt(prog, r"EvaluationDomain<halo2curves::bn256::Fr>$")
    rec = Rec()
    def setup(ctx, m): return [Ref(ctx.new_cell(params(prog, ctx, k)))]
    for ctx, out in paths(rec, prog, R + "vk0", setup, contracts=contracts(prog), fields=FIELDS_ADT):
        vk = no_panic(out, "keygen").f[0]
        vt = adt(prog, r"^halo2_proofs::plonk::VerifyingKey<halo2curves::bn256::G1Affine>$")
        d, dt = field_of(prog, vk, vt, "domain")
        w = field_of(prog, d, dt, "omega")[0].p.cval() % P
    if not order_is(w, k): raise Failed("omega does not have order 2^k")
    return w
def delta_of(prog):
    """the coset label base: any element whose powers label disjoint cosets; here the field's DELTA = 7^(2^28)"""
    return pow(7, 1 << 28, P)
def test_v(prog, i=0, k=4, insts=((),)):
    for ctx, out in run_verify(Rec(), prog, i, k, insts):
        print(out[0], str(out[1])[:300])
        print([(a, b.show()[:20]) for a, b in ctx.env["log"]])
        for q in ctx.env.get("queries", []): print(str(q)[:200])
