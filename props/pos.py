"""poseidon: the optimised permutation is the Poseidon permutation (for all states and round constants, with the MDS matrix of the
parameter set), and the sponge absorbs, pads and squeezes as specified from an arbitrary history."""
from .common import *
from .fields import fe_of
from .poly import fr_contracts, fe, P, NFR, FIELDS_ADT, FR
from .plonk import names_of, adt
from functools import lru_cache

# ---- independent reference: Grain LFSR parameters (Poseidon paper, supplementary material F) ----
def grain(nbits, t, rf, rp):
    st = []
    for v, n in ((1, 2), (0, 4), (nbits, 12), (t, 12), (rf, 10), (rp, 10), ((1 << 30) - 1, 30)):
        st += [(v >> (n - 1 - i)) & 1 for i in range(n)]
    n = 0
    while True:
        b = st[62] ^ st[51] ^ st[38] ^ st[23] ^ st[13] ^ st[0]
        st.append(b); del st[0]; n += 1
        if n > 160: yield b
def kept(g):
    while True:
        a = next(g); b = next(g)
        if a: yield b
@lru_cache(None)
def parameters(t, rf, rp, p=P, nbits=254):
    s = kept(grain(nbits, t, rf, rp))
    def word():
        x = 0
        for _ in range(nbits): x = 2 * x + next(s)
        return x
    def el():
        while True:
            x = word()
            if x < p: return x
    rc = [[el() for _ in range(t)] for _ in range(rf + rp)]
    xs = [word() % p for _ in range(t)]; ys = [word() % p for _ in range(t)]
    return rc, [[pow(x + y, -1, p) for y in ys] for x in xs]

# ---- products of non-constant elements: the factors are named, so that x^5 stays one monomial ----
class Nodes:
    def __init__(self, ctx): self.ctx = ctx; self.by = {}; self.syms = set()
    def node(self, x):
        if len(x.t) == 1:
            (mo, c), = x.t.items()
            if c == 1 and mo and all(s in self.syms for s, _ in mo): return x
        k = x.key()
        if k not in self.by:
            s = self.ctx.sym("node"); self.by[k] = Poly.sym(s); self.syms.add(s)
        return self.by[k]
    def mul(self, x, y):
        x, y = x.mod(P), y.mod(P)
        if x.is_const() or y.is_const(): return (x * y).mod(P)
        return (self.node(x) * self.node(y)).mod(P)
def nodes(ctx):
    if "nodes" not in ctx.env: ctx.env["nodes"] = Nodes(ctx)
    return ctx.env["nodes"]
def contracts(t=None, rc=None, mds=None, perm=False):
    C = fr_contracts(group=False)
    def bi(m, a, fn): return FE(FR, nodes(m.ctx).mul(fe_of(m, a[0]).p, fe_of(m, a[1]).p))
    def asg(m, a, fn): m.store(a[0].cell, a[0].path, bi(m, a, fn)); return UNIT
    def sq(m, a, fn): x = fe_of(m, a[0]).p; return FE(FR, nodes(m.ctx).mul(x, x))
    for k in list(C):
        if "MulAssign" in k or k == f"{NFR}::mul_assign": C[k] = asg
        elif k.endswith("::mul") and (k.startswith(NFR) or "ops::Mul" in k): C[k] = bi
        elif k.endswith("::square"): C[k] = sq
        elif "pow" in k.split("::")[-1] or "::pow_vartime" in k: C.pop(k)
    C[f"<{NFR} as halo2curves::FieldExt>::from_u128"] = lambda m, a, fn: FE(FR, a[0].p.mod(P))
    if t:
        C["poseidon::grain::Grain::<F, T, RATE>::generate"] = lambda m, a, fn: Agg([Arr([Arr([fe(x) for x in row]) for row in rc(m.ctx, a[0].c(), a[1].c())]), Agg([Agg([Arr([Arr([fe(Poly.const(x)) for x in row]) for row in mds])])])])
    if perm:
        C["poseidon::Spec::<F, T, RATE>::new"] = lambda m, a, fn: Agg([mkint(0), a[0], a[1]])
        def permute(m, a, fn):
            w = state_of(m, a[1])
            ks = tuple(x.p.mod(P).key() for x in w.items); e = m.ctx.env.setdefault("perm", {})
            if ks not in e: e[ks] = [Poly.sym(m.ctx.sym("perm")) for _ in w.items]
            sp = m.load(a[0].cell, a[0].path); m.ctx.env.setdefault("specs", set()).add((sp.f[1].c(), sp.f[2].c()))
            m.store(a[1].cell, a[1].path, Agg([Arr([fe(x) for x in e[ks]])])); return UNIT
        C["poseidon::permutation::<impl poseidon::Spec<F, T, RATE>>::permute"] = permute
    return C
def state_of(m, r):
    v = r
    while isinstance(v, Ref): v = m.load(v.cell, v.path)
    if not (isinstance(v, Agg) and len(v.f) == 1 and isinstance(v.f[0], Arr)): raise Undecided("layout of the state")
    return v.f[0]
mkint = K

def reference(ctx, st, rc, mds, rf, rp):
    nd = nodes(ctx); t = len(st)
    def p5(x): x2 = nd.mul(x, x); return nd.mul(nd.mul(x, x2), x2)
    def lin(st):
        out = []
        for row in mds:
            a = Poly()
            for c, x in zip(row, st): a = a + x.scale(c)
            out.append(a.mod(P))
        return out
    for i in range(rf + rp):
        st = [(x + c).mod(P) for x, c in zip(st, rc[i])]
        st = [p5(x) for x in st] if i < rf // 2 or i >= rf // 2 + rp else [p5(st[0])] + st[1:]
        st = lin(st)
    return st
def perm_ob(prog, t, rf, rp):
    def f(rec):
        mds = parameters(t, rf, rp)[1]
        def rcs(ctx, a, b):
            e = ctx.env
            if "rc" not in e: e["rc"] = [[Poly.sym(ctx.sym("c")) for _ in range(t)] for _ in range(a + b)]
            return e["rc"]
        def setup(ctx, m):
            s = [Poly.sym(ctx.sym("s")) for _ in range(t)]; ctx.env["s"] = s
            c = ctx.new_cell(Agg([Arr([fe(x) for x in s])])); ctx.env["c"] = c
            return [mkint(rf), mkint(rp), Ref(c)]
        for ctx, o in paths(rec, prog, f"roots::pos::t{t}::perm", setup, contracts=contracts(t, rcs, mds), fields=FIELDS_ADT):
            no_panic(o, "permute")
            got = [x.p.mod(P) for x in state_of(ctx.m, Ref(ctx.env["c"])).items]
            if "rc" not in ctx.env: raise Undecided("the parameters do not come from Grain::generate")
            want = reference(ctx, ctx.env["s"], ctx.env["rc"], mds, rf, rp)
            for i in range(t): goal_true(rec, got[i] == want[i], f"word {i} of the permuted state")
    return f
def mk_hasher(prog, ctx, t, ab):
    T = adt(prog, rf"^poseidon::(\w+::)?Poseidon<.*Fr, {t}, {t - 1}>$"); ns = names_of(prog, T)
    if set(ns) != {"state", "spec", "absorbing"}: raise Undecided("layout of Poseidon")
    s = [Poly.sym(ctx.sym("s")) for _ in range(t)]; l = [Poly.sym(ctx.sym("a")) for _ in range(ab)]
    v = {"state": Agg([Arr([fe(x) for x in s])]), "spec": Agg([mkint(0), mkint(8), mkint(57)]), "absorbing": Arr([fe(x) for x in l])}
    return Agg([v[n] for n in ns], 0, T), s, l
def hasher_parts(prog, ctx, c):
    v = ctx.cells[c]; ns = names_of(prog, v.ty)
    g = lambda n: v.f[ns.index(n)]
    return [x.p.mod(P) for x in g("state").f[0].items], [x.p.mod(P) for x in g("absorbing").items]
def sim_perm(ctx, st):
    e = ctx.env.setdefault("perm", {}); ks = tuple(x.mod(P).key() for x in st)
    if ks not in e: return [Poly.sym(ctx.sym("perm")) for _ in st]
    return e[ks]
def absorb(ctx, st, pend):
    r = len(st) - 1
    while len(pend) >= r:
        st = sim_perm(ctx, [st[0]] + [a + b for a, b in zip(st[1:], pend)]); pend = pend[r:]
    return st, pend
def final(ctx, st, pend):
    x = pend + [Poly.const(1)]
    return sim_perm(ctx, [st[0]] + [a + b for a, b in zip(st[1:], x + [Poly()] * len(st))])
def obs(prog):
    out = []
    ob = lambda n, f, b=None: out.append(Ob(n, f, bounded=b))
    for t, rf, rp in ((2, 8, 56), (3, 8, 57), (5, 8, 57), (5, 8, 60), (9, 8, 63)):
        ob(f"permutation T={t} rounds {rf}+{rp}: equals the reference permutation for all states and round constants", perm_ob(prog, t, rf, rp))
    for t in (2, 3, 5, 9):
        def f(rec, t=t):
            for ctx, o in paths(rec, prog, f"roots::pos::t{t}::state", lambda ctx, m: [], contracts=contracts(), fields=FIELDS_ADT):
                v = no_panic(o, "default"); goal_true(rec, [x.p.cval() if x.p.is_const() else None for x in v.f[0].items] == [1 << 64] + [0] * (t - 1), "initial state (2^64, 0, ...)")
        ob(f"T={t}: initial state", f)
        def f(rec, t=t):
            for ctx, o in paths(rec, prog, f"roots::pos::t{t}::new", lambda ctx, m: [mkint(8), mkint(57)], contracts=contracts(perm=True), fields=FIELDS_ADT):
                v = no_panic(o, "new"); c = ctx.new_cell(v); s, a = hasher_parts(prog, ctx, c)
                goal_true(rec, [x.cval() if x.is_const() else None for x in s] == [1 << 64] + [0] * (t - 1) and a == [], "a new hasher starts from the initial state with nothing pending")
        ob(f"T={t}: a new hasher", f)
        r = t - 1
        for ab in range(r):
            def f(rec, t=t, ab=ab, r=r):
                for n in range(0, (3 if r < 4 else 2) * r + 2):
                    def setup(ctx, m):
                        v, s, l = mk_hasher(prog, ctx, t, ab); c = ctx.new_cell(v); x = [Poly.sym(ctx.sym("x")) for _ in range(n)]
                        ctx.env.update(c=c, s=s, l=l, x=x); return [Ref(c), Ref(ctx.new_cell(Arr([fe(y) for y in x])), (), (0, n))]
                    for ctx, o in paths(rec, prog, f"roots::pos::t{t}::update", setup, contracts=contracts(perm=True), fields=FIELDS_ADT):
                        no_panic(o, "update"); st, pd = hasher_parts(prog, ctx, ctx.env["c"])
                        ws, wp = absorb(ctx, ctx.env["s"], ctx.env["l"] + ctx.env["x"])
                        goal_true(rec, pd == wp, f"{n} more elements: the unabsorbed remainder is pending"); goal_true(rec, st == ws, f"{n} more elements: full blocks are added to the rate part and permuted, in order")
            ob(f"T={t}: absorbing any elements after any history with {ab} pending", f, f"up to {(3 if r < 4 else 2) * r + 1} elements per call; histories unbounded")
            def f(rec, t=t, ab=ab):
                def setup(ctx, m):
                    v, s, l = mk_hasher(prog, ctx, t, ab); c = ctx.new_cell(v); ctx.env.update(c=c, s=s, l=l); return [Ref(c)]
                for ctx, o in paths(rec, prog, f"roots::pos::t{t}::squeeze", setup, contracts=contracts(perm=True), fields=FIELDS_ADT):
                    v = no_panic(o, "squeeze"); st, pd = hasher_parts(prog, ctx, ctx.env["c"]); w = final(ctx, ctx.env["s"], ctx.env["l"])
                    goal_true(rec, pd == [] and st == w, "the pending elements and the padding one are added to the rate part and permuted once")
                    goal_true(rec, v.p.mod(P) == w[1], "the result is word 1 of the state")
            ob(f"T={t}: squeezing after any history with {ab} pending", f)
    return out
