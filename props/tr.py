"""halo2_proofs::transcript: Blake2b, Keccak-256 and Poseidon transcripts.  Every operation is straight-line code; it is executed
on an arbitrary past (a ghost mark) and arbitrary bytes, points and scalars, so the obligations hold for all histories."""
from .common import *
from .fields import fe_of
from .poly import fr_contracts, fe, ge, L, GL, P, NFR, G1A, FIELDS_ADT, goal_zero
from .plonk import names_of, adt, Blake, sitems, blake_contracts, Opaque
from .kzg import Enc, lv
B = "halo2curves::bn256::"
class Mark(Nat):
    def __init__(self): self.kind = "mark"
    def copy(self): return self
class Coord(Nat):
    def __init__(self, ax, p): self.kind = "coord"; self.ax = ax; self.p = p
    def copy(self): return self
class DB(Nat):
    """byte i of a digest"""
    def __init__(self, of, i): self.kind = "dbyte"; self.of = of; self.i = i
    def copy(self): return self
def key(x):
    if isinstance(x, Mark): return "past"
    if isinstance(x, Enc): return ("enc", x.what, x.p.mod(P).key(), x.i)
    if isinstance(x, DB): return ("digest", skey(x.of), x.i)
    if isinstance(x, Coord): return ("coord", x.ax, x.p.mod(P).key())
    if isinstance(x, FE): return ("fe", x.p.mod(P).key())
    if isinstance(x, Int): return ("int", x.c()) if x.is_const() else ("sym", x.p.key())
    if isinstance(x, tuple): return x
    raise Undecided(f"unknown item {type(x).__name__}")
def skey(b): return (b.kind, b.par, tuple(key(x) for x in b.data))
def contracts(prog):
    C = fr_contracts(); blake_contracts(C)
    def memo(m, k, f):
        e = m.ctx.env.setdefault("memo", {})
        if k not in e: e[k] = f()
        return e[k]
    def ld(m, r):
        while isinstance(r, Ref): r = m.load(r.cell, r.path)
        return r
    def dig(n):
        def h(m, a, fn):
            b = ld(m, a[0]); c = b.copy(); return Arr([DB(c, i) for i in range(n)])
        return h
    def hlen(b): return dict(x for x in b.par if isinstance(x, tuple) and x[0] == "len").get("len", 64)
    def bfin(m, a, fn):
        b = ld(m, a[0]).copy(); return Arr([DB(b, i) for i in range(hlen(b))])
    C["blake2b_simd::State::finalize"] = bfin
    def as_slice(m, a, fn):
        r = a[0]; v = ld(m, r); return Ref(m.ctx.new_cell(v), (), (0, len(v.items)))
    C["blake2b_simd::Hash::as_bytes"] = as_slice
    def as_arr(m, a, fn): return Ref(m.ctx.new_cell(ld(m, a[0])))
    C["blake2b_simd::Hash::as_array"] = as_arr
    def upd(m, a, fn):
        r = a[0]; v = m.load(r.cell, r.path); m.store(r.cell, r.path, v.copy(data=v.data + tuple(sitems(m, a[1])))); return r if fn["name"].startswith("blake") else UNIT
    C["<D as digest::digest::Digest>::new"] = C["<sha3::Keccak256 as std::default::Default>::default"] = lambda m, a, fn: Blake(kind="keccak")
    C["<D as digest::digest::Digest>::update"] = C["<sha3::Keccak256 as digest::Update>::update"] = upd
    C["<sha3::Keccak256 as std::clone::Clone>::clone"] = lambda m, a, fn: ld(m, a[0]).copy()
    C["<D as digest::digest::Digest>::finalize"] = C["digest::fixed::FixedOutput::finalize_fixed"] = dig(32)
    C["poseidon::poseidon::Poseidon::<F, T, RATE>::new"] = lambda m, a, fn: Blake(kind="poseidon", par=(("rounds", a[0].c(), a[1].c()), ("name", fn["name"])))
    C["poseidon::poseidon::Poseidon::<F, T, RATE>::update"] = upd
    def sq(m, a, fn):
        r = a[0]; v = m.load(r.cell, r.path)
        s = memo(m, ("squeeze", skey(v)), lambda: Poly.sym(m.ctx.sym("squeezed"))); m.ctx.env.setdefault("squeezed", {})[s.key()] = v.copy()
        m.store(r.cell, r.path, v.copy(data=v.data + (("squeezed",),))); return fe(s)
    C["poseidon::poseidon::Poseidon::<F, T, RATE>::squeeze"] = sq
    C["halo2_proofs::helpers::base_to_scalar"] = lambda m, a, fn: Coord("red " + ld(m, a[0]).ax, ld(m, a[0]).p)
    for n in prog.byname:
        if n.startswith("halo2_proofs::helpers::base_to_scalar"): C[n] = C["halo2_proofs::helpers::base_to_scalar"]
        if "GenericArray" in n and n.endswith("::as_slice"): C[n] = as_slice
    C["generic_array::GenericArray::<T, N>::as_slice"] = as_slice
    def to_repr(m, a, fn):
        v = ld(m, a[0])
        if isinstance(v, Coord): return Arr([Enc(v.ax, v.p, i) for i in range(32)])
        return Arr([Enc("scalar", fe_of(m, v).p, i) for i in range(32)])
    for f in (NFR, B + "Fq"): C[f"<{f} as ff::PrimeField>::to_repr"] = C[f"{f}::to_bytes"] = to_repr
    def enc(m, a, fn):
        p = lv(m, a[0]); return Agg([Arr([Enc("compressed", p, i) for i in range(32)])])
    C[f"<{G1A} as group::GroupEncoding>::to_bytes"] = enc
    def decode(what, mk):
        def h(m, a, fn):
            v = ld(m, a[0])
            if isinstance(v, Agg): v = v.f[0]
            it = v.items
            if all(isinstance(x, Enc) for x in it):
                if [(x.what, x.i) for x in it] == [(what, i) for i in range(32)] and len({x.p.mod(P).key() for x in it}) == 1: return Agg([mk(it[0].p), Agg([K(1)])])
                raise Unsupported("decoding rearranged bytes")
            if not all(isinstance(x, Int) for x in it): raise Unsupported("decoding mixed bytes")
            k = (what, tuple(x.p.key() for x in it))
            s = memo(m, k, lambda: (Poly.sym(m.ctx.sym(what)), m.ctx.bool_sym("valid")))
            m.ctx.env.setdefault("decoded", []).append((what, list(it), s)); return Agg([mk(s[0]), Agg([s[1]])])
        return h
    C[f"<{NFR} as ff::PrimeField>::from_repr"] = decode("scalar", fe)
    C["ff::PrimeField::from_repr_vartime"] = decode("scalar", fe)
    C[f"<{G1A} as group::GroupEncoding>::from_bytes"] = decode("compressed", ge)
    def coords(m, a, fn):
        p = lv(m, a[0]).mod(P); c = memo(m, ("affine", p.key()), lambda: m.ctx.bool_sym("affine"))
        ct = adt(prog, r"^halo2curves::Coordinates<")
        nm = names_of(prog, ct)
        return Agg([Agg([Coord(n, p) for n in nm], 0, ct), Agg([c])])
    C[f"<{G1A} as halo2curves::CurveAffine>::coordinates"] = coords
    def wide(m, a, fn):
        it = ld(m, a[0]).items; k = ("wide",) + tuple(key(x) for x in it)
        s = memo(m, k, lambda: Poly.sym(m.ctx.sym("challenge"))); m.ctx.env.setdefault("wide", []).append((s, list(it))); return fe(s)
    for n in prog.byname:
        if n.endswith("::from_bytes_wide") and NFR in n: C[n] = wide
    return C
def ty(prog, mod, side):
    nm = {"blake": "Blake2b", "keccak": "Keccak256", "pos": "Poseidon"}[mod] + ("Read" if side == "r" else "Write")
    return adt(prog, r"^halo2_proofs::transcript::(\w+::)*" + nm + "<")
def mk(prog, ctx, mod, side, io):
    t = ty(prog, mod, side); ns = names_of(prog, t); st = Blake(kind={"blake": "blake", "keccak": "keccak", "pos": "poseidon"}[mod], par=(("len", 64),) if mod == "blake" else (), data=(Mark(),))
    if "state" not in ns or not {"reader", "writer"} & set(ns): raise Undecided("transcript layout")
    return Agg([st if n == "state" else io if n in ("reader", "writer") else UNIT for n in ns], 0, t), t
def field(prog, t, v, n): return v.f[names_of(prog, t).index(n)]
FKT = {**FIELDS_ADT}
def run(rec, prog, mod, side, root, io, args):
    """-> list of (ctx, result value or Err, suffix absorbed, io object after)"""
    out = []
    def setup(ctx, m):
        v, t = mk(prog, ctx, mod, side, io(ctx)); c = ctx.new_cell(v); ctx.env["cell"] = c; ctx.env["t"] = t
        return [Ref(c)] + args(ctx)
    for ctx, o in paths(rec, prog, f"roots::tr::{mod}::{root}", setup, contracts=contracts(prog), fields=FKT):
        r = no_panic(o, root); v = ctx.cells[ctx.env["cell"]]; t = ctx.env["t"]
        st = field(prog, t, v, "state"); io_ = field(prog, t, v, "reader" if side == "r" else "writer")
        if not st.data or not isinstance(st.data[0], Mark): raise Failed(f"{root} forgets what was absorbed before")
        out.append((ctx, r, tuple(key(x) for x in st.data[1:]), io_, st))
    if not out: raise Undecided("no path")
    return out
def reader(n):
    def f(ctx):
        b = [ctx.int_sym(f"in{i}", 0, 255) for i in range(n)]; ctx.env["in"] = b; return Ref(ctx.new_cell(Arr(list(b))), (), (0, n))
    return f
def writer(ctx):
    b = [ctx.int_sym(f"out{i}", 0, 255) for i in range(3)]; ctx.env["out"] = b; return Arr(list(b))
def io_of(side): return reader(40) if side == "r" else writer
def pt(ctx): p = Poly.sym(ctx.sym("point")); ctx.env["p"] = p; return [ge(p)]
def sc(ctx): p = Poly.sym(ctx.sym("scalar")); ctx.env["p"] = p; return [fe(p)]
def okpaths(res, what):
    """paths by the shape of their result: Ok ones and Err ones"""
    return [x for x in res if x[1].v == 0], [x for x in res if x[1].v == 1]
def norm(sfx, ctx):
    """suffix with this path's point/scalar named"""
    pk = ctx.env["p"].mod(P).key()
    return tuple(tuple("*" if y == pk else y for y in x) if isinstance(x, tuple) else x for x in sfx)
def absorbed(rec, prog, mod, side, op, root=None):
    """suffix an operation absorbs when it succeeds (the same on every succeeding path)"""
    res = run(rec, prog, mod, side, root or f"{side}_common_{op}", io_of(side), pt if op == "point" else sc)
    good, bad = okpaths(res, op)
    if not good: raise Failed(f"{op}s are never absorbed")
    if op == "scalar" and bad: raise Failed("absorbing a scalar fails")
    s = {norm(x[2], x[0]) for x in good}
    if len(s) != 1: raise Failed(f"what is absorbed for a {op} depends on something else")
    for x in bad:                              # only points without affine coordinates
        a = [v for k, v in x[0].env["memo"].items() if k[0] == "affine"]
        goal_true(rec, len(a) == 1 and x[0].asg.get(next(iter(a[0].p.syms()))) in (0, c0), f"absorbing a {op} fails only for points without affine coordinates")
    return s.pop(), good, bad
c0 = Poly()
def obs(prog):
    out = []
    for mod, nm in (("blake", "Blake2b"), ("keccak", "Keccak256"), ("pos", "Poseidon")):
        def ob(name, f): out.append(Ob(f"{nm}: {name}", f, timeout=120))
        def f(rec, mod=mod):
            st = []
            for side in "rw":
                def setup(ctx, m): return [reader(4)(ctx) if side == "r" else writer(ctx)]
                for ctx, o in paths(rec, prog, f"roots::tr::{mod}::{side}_init", setup, contracts=contracts(prog), fields=FKT):
                    v = no_panic(o, "init"); st.append(skey(field(prog, ty(prog, mod, side), v, "state")))
                    io = field(prog, ty(prog, mod, side), v, "reader" if side == "r" else "writer")
                    goal_true(rec, [key(x) for x in sitems(ctx.m, io)] == [key(x) for x in (ctx.env["in"] if side == "r" else ctx.env["out"])], "init keeps the buffer")
            goal_true(rec, len(st) == 2 and st[0] == st[1], "reader and writer start from the same state")
            if mod == "blake": goal_true(rec, ("len", 64) in st[0][1], "challenges come from 64 bytes of digest")
        ob("reader and writer start from the same state", f)
        for op in ("point", "scalar"):
            def f(rec, mod=mod, op=op):
                r = absorbed(rec, prog, mod, "r", op)[0]; w = absorbed(rec, prog, mod, "w", op)[0]
                goal_true(rec, r == w, f"reader and writer absorb a {op} alike: {r[:3]} / {w[:3]}")
                if mod == "pos": want = [{("coord", "red x", "*")}, {("coord", "red y", "*")}] if op == "point" else [{("fe", "*")}]
                else: want = [{("enc", ax, "*", i) for i in range(32)} for ax in (("x", "y") if op == "point" else ("scalar",))]
                for k in want: goal_true(rec, k <= set(r), f"every part of the {op} is absorbed")
            ob(f"a {op} is absorbed in full, and alike by reader and writer", f)
        def f(rec, mod=mod):
            heads = []
            for op in ("point", "scalar"): heads.append(absorbed(rec, prog, mod, "r", op)[0])
            sq = run(rec, prog, mod, "r", "r_squeeze", reader(4), lambda ctx: [])
            if len(sq) != 1: raise Undecided("squeeze branches")
            heads.append(sq[0][2])
            for h in heads: goal_true(rec, bool(h) and isinstance(h[0], tuple) and h[0][0] == "int", f"every operation starts with a constant byte: {h[:1]}")
            goal_true(rec, len({h[0] for h in heads}) == 3, "points, scalars and challenges are told apart by their first byte")
        if mod != "pos": ob("the sequence of operations can be read off the absorbed bytes", f)
        def f(rec, mod=mod):
            got = []
            for side in "rw":
                for root in ("squeeze", "scalar_challenge"):
                    res = run(rec, prog, mod, side, f"{side}_{root}", io_of(side), lambda ctx: [])
                    if len(res) != 1: raise Undecided("squeeze branches")
                    ctx, r, sfx, io, st = res[0]
                    if not isinstance(r, FE): raise Undecided("challenge is not under contract")
                    goal_true(rec, len(sfx) > 0, "drawing a challenge changes the state (two challenges in a row differ)")
                    w = [x for x in ctx.env.get("wide", []) if x[0].mod(P) == r.p.mod(P)]
                    goal_true(rec, len(w) == 1, "the challenge is the reduction of a 64-byte string")
                    items = w[0][1]; goal_true(rec, len(items) == 64, "the challenge is the reduction of a 64-byte string")
                    if mod == "pos":
                        e = [x for x in items if isinstance(x, Enc)]
                        goal_true(rec, [x.i for x in e] == list(range(32)) and len({x.p.key() for x in e}) == 1 and e[0].p.key() in ctx.env["squeezed"], "the challenge is the squeezed element")
                        ds = [ctx.env["squeezed"][e[0].p.key()]]
                    else:
                        goal_true(rec, all(isinstance(x, DB) for x in items) and len({key(x) for x in items}) == 64, "the challenge uses 64 digest bytes")
                        ds = [x.of for x in items]
                    for d in ds: goal_true(rec, d.data and isinstance(d.data[0], Mark), "the digest covers everything absorbed before")
                    goal_true(rec, [key(x) for x in sitems(ctx.m, io)] == [key(x) for x in (ctx.env["in"] if side == "r" else ctx.env["out"])], "drawing a challenge leaves the proof alone")
                    got.append((sfx, tuple(key(x) for x in items) if mod != "pos" else None))
            goal_true(rec, all(g == got[0] for g in got), "reader and writer draw the same challenge")
        ob("a challenge is derived from everything absorbed, alike by reader and writer", f)
        for op in ("point", "scalar"):
            def f(rec, mod=mod, op=op):
                base = absorbed(rec, prog, mod, "w", op)[0]
                sfx, good, bad = absorbed(rec, prog, mod, "w", op, root=f"write_{op}")
                goal_true(rec, sfx == base, f"writing a {op} absorbs it like common_{op}")
                for ctx, r, s, io, st in good:
                    o = [key(x) for x in sitems(ctx.m, io)]; old = [key(x) for x in ctx.env["out"]]
                    enc = [("enc", "compressed" if op == "point" else "scalar", ctx.env["p"].mod(P).key(), i) for i in range(32)]
                    goal_true(rec, o == old + enc, f"the encoding of the {op} is appended to the proof")
            ob(f"writing a {op}", f)
            def f(rec, mod=mod, op=op):
                base = absorbed(rec, prog, mod, "r", op)[0]; n = 0
                res = run(rec, prog, mod, "r", f"read_{op}", reader(40), lambda ctx: [])
                for ctx, r, s, io, st in res:
                    d = ctx.env.get("decoded", [])
                    goal_true(rec, len(d) == 1 and [key(x) for x in d[0][1]] == [key(x) for x in ctx.env["in"][:32]], f"the next 32 bytes are decoded")
                    val, okc = d[0][2]; vv = ctx.asg.get(next(iter(okc.p.syms())))
                    vv = vv.cval() if isinstance(vv, Poly) and vv.is_const() else vv
                    if r.v == 0:
                        goal_true(rec, vv == 1, f"a {op} is returned only when its encoding is valid")
                        ctx.env["p"] = val; goal_zero(rec, ctx, r.f[0].p - val, f"the decoded {op} is returned")
                        goal_true(rec, norm(s, ctx) == base, f"a {op} that is read is absorbed like common_{op}")
                        goal_true(rec, [key(x) for x in sitems(ctx.m, io)] == [key(x) for x in ctx.env["in"][32:]], "32 bytes are consumed"); n += 1
                    else:
                        a = [v for k, v in ctx.env["memo"].items() if k[0] == "affine"]
                        av = ctx.asg.get(next(iter(a[0].p.syms()))) if a else None
                        av = av.cval() if isinstance(av, Poly) and av.is_const() else av
                        goal_true(rec, vv == 0 or (op == "point" and av == 0), f"reading a {op} fails only on an invalid encoding")
                if not n: raise Failed(f"reading a {op} never succeeds")
                for ln in (0, 31):
                    for ctx, r, s, io, st in run(rec, prog, mod, "r", f"read_{op}", reader(ln), lambda ctx: []): goal_true(rec, r.v == 1, "a truncated proof is refused")
            ob(f"reading a {op}", f)
        def f(rec, mod=mod):
            def setup(ctx, m): return [mk(prog, ctx, mod, "w", writer(ctx))[0]]
            for ctx, o in paths(rec, prog, f"roots::tr::{mod}::w_finalize", setup, contracts=contracts(prog), fields=FKT):
                goal_true(rec, [key(x) for x in no_panic(o, "finalize").items] == [key(x) for x in ctx.env["out"]], "finalize returns what was written")
        ob("finalize returns the written proof", f)
    return out
