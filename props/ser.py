"""halo2_proofs / ckb_bf_base: serialization of keys and parameters, over the codecs of field elements and points (contracts of P09 and P13).
The reader's contract is nondeterministic: at every read it may run out of input, at every checked element it may meet an invalid encoding;
so one exploration covers every point of truncation and every position of a bad encoding."""
import re
from .common import *
from .fields import fe_of
from .poly import *
from .poly import P, FR, NFR, GL, L, FIELDS_ADT
from . import plonk as PK, prove as PV
from .plonk import names_of, adt, field_of, params, sitems, ok, Opaque
B = "halo2curves::bn256::"
RS = "roots::ser::"
FMT = ("Processed", "RawBytes", "RawBytesUnchecked")
class Tok(Nat):
    """byte i of n of the encoding `what` of a value; n = 1 with what = poly/expr: a contracted sub-encoding"""
    def __init__(self, what, v, i, n): self.kind = "tok"; self.what = what; self.v = v; self.i = i; self.n = n
    def copy(self): return self
def err(): return Agg([Nat("err")], 1)
def ld(m, x):
    while isinstance(x, Ref) and x.meta is None: x = m.load(x.cell, x.path)
    return x
def same(m, a, b):
    """deep equality of two values"""
    a, b = ld(m, a), ld(m, b)
    if isinstance(a, Ref) or isinstance(b, Ref):
        if not (isinstance(a, Ref) and isinstance(b, Ref)): return False
        x, y = sitems(m, a), sitems(m, b)
        return len(x) == len(y) and all(same(m, i, j) for i, j in zip(x, y))
    if a is b: return True
    if isinstance(a, Int): return isinstance(b, Int) and not (a.p - b.p).t
    if isinstance(a, FE): return isinstance(b, FE) and a.fld is b.fld and not (a.p - b.p).mod(P).t
    if isinstance(a, Agg): return isinstance(b, Agg) and a.v == b.v and len(a.f) == len(b.f) and all(same(m, i, j) for i, j in zip(a.f, b.f))
    if isinstance(a, Arr): return isinstance(b, Arr) and len(a.items) == len(b.items) and all(same(m, i, j) for i, j in zip(a.items, b.items))
    if isinstance(a, Opaque): return isinstance(b, Opaque) and a.nm == b.nm
    if isinstance(a, Nat) and isinstance(b, Nat) and type(a) is type(b):
        da, db = a.__dict__, b.__dict__
        return set(da) == set(db) and all(same(m, da[k], db[k]) if isinstance(da[k], (Int, FE, Agg, Arr, Ref, Nat)) else str(da[k]) == str(db[k]) for k in da)
    if type(a) is type(b): return str(a) == str(b)
    return False
LEN = {"G1": (32, 64), "G2": (64, 128), "Fr": (32, 32)}
def codec(prog, C, forks=True):
    """contracts of the ghost reader and writer and of the element codecs"""
    def put(m, b): m.ctx.env.setdefault("out", []).extend(b)
    def gput(m, a, fn): put(m, sitems(m, a[1])); return ok(UNIT)
    C[RS + "ghost_put"] = gput
    def fork(m, why):
        e = m.ctx.env
        if e.get("fault") or not e.get("forks"): return False
        if m.ctx.decide(m.ctx.bool_sym("eof" if why == "truncated" else "bad")): e["fault"] = why; return True
        return False
    def take(m, n):
        e = m.ctx.env
        if e.get("fault"): raise Failed(f"reading goes on after the input was {e['fault']}")
        if fork(m, "truncated"): return None
        i = e.get("pos", 0); l = e["inp"]
        if i + n > len(l): return None
        e["pos"] = i + n; return l[i:i + n]
    def gget(m, a, fn):
        r = a[1]; n = len(sitems(m, r)); it = take(m, n)
        if it is None: return err()
        if isinstance(r, Ref) and r.meta is not None:
            base = m.load(r.cell, r.path); o = r.meta[0]; new = list(base.items); new[o:o + n] = it
            m.store(r.cell, r.path, Arr(new))
        else: m.store(r.cell, r.path, Arr(it))
        return ok(UNIT)
    C[RS + "ghost_get"] = gget
    def toks(what, v): return [Tok(what, v, i, LEN[what[:2]][what[2] == "r"]) for i in range(LEN[what[:2]][what[2] == "r"])]
    def val(what, it):
        """the value these bytes encode"""
        ts = [x for x in it if isinstance(x, Tok)]
        if len(ts) == len(it) and it and all(x.what == what and x.v is it[0].v and x.i == i for i, x in enumerate(it)) and len(it) == it[0].n: return it[0].v
        raise Failed(f"the bytes decoded as {what} are not the {what} bytes that were written")
    def bad(m, checked=True):
        return fork(m, "an invalid encoding")
    def src(m, r):
        """bytes of a reader: the ghost reader or a slice"""
        v = m.load(r.cell, r.path)
        while isinstance(v, Ref) and v.meta is None: r = v; v = m.load(r.cell, r.path)
        return (r, v) if isinstance(v, Ref) else (None, None)
    def get(m, rd, n):
        r, v = src(m, rd)
        if r is None: return take(m, n)
        it = m.slice_items(v)
        if len(it) < n: return None
        o, ln = v.meta; m.store(r.cell, r.path, Ref(v.cell, v.path, (o + n, ln - n))); return list(it[:n])
    def sink(m, w, b):
        v = m.load(w.cell, w.path); r = w
        while isinstance(v, Ref): r = v; v = m.load(r.cell, r.path)
        if isinstance(v, Arr): m.store(r.cell, r.path, Arr(list(v.items) + b))
        else: put(m, b)
    elem = {"G1": (B + "G1Affine", lambda m, x: FE(GL, L(m, x))), "G2": (B + "G2Affine", lambda m, x: ld(m, x)), "Fr": (NFR, lambda m, x: FE(FR, fe_of(m, x).p))}
    for k, (ty, view) in elem.items():
        raw = k + "r"; cmp_ = k + "c"; S = f"<{ty} as halo2curves::serde::SerdeObject>::"
        def wr(m, a, fn, view=view, raw=raw): sink(m, a[1], toks(raw, view(m, a[0]))); return ok(UNIT)
        def rd(m, a, fn, raw=raw, k=k):
            it = get(m, a[0], LEN[k][1])
            if it is None or bad(m): return err()
            return ok(val(raw, it))
        def ru(m, a, fn, raw=raw, k=k):
            if m.ctx.env.get("checked"): raise Failed(f"a {k} element is read without the checks its format promises")
            it = get(m, a[0], LEN[k][1])
            if it is None: raise Panic("read_raw_unchecked: truncated")
            return val(raw, it)
        def tb(m, a, fn, view=view, cmp_=cmp_, k=k):
            r = Arr(toks(cmp_, view(m, a[0]))); return Agg([r]) if k != "Fr" else r
        def fb(m, a, fn, cmp_=cmp_):
            x = ld(m, a[0]); x = ld(m, x.f[0]) if isinstance(x, Agg) else x
            if bad(m): return Agg([UNDEF, Agg([FALSE])])
            return Agg([val(cmp_, list(sitems(m, x) if isinstance(x, Ref) else x.items)), Agg([TRUE])])
        C[S + "write_raw"] = wr; C[S + "read_raw"] = rd; C[S + "read_raw_unchecked"] = ru
        if k == "Fr": C[f"<{ty} as ff::PrimeField>::to_repr"] = C[f"{ty}::to_bytes"] = tb; C[f"<{ty} as ff::PrimeField>::from_repr"] = C[f"{ty}::from_bytes"] = fb
        else: C[f"<{ty} as group::GroupEncoding>::to_bytes"] = tb; C[f"<{ty} as group::GroupEncoding>::from_bytes"] = fb
    return C
def sub_contract(C, write, read, what):
    """contract of a recursive / contracted encoder: one token"""
    def w(m, a, fn):
        if m.ctx.env.get("top") == what: m.ctx.env["top"] = None; return NotImplemented
        m.ctx.env.setdefault("out", []).append(Tok(what, (ld(m, a[0]), ld(m, a[2]).v), 0, 1)); return ok(UNIT)
    def r(m, a, fn):
        e = m.ctx.env
        if e.get("top") == what: e["top"] = None; return NotImplemented
        if e.get("fault"): raise Failed(f"reading goes on after the input was {e['fault']}")
        if e.get("forks"):
            if m.ctx.decide(m.ctx.bool_sym("bad")): e["fault"] = "truncated or invalid"; return err()
        i = e.get("pos", 0)
        if i >= len(e["inp"]): return err()
        t = e["inp"][i]
        if not (isinstance(t, Tok) and t.what == what): raise Failed(f"a {what} is read where something else was written")
        g = ld(m, a[1]).v
        if g == 2 and e.get("checked"): raise Failed(f"a {what} is read without the checks its format promises")
        if (t.v[1] == 0) != (g == 0): raise Failed(f"a {what} written in format {FMT[t.v[1]]} is read in format {FMT[ld(m, a[1]).v]}")
        e["pos"] = i + 1; return ok(t.v[0])
    C[write] = w; C[read] = r
EX = "halo2_proofs::plonk::Expression::<F>::"; PO = "halo2_proofs::poly::Polynomial::<F, B>::"; SA = "halo2_proofs::plonk::SelectorAssignment::<F>::"
def fmtv(prog, f): return Agg([], f)
def writer(ctx): return Ref(ctx.new_cell(Agg([K(1)])))
def run_write(rec, prog, root, mk, f, C, extra=lambda m: None, top=None):
    """one path: the bytes written for the value mk builds"""
    res = []
    def setup(ctx, m):
        v = mk(ctx, m); ctx.env["val"] = v; ctx.env["out"] = []; ctx.env["top"] = top
        return [v if isinstance(v, Ref) else Ref(ctx.new_cell(v)), writer(ctx)] + ([fmtv(prog, f)] if f is not None else [])
    for ctx, out in paths(rec, prog, root, setup, contracts=C, fields=FIELDS_ADT):
        r = no_panic(out, "write")
        goal_true(rec, r.v == 0, "writing to a sound writer succeeds")
        v = ctx.env["val"]; res.append((ctx, ld(ctx.m, v), list(ctx.env["out"])))
    if len(res) != 1: raise Undecided(f"{len(res)} writing paths")
    return res[0]
def run_read(rec, prog, root, w, f, C, what, forks=True, top=None, nofmt=False, conv=None):
    """every path of the reader on the bytes written"""
    wctx, val, out = w; done = 0
    def setup(ctx, m):
        e = ctx.env; e["inp"] = out + [K(0xA5)]; e["pos"] = 0; e["forks"] = forks and f != 2; e["checked"] = f != 2; e["top"] = top
        return [writer(ctx)] + ([] if nofmt else [fmtv(prog, f)])
    for ctx, o in paths(rec, prog, root, setup, contracts=C, fields=FIELDS_ADT, max_paths=4000):
        r = no_panic(o, f"{what}, {'honest input' if not ctx.env.get('fault') else 'input that is ' + ctx.env['fault']}: read")
        if ctx.env.get("fault"):
            goal_true(rec, r.v == 1, f"{what}: input that is {ctx.env['fault']} is refused"); continue
        goal_true(rec, r.v == 0, f"{what}: what was written is read back")
        goal_true(rec, ctx.env["pos"] == len(out), f"{what}: exactly the bytes written are consumed")
        got = ld(ctx.m, r.f[0])
        diff(rec, prog, ctx.m, wctx.m, val if conv is None else conv(val), got, what); done += 1
    if done != 1: raise Undecided(f"{done} successful reading paths")
def rebuild(m, x):
    """a value with every box and slice behind it inlined"""
    x = ld(m, x)
    if isinstance(x, Ref): return ("slice",) + tuple(rebuild(m, i) for i in sitems(m, x))
    if isinstance(x, Int): return ("int", x.p.key())
    if isinstance(x, FE): return ("fe", x.fld.name, x.p.mod(P).key())
    if isinstance(x, Agg): return ("agg", x.v) + tuple(rebuild(m, i) for i in x.f)
    if isinstance(x, Arr): return ("arr",) + tuple(rebuild(m, i) for i in x.items)
    if isinstance(x, Opaque): return ("opaque", x.nm)
    if isinstance(x, Tok): return ("tok", x.what, x.i, x.v if isinstance(x.v, tuple) else rebuild(m, x.v))
    if isinstance(x, FnV): return ("fn", str(x.inst))
    if isinstance(x, Nat): return (type(x).__name__,) + tuple((k, rebuild(m, v) if isinstance(v, (Int, FE, Agg, Arr, Ref, Nat)) else nat(m, v)) for k, v in sorted(x.__dict__.items()))
    return str(x)
def nat(m, v):
    if isinstance(v, (list, tuple)): return tuple(nat(m, i) for i in v)
    if isinstance(v, dict): return tuple(sorted((str(nat(m, k)), nat(m, x)) for k, x in v.items()))
    if isinstance(v, (Int, FE, Agg, Arr, Ref, Nat)): return rebuild(m, v)
    return str(v)
def diff(rec, prog, m2, m1, want, got, what):
    a, b = rebuild(m1, want), rebuild(m2, got)
    if a == b: rec.goals += 1; return
    tid = getattr(want, "ty", None)
    if tid is None: goal_true(rec, False, f"{what}: the value read back equals the value written")
    for i, n in enumerate(names_of(prog, tid)):
        goal_true(rec, a[2 + i] == b[2 + i], f"{what}: field {n} read back equals the one written")
    goal_true(rec, False, f"{what}: the value read back equals the value written")
# ---------------------------------------------------------------- obligations
def digest_contracts(prog, C):
    """the digest of a key is a function of what is formatted into it and of how it is hashed"""
    import hashlib
    fmt = lambda m, a, fn: Agg([Arr([Tok("text", rebuild(m, a[0]), 0, 1)])])
    def wide(m, a, fn): return fe(Poly.const(int.from_bytes(hashlib.sha512(repr(rebuild(m, a[0])).encode()).digest(), "big") % P))
    for n in prog.byname:
        if n.endswith("::fmt::format") or n == "std::fmt::format": C[n] = fmt
        if n.endswith("::from_bytes_wide") and NFR in n: C[n] = wide
    return C
def base_contracts(prog):
    return digest_contracts(prog, codec(prog, PK.contracts(prog)))
def make(prog, ctx, tid, rec_ty, depth=0):
    """an arbitrary value of a plain type; indices below 2^32, sub-expressions opaque"""
    t = prog.tys[tid]; s = t["s"]
    if s == NFR: return fe(Poly.sym(ctx.sym("f")))
    if s == "bool": return ctx.bool_sym("b")
    rng = {"usize": (0, 2**32 - 1), "u32": (0, 2**32 - 1), "u8": (0, 255), "i32": (-2**31, 2**31 - 1), "u64": (0, 2**64 - 1)}.get(s)
    if rng: return ctx.int_sym("n", *rng)
    if s == f"std::boxed::Box<{prog.tys[rec_ty]['s']}>" or tid == rec_ty and depth:
        o = Opaque(f"sub{len(ctx.env.setdefault('subs', []))}"); ctx.env["subs"].append(o)
        return Ref(ctx.new_cell(o)) if tid != rec_ty else o
    if t.get("k") == "adt" and t["kind"] == "struct": return Agg([make(prog, ctx, ft, rec_ty, depth + 1) for _, ft in t["v"][0]["f"]], 0, tid)
    raise Undecided(f"type {s}")
def match(rec, ctx, a, b, what):
    m = ctx.m; a, b = ld(m, a), ld(m, b)
    if isinstance(a, Int) and isinstance(b, Int): return goal_eq0(rec, ctx, a.p - b.p, what)
    if isinstance(a, Agg) and isinstance(b, Agg):
        goal_true(rec, a.v == b.v and len(a.f) == len(b.f), what)
        for x, y in zip(a.f, b.f): match(rec, ctx, x, y, what)
        return
    if isinstance(a, Arr) and isinstance(b, Arr):
        goal_true(rec, len(a.items) == len(b.items), what)
        for x, y in zip(a.items, b.items): match(rec, ctx, x, y, what)
        return
    goal_true(rec, rebuild(m, a) == rebuild(m, b), what)
def fid(prog, definition, *has):
    l = [i for i, f in prog.fns.items() if f["def"] == definition and all(h in f["name"] for h in has)]
    if len(l) != 1: raise Undecided(f"{definition}: {len(l)} instances")
    return l[0]
def roundtrip(rec, prog, wdef, rdef, mk, f, C, what, top, whas=("roots::ser::GW",), rhas=("roots::ser::GD",)):
    """write, then read, on one path; read explored over all truncations and invalid encodings"""
    w, r = fid(prog, wdef, *whas), fid(prog, rdef, *rhas); done = 0
    nargs = prog.fns[r].get("argc")
    def setup(ctx, m):
        e = ctx.env; e["top"] = top; v = mk(ctx, m); e["val"] = v; e["out"] = []
        x = m.call(w, [Ref(ctx.new_cell(v)), writer(ctx), fmtv(prog, f)])
        if x.v != 0: raise Failed(f"{what}: writing fails")
        e["inp"] = e["out"] + [K(0xA5)]; e["pos"] = 0; e["forks"] = f != 2; e["checked"] = f != 2; e["top"] = top
        return ([writer(ctx), fmtv(prog, f)])[:nargs]
    key = f"tmp:{rdef}"; prog.roots[key] = r
    for ctx, o in paths(rec, prog, key, setup, contracts=C, fields=FIELDS_ADT):
        e = ctx.env
        x = no_panic(o, f"{what}, {'honest input' if not e.get('fault') else 'input that is ' + e['fault']}: read")
        if e.get("fault"): goal_true(rec, x.v == 1, f"{what}: input that is {e['fault']} is refused"); continue
        goal_true(rec, x.v == 0, f"{what}: what was written is read back")
        goal_true(rec, e["pos"] == len(e["out"]), f"{what}: exactly the bytes written are consumed")
        match(rec, ctx, e["val"], x.f[0], f"{what}: the value read back equals the value written"); done += 1
    if not done: raise Undecided("no successful reading path")
def obs(prog):
    out = []
    def ob(name, f, **kw): out.append(Ob(name, f, **kw))
    et = adt(prog, r"^halo2_proofs::plonk::Expression<halo2curves::bn256::Fr>$")
    st = adt(prog, r"^halo2_proofs::plonk::SelectorAssignment<halo2curves::bn256::Fr>$")
    def CE():
        C = base_contracts(prog); sub_contract(C, EX + "write", EX + "read", "expression"); return C
    for f in range(3):
        for vi, v in enumerate(prog.tys[et]["v"]):
            def e1(rec, f=f, vi=vi, v=v):
                mk = lambda ctx, m: Agg([make(prog, ctx, t, et, 1) for _, t in v["f"]], vi, et)
                roundtrip(rec, prog, EX + "write", EX + "read", mk, f, CE(), f"Expression::{v['name']} in format {FMT[f]}", "expression")
            ob(f"Expression::{v['name']} survives write and read, {FMT[f]}", e1, timeout=60)
        def s1(rec, f=f):
            roundtrip(rec, prog, SA + "write", SA + "read", lambda ctx, m: make(prog, ctx, st, et), f, CE(), f"SelectorAssignment in format {FMT[f]}", None)
        ob(f"SelectorAssignment survives write and read, {FMT[f]}", s1, timeout=60)
    # ---- polynomials (by length), over the element codec
    pt = [t for t in (adt_all(prog, r"^halo2_proofs::poly::Polynomial<halo2curves::bn256::Fr, halo2_proofs::poly::(Coeff|LagrangeCoeff)>$"))]
    for f in range(3):
        for t in pt:
            basis = prog.tys[t]["s"].split("::")[-1][:-1]
            def p1(rec, f=f, t=t, basis=basis):
                for n in range(5):
                    mk = lambda ctx, m: struct_like(prog, t, values=Arr([fe(x) for x in syms(ctx, "c", n)]))
                    roundtrip(rec, prog, PO + "write", PO + "read", mk, f, base_contracts(prog), f"Polynomial of {n} values in format {FMT[f]}", None,
                              (f"poly::{basis}>", "roots::ser::GW"), (f"poly::{basis}>", "roots::ser::GD"))
            ob(f"Polynomial<{basis}> survives write and read, {FMT[f]}", p1, timeout=60, bounded="length <= 4; all values symbolic")
    # ---- keys of the four circuits
    cache = {}
    def CK():
        return digest_contracts(prog, codec(prog, PV.contracts(prog)))
    def CP():
        C = CK(); sub_contract(C, PO + "write", PO + "read", "polynomial"); return C
    def key(rec, ci, k, pk):
        def mk(ctx, m):
            ctx.env["n"] = 1 << k
            p = Ref(ctx.new_cell(params(prog, ctx, k)))
            r = m.call(prog.roots[PK.R + f"vk{ci}"], [p])
            if r.v != 0: raise Failed("keygen_vk fails")
            if not pk: return r.f[0]
            r = m.call(prog.roots[RS + f"c{ci}::pk"], [p, r.f[0]])
            if r.v != 0: raise Failed("keygen_pk fails")
            return r.f[0]
        return mk
    for ci in range(4):
        for f in range(3):
            for pk in (False, True):
                nm = "ProvingKey" if pk else "VerifyingKey"; q = "pk" if pk else "vk"
                def k1(rec, ci=ci, f=f, pk=pk, nm=nm, q=q):
                    C = CP() if pk else CK(); what = f"{nm} of circuit {ci} in format {FMT[f]}"
                    w = run_write(rec, prog, RS + q + "_write", key(rec, ci, 4, pk), f, C)
                    run_read(rec, prog, RS + f"c{ci}::{q}_read", w, f, C, what)
                ob(f"{nm} survives write and read, circuit {ci}, {FMT[f]}", k1, timeout=400, bounded="circuit shape: 4 circuits; all commitments and values symbolic")
                if ci != 1 or f == 2: continue
                def k2(rec, ci=ci, f=f, pk=pk, nm=nm, q=q):
                    C = CK(); what = f"{nm} of circuit {ci} in format {FMT[f]} (to_bytes, from_bytes)"
                    mk = key(rec, ci, 4, pk)
                    def setup(ctx, m):
                        v = mk(ctx, m); ctx.env["val"] = v; ctx.env["out"] = []
                        b = m.call(prog.roots[RS + q + "_bytes"], [Ref(ctx.new_cell(v)), fmtv(prog, f)])
                        m.call(prog.roots[RS + q + "_write"], [Ref(ctx.new_cell(v)), writer(ctx), fmtv(prog, f)])
                        tks = lambda l: [(x.what, x.i, rebuild(m, x.v)) if isinstance(x, Tok) else tk(x) for x in l]
                        goal_true(rec, tks(b.items) == tks(ctx.env["out"]), f"{what}: to_bytes returns what write writes")
                        return [sl(ctx, list(b.items)), fmtv(prog, f)]
                    for ctx, o in paths(rec, prog, RS + f"c{ci}::{q}_from", setup, contracts=C, fields=FIELDS_ADT):
                        r = no_panic(o, what); goal_true(rec, r.v == 0, f"{what}: from_bytes reads what to_bytes wrote")
                        diff(rec, prog, ctx.m, ctx.m, ctx.env["val"], ld(ctx.m, r.f[0]), what)
                ob(f"{nm}::from_bytes inverts to_bytes, circuit {ci}, {FMT[f]}", k2, timeout=400, bounded="circuit shape; all commitments and values symbolic")
    # ---- parameters
    for k in (0, 1, 2, 3):
        for f in range(3):
            def q1(rec, k=k, f=f):
                C = base_contracts(prog); what = f"ParamsKZG, k = {k}, format {FMT[f]}"
                w = run_write(rec, prog, RS + "params_write", lambda ctx, m: params(prog, ctx, k), f, C)
                run_read(rec, prog, RS + "params_read", w, f, C, what)
            ob(f"ParamsKZG survives write_custom and read_custom, k={k}, {FMT[f]}", q1, timeout=300, bounded="k <= 3; all points symbolic")
        def q2(rec, k=k):
            C = base_contracts(prog); what = f"ParamsKZG, k = {k}"
            w = run_write(rec, prog, RS + "params_write_std", lambda ctx, m: params(prog, ctx, k), None, C)
            run_read(rec, prog, RS + "params_read_std", w, 1, C, what, nofmt=True)
        ob(f"ParamsKZG survives write and read, k={k}", q2, timeout=300, bounded="k <= 3; all points symbolic")
    for k in (1, 2, 3):
        def q3(rec, k=k):
            C = base_contracts(prog); what = f"verifier parameters, k = {k}"
            def mk(ctx, m):
                c = Ref(ctx.new_cell(params(prog, ctx, k))); m.call(prog.roots[RS + "params_shrink"], [c]); return c
            w = run_write(rec, prog, RS + "params_write_std", mk, None, C)
            run_read(rec, prog, RS + "params_read_verifier", w, 1, C, what, nofmt=True)
        ob(f"shrunk verifier parameters survive write and read_verifier_params, k={k}", q3, timeout=300, bounded="k <= 3; all points symbolic")
    return out
def tk(x): return (x.what, id(x.v), x.i) if isinstance(x, Tok) else ("int", x.p.key()) if isinstance(x, Int) else str(x)
def adt_all(prog, rx): return sorted(i for i, t in prog.tys.items() if t.get("k") == "adt" and re.search(rx, t["s"]) and t.get("v"))
def struct_like(prog, tid, **kw):
    return Agg([kw[n] if n in kw else Agg([], 0, ft) for n, ft in prog.tys[tid]["v"][0]["f"]], 0, tid)
