"""Encodings of curve points and of Fq2, over the encoding contracts of the base fields (proved in P09 / here for Fq2)."""
from .curve import *
from .tower import mk_el, rd_el, flat, FQ
RI = lambda p: pow(R, -1, p)
def slice_of(m, x):
    """byte list behind a (reference to a) slice or array"""
    v = x
    while True:
        if isinstance(v, Arr): return v.items
        if isinstance(v, Agg) and len(v.f) == 1: v = v.f[0]; continue
        if isinstance(v, Ref):
            if v.meta is not None: return m.slice_items(v)
            v = m.load(v.cell, v.path); continue
        raise Unsupported("byte slice")
class Enc:
    """byte-level contract of a base field: dim coordinates of 32 little-endian bytes each"""
    def __init__(s, name, fld, p, dim): s.n, s.fld, s.p, s.dim = name, fld, p, dim
    def val(s, ctx, items, raw=False):
        k = RI(s.p) if raw else 1
        v = total(items[:32], 8).scale(k)
        if s.dim == 2: v = v + (total(items[32:64], 8) * Poly.sym(ctx.imag())).scale(k)
        return FE(s.fld, v.mod(s.p))
    def canon(s, ctx, items):
        b = TRUE
        for i in range(s.dim): b = ctx.and_(b, ctx.neg_ind(ctx.mk(total(items[32 * i:32 * i + 32], 8) - s.p)))
        return b
    def bytes(s, ctx, p, raw=False):
        """the canonical bytes of the element p (a memoised list of byte symbols)"""
        key = ("enc", s.n, raw, p.mod(s.p)); l = ctx.memo.get(key)
        if l is None:
            l = []
            for c in range(s.dim):
                w = [ctx.int_sym(f"e{c}_{i}", 0, 255) for i in range(31)] + [ctx.int_sym(f"e{c}_31", 0, (s.p - 1) >> 248)]
                ctx.facts.append(("ge0", (s.p - 1) - total(w, 8))); l += w
            ctx.memo[key] = l
        ctx.env.setdefault("enc", {})[(raw, p.mod(s.p))] = l
        return list(l)
    def odd(s, ctx, p):
        """parity; y and -y have opposite parity for y != 0 (y is never 0 where this is used)"""
        p = p.mod(s.p)
        if p.is_const() and not p.t: return FALSE
        lead = max(p.t.items(), key=lambda mc: mc[0])
        neg = lead[1] > s.p // 2
        q = (-p).mod(s.p) if neg else p
        key = ("odd", s.n, q); b = ctx.memo.get(key)
        if b is None: b = ctx.memo[key] = ctx.bool_sym("odd")
        return ctx.not_(b) if neg else b
    def contracts(s):
        n, C = s.n, {}
        def fb(m, a, fn):
            it = slice_of(m, a[0])
            if len(it) != 32 * s.dim: raise Unsupported("length")
            return Agg([s.val(m.ctx, it), Agg([s.canon(m.ctx, it)])])
        C[f"{n}::from_bytes"] = C[f"<{n} as ff::PrimeField>::from_repr"] = fb
        def tb(m, a, fn): return Arr(s.bytes(m.ctx, fe_of(m, a[0]).p))
        C[f"{n}::to_bytes"] = tb
        if s.dim == 1: C[f"<{n} as ff::PrimeField>::to_repr"] = tb
        C[f"<{n} as ff::PrimeField>::is_odd"] = lambda m, a, fn: Agg([s.odd(m.ctx, fe_of(m, a[0]).p)])
        def sq(m, a, fn):
            ctx = m.ctx; g = ired(ctx, fe_of(m, a[0]).p, s.p)
            key = ("sqrt", s.n, g); v = ctx.memo.get(key)
            if v is None: v = ctx.memo[key] = (Poly.sym(ctx.sym("root")), ctx.bool_sym("issq"))
            ctx.env.setdefault("sqrt", {})[g] = v
            return Agg([FE(s.fld, v[0]), Agg([v[1]])])
        C[f"<{n} as ff::Field>::sqrt"] = sq
        S = "halo2curves::serde::SerdeObject"
        def opt(m, it, mk_some, mk_none):
            ctx = m.ctx
            return mk_some(s.val(ctx, it, True)) if ctx.decide(s.canon(ctx, it)) else mk_none()
        some, none = (lambda v: Agg([v], 1)), (lambda: Agg([], 0))
        ok, err = (lambda v: Agg([v], 0)), (lambda: Agg([Nat("err")], 1))
        def frb(m, a, fn):
            it = slice_of(m, a[0])
            return opt(m, it, some, none) if len(it) == 32 * s.dim else none()
        C[f"<{n} as {S}>::from_raw_bytes"] = frb
        C[f"<{n} as {S}>::from_raw_bytes_unchecked"] = lambda m, a, fn: s.val(m.ctx, slice_of(m, a[0]), True)
        C[f"<{n} as {S}>::to_raw_bytes"] = lambda m, a, fn: Arr(s.bytes(m.ctx, fe_of(m, a[0]).p, True))
        def rd(m, a, fn):
            r = a[0]
            v = m.load(r.cell, r.path)
            while isinstance(v, Ref) and v.meta is None: r = v; v = m.load(r.cell, r.path)
            if not isinstance(v, Ref): raise Unsupported("reader")
            it = m.slice_items(v); k = 32 * s.dim
            if len(it) < k: return err()
            off, ln = v.meta
            m.store(r.cell, r.path, Ref(v.cell, v.path, (off + k, ln - k)))
            return opt(m, it[:k], ok, err)
        C[f"<{n} as {S}>::read_raw"] = rd
        def wr(m, a, fn):
            r = a[1]
            v = m.load(r.cell, r.path)
            while isinstance(v, Ref): r = v; v = m.load(r.cell, r.path)
            if not isinstance(v, Arr): raise Unsupported("writer")
            m.store(r.cell, r.path, Arr(list(v.items) + s.bytes(m.ctx, fe_of(m, a[0]).p, True))); return ok(UNIT)
        C[f"<{n} as {S}>::write_raw"] = wr
        out = {}
        for k, v in C.items():      # methods may be instantiated for a reader / writer type
            out[k] = v; out[k + "::<std::vec::Vec<u8>>"] = v; out[k + "::<&[u8]>"] = v
        return out
def encs():
    return {"g1": Enc(FIELDS["bn_fq"][0], FLD["bn_fq"], Q, 1), "g2": Enc(N2, FLD2, Q, 2), "secp": Enc(FIELDS["secp_fp"][0], FLD["secp_fp"], P_("secp_fp"), 1)}
def dec_ob(prog, cv, en, op, n):
    """decoding: the bytes decode to (value, canonical?) by the base-field contract; every outcome is followed to the end"""
    def f(rec):
        C = dict(cv.C(), **en.contracts())
        def ent(ctx, it):
            key = ("fb", tuple(x.p for x in it)); v = ctx.memo.get(key)
            if v is None:
                can = ctx.decide(ctx.bool_sym("canonical"))
                x = Poly.sym(ctx.sym("x"))
                if ctx.decide(ctx.fe_zero_ind(cv.fld, x)): x = Poly()
                else: ctx.nz.append(x)
                v = ctx.memo[key] = (x, can)
            return v
        def fb(m, a, fn):
            it = slice_of(m, a[0])
            if len(it) != 32 * en.dim: raise Unsupported("length")
            x, can = ent(m.ctx, it)
            return Agg([FE(cv.fld, x), Agg([TRUE if can else FALSE])])
        for k in (f"{en.n}::from_bytes", f"<{en.n} as ff::PrimeField>::from_repr"): C[k] = fb
        def sq(m, a, fn):
            ctx = m.ctx; g = ired(ctx, fe_of(m, a[0]).p, cv.p)
            key = ("sqrt", g); v = ctx.memo.get(key)
            if v is None:
                isb = not ired(ctx, g - bconst(ctx, cv), cv.p).t
                ok = not isb and ctx.decide(ctx.bool_sym("issq"))      # b is not a square (separate obligation)
                y = Poly.sym(ctx.sym("root"))
                if ok: ctx.nz.append(y)
                v = ctx.memo[key] = (y, ok)
            ctx.env.setdefault("sqrt", {})[g] = v
            return Agg([FE(cv.fld, v[0]), Agg([TRUE if v[1] else FALSE])])
        C[f"<{en.n} as ff::Field>::sqrt"] = sq
        def odd(m, a, fn):
            b = en.odd(m.ctx, fe_of(m, a[0]).p)
            return Agg([TRUE if m.ctx.decide(b) else FALSE])
        C[f"<{en.n} as ff::PrimeField>::is_odd"] = odd
        def setup(ctx, m):
            v = word_syms(ctx, "enc", n, 8)
            top = ctx.decide(ctx.bool_sym("sign"))
            lo = ctx.int_sym("low7", 0, 127)
            if n != 32 * en.dim:
                ctx.env["pad"] = not ctx.decide(ctx.zero_ind(lo))
                if not ctx.env["pad"]: lo = ctx.mk(Poly(), 0, 0)
            v[-1] = ctx.mk(lo.p + (128 if top else 0), 128 if top else 0, 255 if top else 127)
            ctx.env.update(by=v, top=top, lo=lo)
            return [Ref(ctx.new_cell(Arr(v)))]
        for ctx, r in crun(rec, prog, cv, op, setup, C, cv.F, max_paths=256):
            by, top = ctx.env["by"], ctx.env["top"]
            xb = list(by[:32 * en.dim])
            if n == 32 * en.dim: xb[-1] = ctx.env["lo"]
            some = ctx.nrm(r.f[1].f[0])
            if not some.is_const():
                if ctx.solver.prove(("eq0", fin(ctx, some.p)))[0]: some = FALSE
                elif ctx.solver.prove(("eq0", fin(ctx, 1 - some.p)))[0]: some = TRUE
                else: raise Undecided("acceptance")
            some = bool(some.c())
            w = f"{cv.key}.{op}"
            cex = {"inputs": {}}
            v = next((v for k, v in ctx.memo.items() if isinstance(k, tuple) and k[0] == "fb" and
                      all(not fin(ctx, p - q.p).t for p, q in zip(k[1], xb))), None)
            if v is None:
                if some: raise Failed(f"{w}: accepted without decoding the x bytes (sign bit removed)", cex)
                if ctx.env.get("pad"): continue
                raise Undecided("x not decoded")
            x, can = v
            if not can or ctx.env.get("pad"):
                goal_true(rec, not some, f"{w}: a non-canonical string is refused", cex); continue
            g = ired(ctx, x * x * x + bconst(ctx, cv), cv.p)
            if not x.t:
                goal_true(rec, some == (not top), f"{w}: x = 0 is the identity without sign, and refused with sign", cex)
                if some:
                    co = [c.p for c in r.f[0].f]
                    if len(co) == 3: goal_true(rec, not co[2].t, f"{w}: identity", cex)
                    else: goal_true(rec, not co[0].t and not co[1].t, f"{w}: identity", cex)
                continue
            rt = ctx.env.get("sqrt", {}).get(g)
            if rt is None:
                if some: raise Failed(f"{w}: accepted without a square root of x^3 + b", cex)
                if ctx.env.get("sqrt"): raise Failed(f"{w}: the root taken is not that of x^3 + b", cex)
                raise Undecided("no square root taken")
            goal_true(rec, some == rt[1], f"{w}: accepted exactly if x^3 + b is a square", cex)
            if not some: continue
            co = [ired(ctx, c.p, cv.p) for c in r.f[0].f]
            goal_true(rec, co[0] == x, f"{w}: x of the point", cex)
            pos, neg = co[1] == rt[0], not (co[1] + rt[0]).mod(cv.p).t
            goal_true(rec, pos or neg, f"{w}: y is a root of x^3 + b", cex)
            goal_eq0(rec, ctx, fin(ctx, en.odd(ctx, co[1]).p - (1 if top else 0)), f"{w}: the sign of y is the sign bit")
            if len(co) == 3: goal_true(rec, co[2] == ONE, f"{w}: z", cex)
    return Ob(f"{cv.key}::{op}", f)
def enc_ob(prog, cv, en, op, kind, n):
    def f(rec):
        C = dict(cv.C(), **en.contracts())
        for case in ("id", "P"):
            def setup(ctx, m):
                p = None if case == "id" else (sym(ctx, "x1"), sym(ctx, "y1", True)); ctx.env["p"] = p
                return [Ref(ctx.new_cell(point(ctx, cv, kind, "p", p)))]
            for ctx, v in crun(rec, prog, cv, op, setup, C, cv.F):
                it = v.items
                goal_true(rec, len(it) == n, f"{cv.key}.{op}: length")
                if case == "id":
                    for b in it: goal_eq0(rec, ctx, b.p, f"{cv.key}.{op}: identity encodes as zeros")
                    continue
                # the affine values actually encoded equal (x1, y1) after cancelling inverses
                ents = [(k, l) for (raw, k), l in ctx.env.get("enc", {}).items() if not raw]
                if len(ents) != 1: raise Undecided("x is not encoded by the base field")
                xp, xb = ents[0]
                x, y = ctx.env["p"]
                goal_true(rec, not unit_red(ctx, cv, xp - x).t, f"{cv.key}.{op}: encodes the affine x", {"inputs": {}})
                odds = [(k[2], b) for k, b in ctx.memo.items() if isinstance(k, tuple) and k[0] == "odd"]
                if len(odds) != 1: raise Undecided("sign")
                yp, ob = odds[0]
                same = not unit_red(ctx, cv, yp - y).t; opp = not unit_red(ctx, cv, yp + y).t
                goal_true(rec, same or opp, f"{cv.key}.{op}: the sign is that of the affine y", {"inputs": {}})
                o = ob if same else ctx.not_(ob)
                want = [b.p for b in xb] + [Poly()] * (n - len(xb))
                want[-1] = want[-1] + o.p.scale(128)
                for i, (g, w) in enumerate(zip(it, want)):
                    goal_eq0(rec, ctx, fin(ctx, g.p - w), f"{cv.key}.{op}: byte {i}")
    return Ob(f"{cv.key}::{op}", f)
def fact_ob(prog, cv):
    """facts of the curve constants the encoding rests on: no point has x = 0 or y = 0"""
    def f(rec):
        for ctx, v in crun(rec, prog, cv, "b", lambda ctx, m: []):
            b = cval(ctx, v, cv.p); p = cv.p
            def epow(a, e):
                r = (1, 0)
                while e:
                    if e & 1: r = emul(r, a, p)
                    a = emul(a, a, p); e >>= 1
                return r
            q = p * p if cv.key == "g2" else p
            goal_true(rec, epow(b, (q - 1) // 2) != (1, 0), f"{cv.key}: b is not a square, so no point has x = 0")
            goal_true(rec, epow(((-b[0]) % p, (-b[1]) % p), (q - 1) // 3) != (1, 0), f"{cv.key}: -b is not a cube, so no point has y = 0")
    return Ob(f"{cv.key}::no point with x = 0 or y = 0", f)
def raw_obs(prog, cv, en):
    obs = []; k = 32 * en.dim
    def on(ctx, vals, kind):
        if kind == "a":
            x, y = vals
            c = ctx.fe_zero_ind(cv.fld, ired(ctx, y * y - x * x * x - bconst(ctx, cv), cv.p))
            return ctx.or_(c, ctx.and_(ctx.fe_zero_ind(cv.fld, x), ctx.fe_zero_ind(cv.fld, y)))
        x, y, z = vals
        z2 = (z * z).mod(cv.p); z6 = (z2 * z2 * z2).mod(cv.p)
        return ctx.or_(ctx.fe_zero_ind(cv.fld, ired(ctx, y * y - x * x * x - z6 * bconst(ctx, cv), cv.p)), ctx.fe_zero_ind(cv.fld, z))
    def rd(op, kind, reader):
        nc = 2 if kind == "a" else 3
        def f(rec):
            for ln in ((nc * k, nc * k + 5, nc * k - 1, k, 0) if reader else (nc * k, nc * k - 1, nc * k + 1, 0)):
                def setup(ctx, m):
                    # raw coordinates as opaque values: one symbol per coordinate, canonicity one boolean each
                    v = word_syms(ctx, "raw", ln, 8); ctx.env["by"] = v
                    sl = Ref(ctx.new_cell(Arr(v)), (), (0, ln))
                    if not reader: return [sl]
                    ctx.env["sc"] = ctx.new_cell(sl); return [Ref(ctx.env["sc"])]
                C = dict(cv.C(), **abstract_raw(en))
                for ctx, v in crun(rec, prog, cv, op, setup, C, cv.F, max_paths=200):
                    short = ln < nc * k if reader else ln != nc * k
                    good = (v.v == 0) if reader else (v.v == 1)
                    if short:
                        goal_true(rec, not good, f"{cv.key}.{op}: wrong length {ln} is refused"); continue
                    ent = [ctx.memo.get(("rawv", en.n, tuple(b.p for b in ctx.env["by"][i * k:(i + 1) * k]))) for i in range(nc)]
                    if good:
                        goal_true(rec, all(e is not None for e in ent), f"{cv.key}.{op}: every coordinate is decoded")
                        for e in ent: goal_eq0(rec, ctx, fin(ctx, 1 - e[1].p), f"{cv.key}.{op}: accepted only with reduced coordinates")
                        goal_eq0(rec, ctx, fin(ctx, 1 - on(ctx, [e[0] for e in ent], kind).p), f"{cv.key}.{op}: accepted only on the curve")
                        for g, e in zip(v.f[0].f, ent): goal_true(rec, not (g.p - e[0]).mod(cv.p).t, f"{cv.key}.{op}: coordinates preserved")
                        if reader: goal_true(rec, ctx.cells[ctx.env["sc"]].meta == (nc * k, ln - nc * k), f"{cv.key}.{op}: consumes exactly the encoding")
                    else:
                        # refused: some coordinate unreduced or the point off the curve
                        have = [e for e in ent if e is not None]
                        b = TRUE
                        for e in have: b = ctx.and_(b, e[1])
                        if len(have) == nc: b = ctx.and_(b, on(ctx, [e[0] for e in ent], kind))
                        goal_eq0(rec, ctx, fin(ctx, b.p), f"{cv.key}.{op}: refused only if a coordinate is unreduced or the point is off the curve")
        obs.append(Ob(f"{cv.key}::{op}", f, bounded=None))
    rd("raw_a", "a", False); rd("raw_j", "j", False); rd("rd_a", "a", True); rd("rd_j", "j", True)
    def wr(op, kind, writer):
        nc = 2 if kind == "a" else 3
        def f(rec):
            def setup(ctx, m):
                v = [sym(ctx, f"c{i}") for i in range(nc)]; ctx.env["v"] = v
                a = Ref(ctx.new_cell(Agg([FE(cv.fld, x) for x in v])))
                if not writer: return [a]
                ctx.env["o"] = ctx.new_cell(Arr([])); return [a, Ref(ctx.env["o"])]
            for ctx, v in crun(rec, prog, cv, op, setup, dict(cv.C(), **en.contracts()), cv.F):
                if writer:
                    goal_true(rec, v.v == 0, f"{cv.key}.{op} succeeds"); v = ctx.cells[ctx.env["o"]]
                want = sum(([b.p for b in ctx.env.get("enc", {}).get((True, c), [])] for c in ctx.env["v"]), [])
                goal_true(rec, [b.p for b in slice_of(ctx.m, v)] == want and len(want) == nc * k, f"{cv.key}.{op}: the raw coordinates in order")
        obs.append(Ob(f"{cv.key}::{op}", f))
    wr("wr_a", "a", True); wr("wr_j", "j", True); wr("traw_a", "a", False); wr("traw_j", "j", False)
    return obs
def abstract_raw(en):
    """raw decoding contract with opaque values: (value symbol, reduced?) per byte string"""
    C = en.contracts(); k = 32 * en.dim
    S = "halo2curves::serde::SerdeObject"
    def ent(ctx, it):
        key = ("rawv", en.n, tuple(b.p for b in it)); v = ctx.memo.get(key)
        if v is None: v = ctx.memo[key] = (Poly.sym(ctx.sym("coord")), ctx.bool_sym("reduced"))
        return v
    def frb(m, a, fn):
        it = slice_of(m, a[0])
        if len(it) != k: return Agg([], 0)
        v, b = ent(m.ctx, it)
        return Agg([FE(en.fld, v)], 1) if m.ctx.decide(b) else Agg([], 0)
    def unchecked(m, a, fn): return FE(en.fld, ent(m.ctx, slice_of(m, a[0]))[0])
    def rd(m, a, fn):
        r = a[0]; v = m.load(r.cell, r.path)
        while isinstance(v, Ref) and v.meta is None: r = v; v = m.load(r.cell, r.path)
        if not isinstance(v, Ref): raise Unsupported("reader")
        it = m.slice_items(v)
        if len(it) < k: return Agg([Nat("err")], 1)
        off, ln = v.meta
        m.store(r.cell, r.path, Ref(v.cell, v.path, (off + k, ln - k)))
        x, b = ent(m.ctx, it[:k])
        return Agg([FE(en.fld, x)], 0) if m.ctx.decide(b) else Agg([Nat("err")], 1)
    for s in ("", "::<std::vec::Vec<u8>>", "::<&[u8]>"):
        C[f"<{en.n} as {S}>::from_raw_bytes{s}"] = frb; C[f"<{en.n} as {S}>::read_raw{s}"] = rd
        C[f"<{en.n} as {S}>::from_raw_bytes_unchecked{s}"] = unchecked
    return C
# ---- Fq2 codecs over Fq
def fq2_obs(prog):
    obs = []; e1 = encs()["g1"]
    base = lambda: dict(field_contracts("bn_fq", extra=invert_contract("bn_fq")), **e1.contracts())
    def run(rec, op, setup, C=None, **kw):
        for ctx, out in paths(rec, prog, f"roots::tower::x2::{op}", setup, contracts=C or base(), fields=adt_fields("bn_fq"), **kw): yield ctx, no_panic(out, op)
    def dec(op):
        def f(rec):
            def setup(ctx, m):
                ctx.env["by"] = word_syms(ctx, "n", 64, 8); return [Ref(ctx.new_cell(Arr(ctx.env["by"])))]
            for ctx, r in run(rec, op, setup):
                by = ctx.env["by"]; want = ctx.and_(e1.canon(ctx, by[:32]), e1.canon(ctx, by[32:]))
                goal_eq0(rec, ctx, fin(ctx, r.f[1].f[0].p - want.p), f"fq2.{op}: accepted iff both coordinates are canonical")
                for c, l in zip(r.f[0].f, (by[:32], by[32:])):
                    rec.goals += 1
                    if ired(ctx, (c.p - total(l, 8)) * want.p, Q).t: raise Failed(f"fq2.{op}: decoded value", {"inputs": {}})
        obs.append(Ob(f"fq2::{op}", f))
    dec("from_bytes"); dec("from_repr")
    def raw(op, reader):
        def f(rec):
            for ln in ((64, 70, 63, 32, 0) if reader else (64, 63, 65, 32, 0)):
                def setup(ctx, m):
                    ctx.env["by"] = word_syms(ctx, "n", ln, 8); sl = Ref(ctx.new_cell(Arr(ctx.env["by"])), (), (0, ln))
                    if not reader: return [sl]
                    ctx.env["sc"] = ctx.new_cell(sl); return [Ref(ctx.env["sc"])]
                for ctx, v in run(rec, op, setup, dict(base(), **abstract_raw(e1))):
                    good = v.v == (0 if reader else 1)
                    if (ln < 64 if reader else ln != 64):
                        goal_true(rec, not good, f"fq2.{op}: wrong length {ln} is refused"); continue
                    by = ctx.env["by"]
                    ent = [ctx.memo.get(("rawv", e1.n, tuple(b.p for b in by[32 * i:32 * i + 32]))) for i in range(2)]
                    if good:
                        goal_true(rec, all(ent), f"fq2.{op}: both coordinates decoded")
                        for c, e in zip(v.f[0].f, ent):
                            goal_eq0(rec, ctx, fin(ctx, 1 - e[1].p), f"fq2.{op}: accepts only reduced coordinates"); goal_true(rec, not (c.p - e[0]).t, f"fq2.{op}: coordinates preserved")
                        if reader: goal_true(rec, ctx.cells[ctx.env["sc"]].meta == (64, ln - 64), f"fq2.{op}: consumes exactly 64 bytes")
                    else:
                        b = TRUE
                        for e in ent: b = ctx.and_(b, e[1]) if e else b
                        goal_eq0(rec, ctx, fin(ctx, b.p), f"fq2.{op}: refuses only unreduced coordinates")
        obs.append(Ob(f"fq2::{op}", f))
    raw("from_raw", False); raw("read_raw", True)
    def enc(op, rawf, writer=False):
        def f(rec):
            def setup(ctx, m):
                v = [sym(ctx, "c0"), sym(ctx, "c1")]; ctx.env["v"] = v
                a = Ref(ctx.new_cell(Agg([FE(FQ, x) for x in v])))
                if not writer: return [a]
                ctx.env["o"] = ctx.new_cell(Arr([])); return [a, Ref(ctx.env["o"])]
            for ctx, v in run(rec, op, setup):
                if writer:
                    goal_true(rec, v.v == 0, "write succeeds"); v = ctx.cells[ctx.env["o"]]
                want = sum(([b.p for b in ctx.env.get("enc", {}).get((rawf, c), [])] for c in ctx.env["v"]), [])
                goal_true(rec, len(want) == 64 and [b.p for b in slice_of(ctx.m, v)] == want, f"fq2.{op}: the two coordinates in order")
        obs.append(Ob(f"fq2::{op}", f))
    enc("to_bytes", False); enc("write_raw", True, True)
    def traw(rec):
        def setup(ctx, m):
            l = word_syms(ctx, "a", 8); ctx.env["l"] = l
            return [Ref(ctx.new_cell(Agg([Agg([Arr(l[:4])]), Agg([Arr(l[4:])])])))]
        for ctx, out in paths(rec, prog, "roots::tower::x2::to_raw", setup):
            v = slice_of(ctx.m, no_panic(out, "to_raw_bytes"))
            goal_true(rec, len(v) == 64, "64 bytes")
            goal_eq0(rec, ctx, total(v, 8) - total(ctx.env["l"]), "fq2.to_raw_bytes: the limbs of c0 and c1 in order")
    obs.append(Ob("fq2::to_raw", traw))
    def odd(rec):
        def setup(ctx, m):
            v = [sym(ctx, "c0"), sym(ctx, "c1")]; ctx.env["v"] = v; return [Ref(ctx.new_cell(Agg([FE(FQ, x) for x in v])))]
        C = base()
        def po(m, a, fn):
            ctx = m.ctx; p = fe_of(m, a[0]).p; k = ("odd0", p); b = ctx.memo.get(k)
            if b is None:
                b = ctx.memo[k] = ctx.bool_sym("odd")
            z = ctx.fe_zero_ind(FQ, p)
            return Agg([ctx.and_(b, ctx.not_(z))])        # zero is even
        for k in [k for k in C if "is_odd" in k]: C[k] = po
        for ctx, v in run(rec, "is_odd", setup, C):
            a, b = ctx.env["v"]
            z0, z1 = ctx.fe_zero_ind(FQ, a), ctx.fe_zero_ind(FQ, b)
            oa = ctx.memo.get(("odd0", a)); ob_ = ctx.memo.get(("odd0", b))
            if oa is None: raise Undecided("parity of c0 not used")
            # what the point encoding needs: y and -y differ for y != 0 (parity of a non-zero coordinate flips under negation)
            e = lambda o, fl: fin(ctx, v.f[0].p)
            ex = v.f[0].p
            def at(va, vb, za, zb):
                s = {}
                for pl, val in ((oa, va), (ob_, vb)):
                    if pl is not None: s[list(pl.p.syms())[0]] = val
                for z, val in ((z0, za), (z1, zb)): s[list(z.p.syms())[0]] = val
                return ex.subst(s)
            for za in (0, 1):
                for zb in (0, 1):
                    if za and zb: continue
                    for va in (0, 1):
                        for vb in (0, 1):
                            x = at(va, vb, za, zb); y = at(1 - va, 1 - vb, za, zb)
                            goal_true(rec, x.is_const() and y.is_const() and x.cval() + y.cval() == 1, "fq2.is_odd: an element and its opposite have opposite signs", {"inputs": {"c0_is_zero": hex(za), "c1_is_zero": hex(zb)}})
    obs.append(Ob("fq2::is_odd", odd))
    def cmpf(rec):
        C = base()
        def cc(m, a, fn):
            ctx = m.ctx; x, y = fe_of(m, a[0]).p, fe_of(m, a[1]).p
            k = ("cmp", x, y)
            if k not in ctx.memo:
                r = 0 if ctx.decide(ctx.fe_zero_ind(FQ, x - y)) else (1 if ctx.decide(ctx.bool_sym("greater")) else -1)
                ctx.memo[k] = r; ctx.memo[("cmp", y, x)] = -r
            return Agg([], ctx.memo[k] + 1)
        nq = FIELDS["bn_fq"][0]
        C[f"<{nq} as std::cmp::Ord>::cmp"] = cc
        def setup(ctx, m):
            v = [sym(ctx, n) for n in ("a0", "a1", "b0", "b1")]; ctx.env["v"] = v
            return [Ref(ctx.new_cell(Agg([FE(FQ, v[2 * i]), FE(FQ, v[2 * i + 1])]))) for i in range(2)]
        for ctx, v in run(rec, "cmp", setup, C):
            a0, a1, b0, b1 = ctx.env["v"]
            g = lambda x, y: ctx.memo.get(("cmp", x, y))
            hi, lo = g(a1, b1), g(a0, b0)
            if hi is None: raise Undecided("order is not lexicographic by c1")
            if hi == 0 and lo is None: raise Failed("fq2.cmp: c0 is not compared when c1 is equal", {"inputs": {}})
            goal_true(rec, v.v - 1 == (hi or lo), "fq2.cmp: order by c1, then c0", {"inputs": {}})
    obs.append(Ob("fq2::cmp", cmpf))
    return obs
def codec_obs(prog):
    obs = []
    sz = {"g1": 32, "g2": 64, "secp": 33}
    for cv in curves():
        en = encs()[cv.key]
        for op in ("dec_a", "dec_u", "dec_j"): obs.append(dec_ob(prog, cv, en, op, sz[cv.key]))
        for op, kind in (("enc_a", "a"), ("enc_j", "j")): obs.append(enc_ob(prog, cv, en, op, kind, sz[cv.key]))
        obs.append(fact_ob(prog, cv))
        obs += raw_obs(prog, cv, en)
    return obs
