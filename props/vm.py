"""Brainfuck compiler and interpreter (ckb_bf_vm): contracts, loop invariants, step relations."""
from .common import *
from .fields import field_contracts, adt_fields, invert_contract, fe_of
from mirvc.seq import *
from mirvc import models as MD

P = FIELDS["bn_fr"][1]; FR = FLD["bn_fr"]; FRN = FIELDS["bn_fr"][0]
OPS = {"<": 0x3C, ">": 0x3E, "+": 0x2B, "-": 0x2D, ",": 0x2C, ".": 0x2E, "[": 0x5B, "]": 0x5D}

# ------------------------------------------------------------ integer-valued field elements
def sym_c(p):
    """symmetric representatives of the coefficients"""
    return Poly({m: (c if c <= P // 2 else c - P) for m, c in ((m, c % P) for m, c in p.t.items()) if c})
def canon(ctx, fe):
    """canonical integer of an element written over bounded integer symbols"""
    p = sym_c(fe.p)
    lo, hi = ctx.interval(p)
    if lo is None or hi is None or lo <= -P or hi >= P:
        raise Unsupported("canonical integer of an unbounded element")
    x = ctx.mk(p, lo, hi)
    if lo < 0:
        if ctx.decide(ctx.neg_ind(x)):
            return ctx.mk(p + P, 0, P - 1)
        return ctx.mk(p, 0, hi)
    return x
def fr_contracts():
    C = field_contracts("bn_fr", extra=invert_contract("bn_fr"))
    n = FRN
    def eq(m, a, fn):
        x, y = fe_of(m, a[0]), fe_of(m, a[1])
        d = sym_c(x.p - y.p)
        lo, hi = m.ctx.interval(d)
        if lo is None or hi is None: return m.ctx.fe_zero_ind(FR, x.p - y.p)
        if lo <= -P or hi >= P: raise Unsupported("equality of unbounded elements")
        return m.ctx.zero_ind(m.ctx.mk(d, lo, hi))
    C[f"<{n} as std::cmp::PartialEq>::eq"] = eq
    def inv(m, a, fn):
        ctx = m.ctx
        x = sym_c(fe_of(m, a[0]).p)
        lo, hi = ctx.interval(x)
        if lo is None or hi is None or lo <= -P or hi >= P: raise Unsupported("inverse of an unbounded element")
        z = ctx.zero_ind(ctx.mk(x, lo, hi))
        if x.is_const():
            return Agg([FE(FR, Poly.const(pow(x.cval(), -1, P) if x.cval() else 0)), Agg([ctx.not_(z)])])
        key = ("inv", x)
        s = ctx.memo.get(key)
        if s is None:
            s = ctx.sym("inv"); ctx.memo[key] = s
            ctx.env.setdefault("inverses", []).append((s, x, z))
        return Agg([FE(FR, Poly.sym(s)), Agg([ctx.not_(z)])])
    C[f"<{n} as ff::Field>::invert"] = inv
    C[f"<{n} as std::cmp::PartialEq>::ne"] = lambda m, a, fn: m.ctx.not_(eq(m, a, fn))
    def low(bits):
        def f(m, a, fn):
            x = canon(m.ctx, fe_of(m, a[0]))
            return m.ctx.mod(x, 1 << bits) if x.hi >= 1 << bits else x
        return f
    for tr in ("halo2curves::FieldExt", "pasta_curves::arithmetic::FieldExt"):
        C[f"<{n} as {tr}>::get_lower_128"] = low(128)
    C[f"<{n} as pasta_curves::arithmetic::SqrtRatio>::get_lower_32"] = low(32)
    def cmp(m, a, fn):
        x, y = canon(m.ctx, fe_of(m, a[0])), canon(m.ctx, fe_of(m, a[1]))
        if m.ctx.decide(m.ctx.lt(x, y)): o = -1
        elif m.ctx.decide(m.ctx.eq(x, y)): o = 0
        else: o = 1
        o = m.ordering(o)
        return MD.some(o) if "partial" in fn["name"] else o
    C[f"<{n} as std::cmp::Ord>::cmp"] = cmp
    C[f"<{n} as std::cmp::PartialOrd>::partial_cmp"] = cmp
    C[f"<{n} as std::clone::Clone>::clone"] = lambda m, a, fn: fe_of(m, a[0])
    C[f"<{n} as std::convert::From<u64>>::from"] = lambda m, a, fn: FE(FR, a[0].p)
    return C

def fnames(prog, tid):
    return [n for n, _ in prog.tys[tid]["v"][0]["f"]]
def ptr_target(prog, fn, i):
    return prog.tys[fn["locals"][i]]["e"]
def root_fn(prog, name):
    rid = prog.roots.get("roots::vm::" + name)
    if rid is None: raise Undecided("root missing: " + name)
    return prog.fns[rid]

# ------------------------------------------------------------ compiler
class ByteIter(Nat):
    """owning / borrowing iterator over a byte sequence of unknown length and content"""
    def __init__(self, spec, st):
        self.kind = "byteiter"; self.spec = spec; self.st = st
def compile_obs(prog):
    """loop invariant of compile_to_u16: with instrs = the slots emitted so far (n of them) and the stack holding,
    innermost last, the position of every `[` still open (plus a constant d fixed by the code),
      one source byte c changes (instrs, stack) exactly as the bracket-matching specification says."""
    obs = []
    rf = root_fn(prog, "compile_to_u16")
    target = [f for f in prog.fns.values() if f["name"] == "ckb_bf_vm::code::compile_to_u16"]
    def roles(fr, m, bb):
        """locals live at the loop head, by the shape of their value after the prefix `+[`"""
        return {l: m.ctx.cells[fr.cells[l]] for l in live_at(fr.fn, bb)}
    def concrete(prefix):
        """run the real function on `prefix`, return (loop head, {local: value}) at every arrival at the loop head"""
        arr = []
        ctx = Ctx(); m = Machine(prog, ctx); ctx.m = m; ctx.env = {}
        def hook(m, fr, bb):
            if fr.fn["src"].startswith("/repo") and bb in heads(fr.fn):
                arr.append((fr.fn["id"], bb, {l: m.ctx.cells[fr.cells[l]] for l in live_at(fr.fn, bb)}))
        m.loop_hook = hook
        v = m.call(rf["id"], [Arr([K(b) for b in prefix])])
        return arr, v
    def setup_roles():
        arr, v = concrete(b"+[[-")
        keys = set((a, b) for a, b, _ in arr)
        if len(keys) != 1: raise Undecided("compile_to_u16: expected exactly one loop")
        fid, hb = keys.pop()
        last = arr[-1][2]
        def vals(x):
            return [y.c() for y in x.items] if isinstance(x, Arr) and all(isinstance(y, Int) and y.is_const() for y in x.items) else None
        ins = [l for l, x in last.items() if vals(x) == [0x2B, 0x5B, 0, 0x5B, 0, 0x2D]]
        stk = [l for l, x in last.items() if vals(x) is not None and len(vals(x)) == 2 and vals(x)[1] - vals(x)[0] == 2]
        its = [l for l, x in last.items() if isinstance(x, Nat) and x.kind in ("into", "iter")]
        if len(ins) != 1 or len(stk) != 1 or len(its) != 1: raise Undecided("compile_to_u16: loop state not recognised")
        d = vals(last[stk[0]])[0] - 1
        return fid, hb, ins[0], stk[0], its[0], d, last
    def step(cls):
        def f(rec):
            fid, hb, li, ls, lit, d, last = setup_roles()
            def run(ctx):
                m = Machine(prog, ctx); ctx.m = m; ctx.env = {}
                st = {"n": 0}
                n = ctx.int_sym("n", 0, 65530); k = ctx.int_sym("depth", 0, 32765)
                ctx.inputs.append(("n", 64, list(n.p.syms()))); ctx.inputs.append(("depth", 64, list(k.p.syms())))
                # every open bracket has its two slots among the emitted ones
                ctx.facts.append(("ge0", n.p - k.p.scale(2)))
                gi = lambda c, i: c.int_sym("slot", 0, 65535)
                def gs(c, i):
                    lb = c.int_sym("open", 0, 65535)
                    c.facts.append(("ge0", n.p - lb.p - 2))
                    return c.mk(lb.p + d)
                instrs = SymVec("instrs", n, gi); stack = SymVec("stack", k, gs)
                if cls == "other":
                    b = ctx.int_sym("byte", 0, 255)
                    for o in OPS.values():
                        ctx.assume(ctx.eq(b, K(o)), 0)
                else: b = K(OPS[cls])
                def hook(m, fr, bb):
                    if fr.fn["id"] != fid or bb != hb: return
                    if st["n"] == 0:
                        st["n"] = 1
                        it0 = ctx.cells[fr.cells[lit]]
                        ctx.cells[fr.cells[li]] = instrs; ctx.cells[fr.cells[ls]] = stack
                        if it0.kind == "into": ctx.cells[fr.cells[lit]] = Nat("into", items=[b], i=0, n=1)
                        else: ctx.cells[fr.cells[lit]] = Nat("iter", s=Ref(ctx.new_cell(Arr([b])), (), (0, 1)), i=0, n=1)
                        st["rest"] = {l: snap(m, ctx.cells[fr.cells[l]], ()) for l in live_at(fr.fn, bb) if l not in (li, ls, lit)}
                        return
                    rest = {l: snap(m, ctx.cells[fr.cells[l]], ()) for l in live_at(fr.fn, bb) if l not in (li, ls, lit)}
                    if rest != st["rest"]: raise Undecided("the loop carries state the invariant does not know")
                    check(rec, ctx, m, ctx.cells[fr.cells[li]], ctx.cells[fr.cells[ls]], b, n, k, d, instrs, stack)
                    raise PathDone()
                m.loop_hook = hook
                return m.call(rf["id"], [Arr([K(0x2B)])])
            for ctx, out in explore(run):
                rec.see(ctx)
                if out[0] == "panic":
                    if cls == "]":
                        # only allowed when nothing is open
                        k = [s for nme, _, s in ctx.inputs if nme == "depth"][0][0]
                        goal_eq0(rec, ctx, Poly.sym(k), "compile: a `]` with an open `[` does not abort")
                        continue
                    raise Failed(f"compile: byte class {cls!r} aborts: {out[1]}")
                if out[0] == "ok": raise Undecided("loop head not reached twice")
        def check(rec, ctx, m, i2, s2, b, n, k, d, i0, s0):
            if not isinstance(i2, SymVec) or not isinstance(s2, SymVec): raise Undecided("unexpected state")
            def ln(v):
                x = v.seqlen(m); return K(x) if isinstance(x, int) else x
            app = []; dst = Poly(); top = None
            if cls == "other": pass
            elif cls == "[": app = [b.p, Poly()]; dst = Poly.const(1)
            elif cls == "]":
                goal_ge0(rec, ctx, k.p - 1, "compile: unmatched `]` must abort")
                top = s0.elem(m, ctx.sub(k, K(1))).p - d          # position of the matching `[`
                app = [b.p, top + 2]; dst = Poly.const(-1)
            else: app = [b.p]
            goal_eq0(rec, ctx, ln(i2).p - n.p - len(app), f"compile {cls!r}: number of emitted slots")
            for q, w in enumerate(app):
                e = i2.elem(m, ctx.mk(n.p + q))
                goal_eq0(rec, ctx, e.p - w, f"compile {cls!r}: emitted slot {q}")
            # earlier slots: only the operand of the matching `[` changes, to the slot after the `]` pair
            j = ctx.int_sym("j", 0, 65535)
            ctx.assume(ctx.lt(j, n), 1)
            new, old = i2.elem(m, j), i0.elem(m, j)
            if top is not None:
                if ctx.decide(ctx.eq(j, ctx.mk(top + 1))): goal_eq0(rec, ctx, new.p - n.p - 2, "compile ']': `[` jumps past its `]`")
                else: goal_eq0(rec, ctx, new.p - old.p, "compile ']': other slots unchanged")
            else: goal_eq0(rec, ctx, new.p - old.p, f"compile {cls!r}: earlier slots unchanged")
            goal_eq0(rec, ctx, ln(s2).p - k.p - dst, f"compile {cls!r}: depth of the bracket stack")
            if cls == "[":
                goal_eq0(rec, ctx, s2.elem(m, k).p - n.p - d, "compile '[': remembers this bracket")
            q = ctx.int_sym("q", 0, 65535)
            ctx.assume(ctx.lt(q, ctx.mk(k.p + (dst if cls == "]" else Poly()))), 1)
            goal_eq0(rec, ctx, s2.elem(m, q).p - s0.elem(m, q).p, f"compile {cls!r}: outer brackets kept")
        return Ob(f"compile_to_u16: source byte {cls}", f)
    for cls in list(OPS) + ["other"]: obs.append(step(cls))
    def init(rec):
        for pre, want in ((b"", []), (b"x+", [0x2B])):
            arr, v = concrete(pre)
            goal_true(rec, [x.c() for x in v.items] == want, "compile: base case and returned value", {"confirmed": True, "inputs": {"src": pre.decode()}})
        fid, hb, li, ls, lit, d, last = setup_roles()
        arr, v = concrete(b"")
        goal_true(rec, all(isinstance(arr[0][2][l], Arr) and not arr[0][2][l].items for l in (li, ls)), "compile: loop starts empty")
    obs.append(Ob("compile_to_u16: loop entry and exit", init))
    def comp(rec):
        """compile = map Fr::from over compile_to_u16 (length-preserving, element-wise)"""
        C = fr_contracts()
        for n in (0, 1, 2, 5):
            def cc(m, a, fn):
                v = [m.ctx.int_sym("s", 0, 65535) for _ in range(n)]
                m.ctx.env["v"] = v
                return Arr(v)
            for ctx, out in paths(rec, prog, "roots::vm::compile", lambda ctx, m: [Arr([K(1)])], contracts={**C, "ckb_bf_vm::code::compile_to_u16": cc}, fields=adt_fields("bn_fr")):
                v = no_panic(out, "compile")
                goal_true(rec, len(v.items) == n, "compile: slot count")
                for x, y in zip(v.items, ctx.env["v"]):
                    goal_true(rec, isinstance(x, FE) and x.p == y.p, "compile: slots become field elements in order")
    obs.append(Ob("compile: element-wise embedding", comp, bounded="0..5 slots (iterator adaptor is element-wise)"))
    def easy(rec):
        C = fr_contracts()
        for n in (0, 1, 3):
            def setup(ctx, m):
                v = word_syms(ctx, "b", n, 8); ctx.env["v"] = v
                return [Ref(ctx.new_cell(Arr(v)), (), (0, n))]
            for ctx, out in paths(rec, prog, "roots::vm::easygen", setup, contracts=C, fields=adt_fields("bn_fr")):
                v = no_panic(out, "easygen")
                goal_true(rec, len(v.items) == n and all(isinstance(x, FE) and x.p == y.p for x, y in zip(v.items, ctx.env["v"])), "easygen: bytes in order")
    obs.append(Ob("easygen", easy, bounded="0..3 bytes"))
    return obs

# ------------------------------------------------------------ interpreter
NAMES = dict(I=["code", "input", "memory", "register", "matrix", "bits"],
             R=["cycle", "instruction_pointer", "current_instruction", "next_instruction", "memory_pointer", "memory_value", "memory_value_inverse"],
             M=["processor_matrix", "instruction_matrix", "memory_matrix", "input_matrix", "output_matrix", "program"],
             IR=["instruction_pointer", "current_instruction", "next_instruction"],
             MR=["cycle", "memory_pointer", "memory_value", "interweave_indicator"])
class Lay:
    """field positions of the public structs, from their type declarations"""
    def __init__(self, prog):
        self.prog = prog; self.t = {}
        for t in prog.tys.values():
            if t["k"] == "adt" and t["v"]:
                n = t["name"].rsplit("::", 1)[-1]
                k = {"Interpreter": "I", "Register": "R", "Matrix": "M", "InstructionMatrixRow": "IR", "MemoryMatrixRow": "MR"}.get(n)
                if k and t["name"].startswith("ckb_bf_vm"): self.t[k] = t
        for k, ns in NAMES.items():
            if k not in self.t: raise Undecided("type not found " + k)
            have = [n for n, _ in self.t[k]["v"][0]["f"]]
            for n in ns:
                if n not in have: raise Undecided(f"field {n} of {k} not found")
            if len(have) != len(ns): raise Undecided(f"{k}: state the invariant does not know")
    def get(self, k, v, n):
        for i, (x, _) in enumerate(self.t[k]["v"][0]["f"]):
            if x == n: return v.f[i]
    def mk(self, k, **kw):
        return Agg([kw[n] for n, _ in self.t[k]["v"][0]["f"]], 0, self.t[k]["id"])
def vlen(m, v):
    if isinstance(v, Arr): return K(len(v.items))
    x = v.seqlen(m); return K(x) if isinstance(x, int) else x
def feq(rec, ctx, a, b, what):
    if not isinstance(a, FE): raise Undecided(what + ": not a field element")
    p = b.p if isinstance(b, FE) else b
    rec.goals += 1
    d = fin(ctx, sym_c(a.p - p))
    d = sym_c(d)
    if not d.t: return
    ok, mdl = ctx.solver.prove(("eq0", d))
    if not ok:
        if mdl is None: raise Undecided(what + ": solver gave up")
        raise Failed(what, {"inputs": inputs_of(ctx, mdl)})

class Log(SymVec):
    """append-only row log of unknown length"""
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
    def cp(self, **kw):
        d = dict(name=self.name, blen=self.blen, gen=self.gen, off=self.off, app=self.app, upd=self.upd, known=self.known, sortkey=self.sortkey, tag=self.tag)
        d.update(kw)
        return Log(**d)
    copy = cp
    def sort_hook(self, m, f, fn):
        if self.sortkey: raise Unsupported("sorted twice")
        lay, kind = self.tag
        # which component of the row is the key?
        syms = {n: FE(FR, Poly.sym(m.ctx.sym("key_" + n, 0, 2**32))) for n in NAMES[kind]}
        k = MD.call_fn(m, f, [Ref(m.ctx.new_cell(lay.mk(kind, **syms)))])
        while isinstance(k, Ref): k = m.load(k.cell, k.path)
        hit = [n for n in syms if isinstance(k, FE) and k.p == syms[n].p]
        if len(hit) != 1: raise Undecided("sort key is not a single column")
        return self.cp(sortkey=("unstable " if "unstable" in fn["def"] else "stable ") + hit[0])

BASE_BITS = 8
def mk_state(ctx, lay, n, code, bits, mode):
    """a symbolic machine state satisfying the loop invariant"""
    e = ctx.env
    M = ctx.int_sym("memlen", 1, 2**40); mp = ctx.int_sym("mp", 0, 2**40); ip = ctx.int_sym("ip", 0, 2**33)
    ctx.facts.append(("ge0", M.p - 1 - mp.p))
    cy = ctx.int_sym("cycle", 0, 2**60)
    il = ctx.int_sym("inlen", 0, 2**40)
    top = (1 << bits) - 1
    gm = lambda c, i: FE(FR, c.int_sym("cell", 0, top).p)
    memory = SymVec("memory", M, gm); inp = SymVec("input", il, gm)
    for nm, s in (("ip", ip), ("mp", mp), ("memlen", M), ("cycle", cy), ("inlen", il)):
        ctx.inputs.append((nm, 64, list(s.p.syms())))
    e.update(M=M, mp=mp, ip=ip, cy=cy, il=il, memory=memory, inp=inp, n=n, code=code, bits=bits)
    return e
def rows(name, lay, kind, ctx):
    return Log(name, ctx.int_sym("rows_" + name, 0, 2**60), lambda c, i: (_ for _ in ()).throw(Unsupported("reads back a trace row")), tag=(lay, kind))

def interp_ob(prog, lay, title, body, **kw):
    return Ob(title, body, **kw)

def run_step(prog, rec, op, bits=8, pre=None):
    """execute run() from its entry to the main loop head, replace the state by an arbitrary one satisfying the
    invariant, and follow one iteration (op given) or the loop exit (op None).  yields (ctx, m, kind, old, new)"""
    lay = Lay(prog)
    rf = root_fn(prog, "run")
    C = fr_contracts()
    def run(ctx):
        m = Machine(prog, ctx, C, adt_fields("bn_fr")); ctx.m = m; ctx.env = {}
        n = ctx.int_sym("codelen", 1, 2**32); ctx.inputs.append(("codelen", 64, list(n.p.syms())))
        code = SymVec("code", n, lambda c, i: FE(FR, c.int_sym("slot", 0, 65535).p))
        e = mk_state(ctx, lay, n, code, bits, op)
        z = FE(FR, Poly())
        reg0 = lay.mk("R", **{k: z for k in NAMES["R"]})
        zero_mat = dict(processor_matrix=Log("proc", K(0), None, tag=(lay, "R")), instruction_matrix=Log("instr", K(0), None, tag=(lay, "IR")),
                        memory_matrix=Log("mem", K(0), None, tag=(lay, "MR")), input_matrix=SymVec("inlog", K(0), None), output_matrix=SymVec("outlog", K(0), None), program=code)
        st0 = lay.mk("I", code=code, input=e["inp"], memory=Arr([z]), register=reg0, matrix=lay.mk("M", **zero_mat), bits=K(bits))
        cell = ctx.new_cell(st0); e["cell"] = cell; e["lay"] = lay
        ph = {"main": 0, "range": None}
        def reg_of(s): return lay.get("I", s, "register")
        def hook(m, fr, bb):
            if not fr.fn["src"].startswith("/repo") or bb not in heads(fr.fn): return
            key = (fr.fn["id"], bb)
            lv = live_at(fr.fn, bb)
            st = ctx.cells[cell]
            if ph.get(key) == "range" or (key not in ph and ph["main"] == 0):
                its = [l for l in lv if isinstance(ctx.cells[fr.cells[l]], Agg) and prog.tys[fr.fn["locals"][l]].get("name", "").endswith("ops::Range")]
                if its:
                    return range_loop(m, fr, bb, key, its, lv, st)
            if ph["main"] == 0:
                ph["main"] = key
                # ---- loop entry: the invariant holds initially
                r = reg_of(st)
                e["entry_checked"] = True
                mat = lay.get("I", st, "matrix")
                for k in ("cycle", "instruction_pointer", "memory_pointer", "memory_value", "memory_value_inverse"):
                    feq(rec, ctx, lay.get("R", r, k), Poly(), f"run entry: {k} = 0")
                feq(rec, ctx, lay.get("R", r, "current_instruction"), code.elem(m, K(0)), "run entry: current instruction is slot 0")
                if ctx.decide(ctx.eq(n, K(1))): feq(rec, ctx, lay.get("R", r, "next_instruction"), Poly(), "run entry: next instruction of a one-slot program")
                else: feq(rec, ctx, lay.get("R", r, "next_instruction"), code.elem(m, K(1)), "run entry: next instruction is slot 1")
                im = lay.get("M", mat, "instruction_matrix")
                if vsnap(m, im) != vsnap(m, ph["progrows"]) if "progrows" in ph else True: raise Undecided("run entry: program rows not recognised")
                for k in ("processor_matrix", "memory_matrix", "input_matrix", "output_matrix"):
                    goal_true(rec, isinstance(lay.get("M", mat, k), SymVec) and vsnap(m, lay.get("M", mat, k)) == vsnap(m, zero_mat[k]), f"run entry: {k} still empty")
                for k in ("code", "input", "memory", "bits"):
                    goal_true(rec, vsnap(m, lay.get("I", st, k)) == vsnap(m, lay.get("I", st0, k)), f"run entry: {k} unchanged")
                # ---- arbitrary state satisfying the invariant
                cur = e["memory"].elem(m, e["mp"])
                if op is not None:
                    ctx.assume(ctx.lt(e["ip"], n), 1)
                    if op in "[]": ctx.assume(ctx.lt(ctx.add(e["ip"], K(1)), n), 1)
                    if ctx.solver.unsat_path(): raise PathInfeasible()
                    ci = code.elem(m, e["ip"])
                    ctx.assume(ctx.eq(ctx.mk(ci.p), K(OPS[op])), 1)
                    ci = FE(FR, Poly.const(OPS[op]))
                else:
                    ctx.assume(ctx.lt(e["ip"], n), 0)
                    ci = FE(FR, Poly())
                if ctx.decide(ctx.lt(ctx.add(e["ip"], K(1)), n)): ni = code.elem(m, ctx.add(e["ip"], K(1)))
                else: ni = FE(FR, Poly())
                mvi = FE(FR, Poly.sym(ctx.sym("mvi")))
                old = dict(cycle=FE(FR, e["cy"].p), instruction_pointer=FE(FR, e["ip"].p), current_instruction=ci, next_instruction=ni,
                           memory_pointer=FE(FR, e["mp"].p), memory_value=cur, memory_value_inverse=mvi)
                mats = dict(processor_matrix=rows("proc", lay, "R", ctx), instruction_matrix=rows("instr", lay, "IR", ctx), memory_matrix=rows("mem", lay, "MR", ctx),
                            input_matrix=SymVec("inlog", ctx.int_sym("il", 0, 2**60), None), output_matrix=SymVec("outlog", ctx.int_sym("ol", 0, 2**60), None), program=code)
                e["old"] = old; e["mats"] = mats
                ctx.cells[cell] = lay.mk("I", code=code, input=e["inp"], memory=e["memory"], register=lay.mk("R", **old), matrix=lay.mk("M", **mats), bits=K(bits))
                ph["rest"] = {l: snap(m, ctx.cells[fr.cells[l]], {cell}) for l in lv}
                return
            if key == ph["main"]:
                rest = {l: snap(m, ctx.cells[fr.cells[l]], {cell}) for l in lv}
                if rest != ph["rest"]: raise Undecided("the main loop carries state the invariant does not know")
                e["new"] = ctx.cells[cell]; e["back"] = True
                raise PathDone()
            raise Undecided("unexpected inner loop")
        def range_loop(m, fr, bb, key, its, lv, st):
            if len(its) != 1: raise Undecided("range loop shape")
            it = its[0]
            if key not in ph:
                ph[key] = "range"
                r0 = ctx.cells[fr.cells[it]]
                if not (r0.f[0].is_const() and r0.f[0].c() == 0): raise Undecided("range loop start")
                goal_eq0(rec, ctx, r0.f[1].p - n.p, "program rows: one row per code slot")
                mat = lay.get("I", st, "matrix")
                goal_true(rec, vsnap(m, lay.get("M", mat, "instruction_matrix")) == vsnap(m, zero_mat["instruction_matrix"]), "program rows: start empty")
                if ctx.decide(ctx.bool_sym("check_program_row")):
                    i = ctx.int_sym("i", 0, 2**32); ctx.inputs.append(("i", 64, list(i.p.syms())))
                    ctx.assume(ctx.lt(i, n), 1)
                    ctx.cells[fr.cells[it]] = Agg([i, r0.f[1]], 0, r0.ty)
                    log = rows("progrows", lay, "IR", ctx)
                    mv = {k: lay.get("M", mat, k) for k in NAMES["M"]}; mv["instruction_matrix"] = log
                    ctx.cells[cell] = lay.mk("I", **{**{k: lay.get("I", st, k) for k in NAMES["I"]}, "matrix": lay.mk("M", **mv)})
                    ph["ri"] = (i, log, {l: snap(m, ctx.cells[fr.cells[l]], {cell}) for l in lv if l != it}, ctx.cells[cell])
                else:
                    ctx.cells[fr.cells[it]] = Agg([r0.f[1], r0.f[1]], 0, r0.ty)
                    log = Log("progrows", n, None, tag=(lay, "IR"))
                    ph["progrows"] = log
                    mv = {k: lay.get("M", mat, k) for k in NAMES["M"]}; mv["instruction_matrix"] = log
                    ctx.cells[cell] = lay.mk("I", **{**{k: lay.get("I", st, k) for k in NAMES["I"]}, "matrix": lay.mk("M", **mv)})
                return
            if "ri" not in ph: return
            i, log, rest, stb = ph["ri"]
            if {l: snap(m, ctx.cells[fr.cells[l]], {cell}) for l in lv if l != it} != rest: raise Undecided("range loop carries other state")
            r = ctx.cells[fr.cells[it]]
            goal_eq0(rec, ctx, r.f[0].p - i.p - 1, "program rows: every slot visited")
            mat = lay.get("I", st, "matrix")
            lg = lay.get("M", mat, "instruction_matrix")
            if not isinstance(lg, Log): raise Undecided("program row log")
            goal_true(rec, len(lg.app) == 1 and not lg.upd, "program rows: exactly one row per slot")
            row = lg.app[0]
            feq(rec, ctx, lay.get("IR", row, "instruction_pointer"), i.p, "program row: ip = slot index")
            feq(rec, ctx, lay.get("IR", row, "current_instruction"), code.elem(m, i), "program row: current instruction = slot")
            if ctx.decide(ctx.lt(ctx.add(i, K(1)), n)): feq(rec, ctx, lay.get("IR", row, "next_instruction"), code.elem(m, ctx.add(i, K(1))), "program row: next instruction = next slot")
            else: feq(rec, ctx, lay.get("IR", row, "next_instruction"), Poly(), "program row: last slot has next instruction 0")
            raise PathDone()
        m.loop_hook = hook
        m.call(rf["id"], [Ref(cell)])
        if not ph["main"]: raise Undecided("main loop not found")
        e["new"] = ctx.cells[cell]; e["back"] = False
        return None
    n_done = 0
    for ctx, out in explore(run, max_paths=4000):
        rec.see(ctx)
        yield ctx, out
def new_reg(e, n):
    return e["lay"].get("R", e["lay"].get("I", e["new"], "register"), n)
def step_ob(prog, op, bits, what):
    """what: 'sem' (state, memory, input, output) or 'trace' (rows recorded)"""
    def f(rec):
        back = 0
        for ctx, out in run_step(prog, rec, op, bits):
            e = ctx.env; m = ctx.m
            top = (1 << bits) - 1
            if out[0] == "panic":
                if "old" not in e: raise Failed("run aborts before the first step: " + out[1])
                # the only aborts: moving left of cell 0, reading past the input
                if op == "<": goal_eq0(rec, ctx, e["mp"].p, "step '<' aborts only at cell 0")
                elif op == ",": goal_eq0(rec, ctx, e["il"].p, "step ',' aborts only when the input is exhausted")
                else: raise Failed(f"step {op!r} aborts: {out[1]}")
                continue
            if out[0] == "done" and "new" not in e: continue
            if "old" not in e: raise Undecided("loop not entered")
            if not e["back"]: raise Failed(f"step {op!r}: run stops although the instruction pointer is inside the program")
            back += 1
            lay, n, code, ip, mp, M, mem = e["lay"], e["n"], e["code"], e["ip"], e["mp"], e["M"], e["memory"]
            cur = mem.elem(m, mp)
            N = lambda k: new_reg(e, k)
            if what == "sem":
                # ---- expected new state
                ip2 = ip.p + 1; mp2 = mp.p; cell2 = cur.p; grow = False; took = False
                if op == "<":
                    goal_ge0(rec, ctx, mp.p - 1, "step '<' at cell 0 must abort"); mp2 = mp.p - 1
                elif op == ">":
                    mp2 = mp.p + 1; grow = ctx.decide(ctx.eq(ctx.mk(mp2), M))
                elif op == "+": cell2 = Poly() if ctx.decide(ctx.eq(ctx.mk(cur.p), K(top))) else cur.p + 1
                elif op == "-": cell2 = Poly.const(top) if ctx.decide(ctx.eq(ctx.mk(cur.p), K(0))) else cur.p - 1
                elif op == ",":
                    goal_ge0(rec, ctx, e["il"].p - 1, "step ',' without input must abort")
                    cell2 = e["inp"].elem(m, K(0)).p; took = True
                elif op in "[]":
                    zero = ctx.decide(ctx.eq(ctx.mk(cur.p), K(0)))
                    ip2 = code.elem(m, ctx.add(ip, K(1))).p if zero == (op == "[") else ip.p + 2
                feq(rec, ctx, N("cycle"), e["cy"].p + 1, f"step {op!r}: one cycle")
                feq(rec, ctx, N("instruction_pointer"), ip2, f"step {op!r}: instruction pointer")
                feq(rec, ctx, N("memory_pointer"), mp2, f"step {op!r}: memory pointer")
                I = lambda k: lay.get("I", e["new"], k)
                nm = I("memory")
                if not isinstance(nm, SymVec): raise Undecided("memory shape")
                goal_eq0(rec, ctx, vlen(m, nm).p - M.p - (1 if grow else 0), f"step {op!r}: tape length")
                for k in ("code", "bits"): goal_true(rec, vsnap(m, I(k)) == vsnap(m, code if k == "code" else K(bits)), f"step {op!r}: {k} unchanged")
                ni = I("input")
                if not isinstance(ni, SymVec): raise Undecided("input shape")
                goal_true(rec, not ni.app and not ni.upd and ni.name == "input", f"step {op!r}: remaining input")
                goal_eq0(rec, ctx, ni.off.p - (1 if took else 0), f"step {op!r}: consumed input")
                goal_eq0(rec, ctx, ni.blen.p - e["il"].p + (1 if took else 0), f"step {op!r}: remaining input length")
                mat = lay.get("I", e["new"], "matrix")
                for k, cond, v in (("input_matrix", took, cell2), ("output_matrix", op == ".", cur.p)):
                    l = lay.get("M", mat, k)
                    if not isinstance(l, SymVec): raise Undecided(k)
                    goal_true(rec, not l.upd and vsnap(m, l.cp(app=())) == vsnap(m, e["mats"][k]) and len(l.app) == (1 if cond else 0), f"step {op!r}: {k} grows by {1 if cond else 0}")
                    if cond: feq(rec, ctx, l.app[0], v, f"step {op!r}: value recorded in {k}")
                # values seen next
                ipn = ctx.mk(ip2)
                if ctx.decide(ctx.lt(ipn, n)): feq(rec, ctx, N("current_instruction"), code.elem(m, ipn), f"step {op!r}: fetched instruction")
                else: feq(rec, ctx, N("current_instruction"), Poly(), f"step {op!r}: instruction past the end is 0")
                if ctx.decide(ctx.lt(ctx.add(ipn, K(1)), n)): feq(rec, ctx, N("next_instruction"), code.elem(m, ctx.add(ipn, K(1))), f"step {op!r}: next instruction")
                else: feq(rec, ctx, N("next_instruction"), Poly(), f"step {op!r}: next instruction past the end is 0")
                mv = N("memory_value")
                mpn = ctx.mk(mp2)
                feq(rec, ctx, mv, nm.elem(m, mpn), f"step {op!r}: memory value register")
                iv = N("memory_value_inverse")
                if ctx.decide(ctx.zero_ind(ctx.mk(sym_c(mv.p)))): feq(rec, ctx, iv, Poly(), f"step {op!r}: inverse register of 0")
                else:
                    rec.goals += 1
                    ok = any(isinstance(iv, FE) and iv.p == Poly.sym(s) and not sym_c(fin(ctx, x) - fin(ctx, mv.p)).t for s, x, z in e.get("inverses", []))
                    if not ok:
                        if iv.p.is_const() and mv.p.is_const(): ok = iv.p.cval() * mv.p.cval() % P == 1
                        # small constants may have been substituted on either side
                        for s, x, z in e.get("inverses", []):
                            if iv.p == Poly.sym(s): ok = ctx.solver.prove(("eq0", sym_c(fin(ctx, x - mv.p))))[0] or ok
                    if not ok: raise Failed(f"step {op!r}: memory value inverse register")
                # every cell of the tape
                j = ctx.int_sym("j", 0, 2**41); ctx.assume(ctx.lt(j, vlen(m, nm)), 1)
                got = nm.elem(m, j)
                if ctx.decide(ctx.eq(j, mp)): feq(rec, ctx, got, cell2, f"step {op!r}: current cell")
                elif grow and ctx.decide(ctx.eq(j, M)): feq(rec, ctx, got, Poly(), f"step {op!r}: fresh cell is 0")
                else: feq(rec, ctx, got, mem.elem(m, j), f"step {op!r}: other cells unchanged")
            else:
                mat = lay.get("I", e["new"], "matrix")
                for k, kind in (("processor_matrix", "R"), ("instruction_matrix", "IR"), ("memory_matrix", "MR")):
                    l = lay.get("M", mat, k)
                    if not isinstance(l, SymVec): raise Undecided(k)
                    goal_true(rec, not l.upd and l.sortkey is None and vsnap(m, l.cp(app=())) == vsnap(m, e["mats"][k]) and len(l.app) == 1, f"step {op!r}: {k} grows by exactly one row")
                    row_is(rec, ctx, lay, kind, l.app[0], e, f"step {op!r}: {k} row")
                goal_true(rec, vsnap(m, lay.get("M", mat, "program")) == vsnap(m, code), f"step {op!r}: program unchanged")
        if not back: raise Undecided("no iteration explored (vacuous)")
    return Ob(f"run: one step of {op!r} ({bits}-bit cells): {what}", f, timeout=120)
def row_is(rec, ctx, lay, kind, row, e, what):
    for k in NAMES[kind]:
        if k == "interweave_indicator": feq(rec, ctx, lay.get(kind, row, k), Poly(), what + ": " + k)
        else: feq(rec, ctx, lay.get(kind, row, k), e["old"][k], what + ": " + k)
def exit_ob(prog, what):
    def f(rec):
        exits = 0
        for ctx, out in run_step(prog, rec, None):
            e = ctx.env; m = ctx.m
            if out[0] == "panic": raise Failed("run aborts at the end: " + out[1])
            if out[0] == "done" and "new" not in e: continue
            if "old" not in e: raise Undecided("loop not entered")
            if e["back"]: raise Failed("run continues although the instruction pointer is past the program")
            exits += 1
            lay = e["lay"]; mat = lay.get("I", e["new"], "matrix")
            if what == "sem":
                for k, w in (("code", e["code"]), ("input", e["inp"]), ("memory", e["memory"])):
                    goal_true(rec, vsnap(m, lay.get("I", e["new"], k)) == vsnap(m, w), f"run exit: {k} unchanged")
                for k in ("input_matrix", "output_matrix"):
                    goal_true(rec, vsnap(m, lay.get("M", mat, k)) == vsnap(m, e["mats"][k]), f"run exit: {k} unchanged")
                r = lay.get("I", e["new"], "register")
                for k in NAMES["R"]: feq(rec, ctx, lay.get("R", r, k), e["old"][k], "run exit: register " + k)
            else:
                for k, kind, sk in (("processor_matrix", "R", None), ("instruction_matrix", "IR", "stable instruction_pointer"), ("memory_matrix", "MR", "stable memory_pointer")):
                    l = lay.get("M", mat, k)
                    if not isinstance(l, SymVec): raise Undecided(k)
                    goal_true(rec, not l.upd and vsnap(m, l.cp(app=(), sortkey=None)) == vsnap(m, e["mats"][k]) and len(l.app) == 1, f"run exit: {k} gets exactly the terminal row")
                    row_is(rec, ctx, lay, kind, l.app[0], e, f"run exit: {k} row")
                    if sk and l.sortkey and l.sortkey.startswith("unstable") and kind == "IR" and l.sortkey.endswith("instruction_pointer"):
                        pass     # rows with equal instruction pointers are equal
                    else: goal_true(rec, l.sortkey == sk, f"run exit: {k} order is {sk} (got {l.sortkey})")
                goal_true(rec, vsnap(m, lay.get("M", mat, "program")) == vsnap(m, e["code"]), "run exit: program unchanged")
        if not exits: raise Undecided("no exit explored (vacuous)")
    return Ob(f"run: loop exit: {what}", f, timeout=120)
def ctor_obs(prog):
    def f(rec):
        lay = Lay(prog); C = fr_contracts(); F = adt_fields("bn_fr")
        for ctx, out in paths(rec, prog, "roots::vm::new", lambda ctx, m: [], contracts=C, fields=F):
            s = no_panic(out, "new")
            z = lambda v: isinstance(v, FE) and not v.p.t
            mem = lay.get("I", s, "memory")
            goal_true(rec, len(mem.items) == 1 and z(mem.items[0]), "new: one zero cell")
            goal_true(rec, all(z(lay.get("R", lay.get("I", s, "register"), k)) for k in NAMES["R"]), "new: registers zero")
            goal_true(rec, all(not lay.get("M", lay.get("I", s, "matrix"), k).items for k in NAMES["M"]), "new: empty tables")
            goal_true(rec, lay.get("I", s, "bits").c() == 8 and not lay.get("I", s, "code").items and not lay.get("I", s, "input").items, "new: 8-bit cells")
        for op, fld in (("set_code", "code"), ("set_input", "input"), ("set_bits", "bits")):
            def setup(ctx, m):
                e = ctx.env
                sv = lambda nme: SymVec(nme, ctx.int_sym("l" + nme, 0, 2**40), lambda c, i: FE(FR, Poly.sym(c.sym("x"))))
                e["old"] = lay.mk("I", code=sv("c0"), input=sv("i0"), memory=sv("m0"), register=Agg([ctx.fe_sym(FR, "r") for _ in NAMES["R"]]),
                                  matrix=lay.mk("M", **{k: sv(k) for k in NAMES["M"]}), bits=ctx.int_sym("b0", 0, 2**64 - 1))
                e["v"] = ctx.int_sym("b", 0, 2**64 - 1) if op == "set_bits" else sv("new")
                e["c"] = ctx.new_cell(e["old"])
                return [Ref(e["c"]), e["v"]]
            for ctx, out in paths(rec, prog, f"roots::vm::{op}", setup, contracts=C, fields=F):
                no_panic(out, op); e = ctx.env; m = ctx.m; s = ctx.cells[e["c"]]
                for k in NAMES["I"]:
                    w = e["v"] if k == fld else lay.get("I", e["old"], k)
                    if k == "matrix":
                        for q in NAMES["M"]:
                            wq = e["v"] if (q == "program" and op == "set_code") else lay.get("M", w, q)
                            goal_true(rec, vsnap(m, lay.get("M", lay.get("I", s, k), q)) == vsnap(m, wq), f"{op}: {q}")
                    else: goal_true(rec, vsnap(m, lay.get("I", s, k)) == vsnap(m, w), f"{op}: {k}")
    return [Ob("Interpreter constructors and setters", f)]
def sem_obs(prog):
    return [step_ob(prog, op, b, "sem") for op in OPS for b in ((8, 1, 16) if op in "+-" else (8,))] + [exit_ob(prog, "sem")] + ctor_obs(prog)
def trace_obs(prog):
    return [step_ob(prog, op, 8, "trace") for op in OPS] + [exit_ob(prog, "trace")]
