"""The zkVM's constraint system: the polynomials built by the real `configure` (run on every check; it has no inputs) are
compared, over all field values, with the Brainfuck step relation and with the table relations it stands for."""
import json, re
from .common import *
from mirvc import runner
from sympy import GF, ring, symbols
from sympy.polys.groebnertools import groebner
from sympy.polys.orderings import grevlex
P = FIELDS["bn_fr"][1]
OPS = {"shl": 0x3c, "shr": 0x3e, "add": 0x2b, "sub": 0x2d, "get": 0x2c, "put": 0x2e, "lb": 0x5b, "rb": 0x5d}
DUMPS = [("+>,.[-]<.", "5"), ("+", ""), ("-.,>,<[->+<]>.", "2,1"), ("[+]", "")]

class Bad(Exception):
    pass
_cache = {}
def dump(i=0):
    if i not in _cache:
        r = runner.run_harness("base", ["dump", DUMPS[i][0], DUMPS[i][1]])
        if not r or "dump" not in r[0]:
            raise Undecided("constraint system could not be extracted")
        _cache[i] = Sysm(r[0])
    return _cache[i]

class Sysm:
    def __init__(self, d):
        self.d = d
        self.names = {}          # ("a", idx) -> "p.clk"
        self.by = {}
        short = {"p_config": "p", "m_config": "m", "i_config": "i", "output_config": "o", "input_config": "n", "program_config": "c"}
        cur = None
        for m in re.finditer(r"(\w+): (?:(\w+Config) \{|Column \{ index: (\d+), column_type: (\w+)|Selector\((\d+)|TableColumn \{ inner: Column \{ index: (\d+))", d["config"]):
            nm = m.group(1)
            if m.group(2): cur = short.get(nm, cur); continue
            if m.group(3) is not None:
                k = {"Advice": "a", "Fixed": "f", "Instance": "i"}[m.group(4)]
                if k == "i": key = "inst." + nm
                else: key = f"{cur}.{nm}"
                self.by[key] = (k, int(m.group(3)))
            elif m.group(6) is not None:
                self.by["table"] = ("f", int(m.group(6)))
        self.names = {v: k for k, v in self.by.items()}
        self.sel = {}
        for s, r in d["sel"]: self.sel.setdefault(r, set()).add(s)
        self.cells = {(tuple(c), r): int(v, 16) for c, r, v in d["cells"]}
        self.fill = {c: (r, int(v, 16)) for c, r, v in d["fill"]}
        # ring over every queried cell and challenge
        vs = set()
        def walk(e):
            if e[0] in ("a", "f", "i"): vs.add((e[0], e[1], e[2]))
            elif e[0] == "ch": vs.add(("ch", e[1], 0))
            elif e[0] in ("+", "*"): walk(e[1]); walk(e[2])
            elif e[0] == "neg": walk(e[1])
        for g in d["gates"]:
            for p in g: walk(p)
        for a, b in d["lookups"]:
            for p in a + b: walk(p)
        self.vars = sorted(vs)
        nm = [self.vname(v) for v in self.vars]
        self.R, *gens = ring(",".join(nm + ["tt_", "uu_"]), GF(P, symmetric=False), grevlex)
        self.v = dict(zip(nm, gens)); self.t = gens[-2]; self.u = gens[-1]
    def vname(self, v):
        if v[0] == "ch": return f"ch{v[1]}"
        b = self.names.get((v[0], v[1]), f"{v[0]}{v[1]}").replace(".", "_")
        return b + {0: "", 1: "_n", -1: "_p"}.get(v[2], f"_r{v[2]}".replace("-", "m"))
    def var(self, name):
        if name not in self.v: raise Undecided(f"column {name} is not queried (renamed?)")
        return self.v[name]
    def at(self, c, row):
        k = (tuple(c), row)
        if k in self.cells: return self.cells[k]
        if c[0] == "f" and c[1] in self.fill and row >= self.fill[c[1]][0]: return self.fill[c[1]][1]
        return 0
    def ev(self, e, row):
        o = e[0]
        if o == "c": return self.R(int(e[1], 16) % P)
        if o == "s": return self.R(1 if e[1] in self.sel.get(row, ()) else 0)
        if o == "f": return self.R(self.at(("f", e[1]), row + e[2]))
        if o in ("a", "i"): return self.v[self.vname((o, e[1], e[2]))]
        if o == "ch": return self.v[f"ch{e[1]}"]
        if o == "neg": return -self.ev(e[1], row)
        a = self.ev(e[1], row)
        if o == "*":
            return a * self.ev(e[2], row) if a else a
        return a + self.ev(e[2], row)
    def active(self, row, tab):
        """non-zero polynomials enforced at this row that touch table `tab` (p, m, i, o, n, c)"""
        out = []
        for g in self.d["gates"]:
            for e in g:
                q = self.ev(e, row)
                if q and any(str(x).startswith(tab + "_") for x in self.support(q)): out.append(q)
        return out
    def support(self, q):
        gens = self.R.gens; s = set()
        for m in q.keys():
            for i, k in enumerate(m):
                if k: s.add(gens[i])
        return s
    def key(self, polys):
        out = set()
        for q in polys:
            q = q.monic(); out.add(tuple(sorted((tuple(m), int(c)) for m, c in q.terms())))
        return frozenset(out)
    def subst(self, q, mp):
        """compose with {generator: polynomial}"""
        return q.compose([(g, v) for g, v in mp.items()]) if mp else q
    def implies(self, hyps, concl, depth=0):
        """do all common zeros of hyps satisfy concl = 0 (over the algebraic closure)?"""
        hyps = [h for h in hyps if h]
        if not concl: return True
        for h in hyps:
            if h.is_ground: return True
        cm = concl.monic()
        for h in hyps:
            if h.monic() == cm: return True
        # eliminate variables that a hypothesis gives linearly with a unit coefficient
        for h in hyps:
            for g in self.support(h):
                i = self.R.gens.index(g)
                c = None; ok = True
                for m, k in h.terms():
                    if m[i] == 1 and sum(m) == 1: c = k
                    elif m[i] != 0: ok = False
                if ok and c is not None:
                    sub = g - h * (self.R.domain(1) / c)
                    rest = [self.subst(x, {g: sub}) for x in hyps if x is not h]
                    return self.implies(rest, self.subst(concl, {g: sub}), depth + 1)
        gb = groebner(hyps + [self.R(1) - self.t * concl], self.R)
        return any(x.is_ground and x for x in gb)

def show(q):
    s = re.sub(r" mod \d+", "", str(q))
    for k in range(1, 300):
        s = s.replace(str(P - k), f"(-{k})")
    return s[:300]
def equiv(rec, S, A, B, what, names=("the circuit", "the specification")):
    for b in B:
        rec.goals += 1
        if not S.implies(A, b):
            raise Failed(f"{what}: {names[0]} does not enforce {show(b)} = 0")
    for a in A:
        rec.goals += 1
        if not S.implies(B, a):
            raise Failed(f"{what}: {names[0]} enforces {show(a)} = 0, which {names[1]} does not imply")

def lin_form(S, polys, nxt, cur, what):
    """polys contains c*(nxt - cur*L): return L"""
    i = S.R.gens.index(nxt)
    for q in polys:
        if nxt not in S.support(q): continue
        A = S.R(0); B = S.R(0); ok = True
        for m, c in q.terms():
            if m[i] == 1:
                mm = list(m); mm[i] = 0; A[tuple(mm)] = c
            elif m[i] == 0: B[m] = c
            else: ok = False
        if ok and A.is_ground:
            quo, rem = divmod(B * (S.R.domain(-1) / A.LC), cur)
            if not rem: return quo
    return None
def check_lin(rec, S, L, cols, what):
    """L = ch_a + k1 ch_b x1 + ... with distinct challenges and k_i != 0: injective fingerprint of the row"""
    rec.goals += 1
    if L is None: raise Failed(f"{what}: no running-product update of the form prp' = prp * L found")
    used = []; seen = set()
    for m, c in L.terms():
        fs = [(str(g), k) for g, k in zip(S.R.gens, m) if k]
        ch = [f for f, k in fs if re.fullmatch(r"ch\d+", f)]
        cs = [f for f, k in fs if not re.fullmatch(r"ch\d+", f)]
        if len(ch) != 1 or any(k != 1 for f, k in fs) or len(cs) > 1 or ch[0] in used:
            raise Failed(f"{what}: the row fingerprint {show(L)} is not a combination with independent challenges")
        used.append(ch[0]); seen.add(cs[0] if cs else "")
    if seen != set(cols) | {""}:
        raise Failed(f"{what}: the row fingerprint covers {sorted(seen)}, not {sorted(cols)}")
    return used
def canon_L(S, L, ren):
    return frozenset((frozenset((ren.get(str(g), str(g)), k) for g, k in zip(S.R.gens, m) if k), int(c)) for m, c in L.terms())
def horner(rec, S, polys, nxt, cur, val, what):
    """some challenge g with polys => nxt = cur*g + val"""
    rec.goals += 1
    for n, g in S.v.items():
        if re.fullmatch(r"ch\d+", n) and S.implies(polys, nxt - cur * g - val): return g
    raise Failed(f"{what}: running sum does not advance by sum*challenge + value")

def base_row(S, tab, col):
    k = S.by[f"{tab}.{col}"]
    return min(r for (c, r) in S.cells if c == k)
def mid(S):
    """(first row, a middle row, last row) of the processor table"""
    r0 = base_row(S, "p", "clk")
    return r0, r0 + 2, r0 + S.d["np"] - 1

# ---------------------------------------------------------------- processor table
def proc_ctx():
    S = dump(0)
    V = lambda n: S.var("p_" + n)
    return S, V
def step_spec(S, V, op, zero):
    """specification of one step as polynomials (next cells given by _n)"""
    n = lambda x: V(x + "_n")
    sp = [n("clk") - V("clk") - 1]
    if op in ("lb", "rb"):
        jump = (op == "lb") == zero
        sp.append(n("ip") - V("ni") if jump else n("ip") - V("ip") - 2)
    else: sp.append(n("ip") - V("ip") - 1)
    sp.append(n("mp") - V("mp") - {"shl": -1, "shr": 1}.get(op, 0))
    if op == "add": sp.append((n("mv") - V("mv") - 1) * (n("mv") - V("mv") + 255))
    elif op == "sub": sp.append((n("mv") - V("mv") + 1) * (n("mv") - V("mv") - 255))
    elif op in ("lb", "rb", "put"): sp.append(n("mv") - V("mv"))
    return sp
def inv_case(S, V, zero):
    return [V("mv"), V("mvi")] if zero else [V("mv") * V("mvi") - 1]
def step_ob(op, zero):
    def f(rec):
        S, V = proc_ctx()
        _, mrow, _ = mid(S)
        A = [S.subst(q, {V("ci"): S.R(OPS[op])}) for q in S.active(mrow, "p")]
        A = [q for q in A if q]
        case = inv_case(S, V, zero)
        gs = {}
        def acc(col, val, when):
            cur, nxt = V(col), V(col + "_n")
            if when: gs[col] = horner(rec, S, A + case, nxt, cur, val, f"{op}: {col}"); return nxt - cur * gs[col] - val
            return nxt - cur
        spec = step_spec(S, V, op, zero)
        spec += [acc("output_rs", V("mv"), op == "put"), acc("input_rs", V("mv_n"), op == "get")]
        for col, cols in (("mem_prp", ("clk", "mp", "mv")), ("inst_prp", ("ip", "ci", "ni"))):
            A0 = S.active(mrow, "p")
            L = lin_form(S, A0, V(col + "_n"), V(col), col)
            check_lin(rec, S, L, ["p_" + c for c in cols], f"{op}: {col}")
            L = S.subst(L, {V("ci"): S.R(OPS[op])})
            spec.append(V(col + "_n") - V(col) * L)
        equiv(rec, S, A + case, spec + case, f"step {op}, cell {'zero' if zero else 'non-zero'}")
        rec.fns.add("ckb_bf_base::processor_table::configure"); rec.fns.add("ckb_bf_base::processor_table::configure_second_phase"); rec.paths += 1
    return Ob(f"processor step: {op}, cell {'= 0' if zero else '!= 0'}", f)
def wrap_lemma():
    def f(rec):
        S = dump(0); Rg = 256
        # the table column holds exactly 0..255 and the looked-up value is the cell
        tab = S.by.get("table")
        if tab is None: raise Undecided("no lookup table column")
        rec.goals += 1
        vals = {v for (c, r), v in S.cells.items() if c == tab} | {v for c, (r, v) in S.fill.items() if c == tab[1]}
        if vals != set(range(Rg)): raise Failed(f"range table holds {len(vals)} values, not exactly 0..255")
        r0, mrow, last = mid(S)
        ok = False
        for row in range(r0, last + 1):
            rec.goals += 1
            hit = False
            for ins, tabs in S.d["lookups"]:
                if len(ins) == 1 and tabs[0][0] == "f" and ("f", tabs[0][1]) == tab:
                    q = S.ev(ins[0], row)
                    if q == S.var("p_mv"): hit = True
            if not hit: raise Failed(f"row {row}: the cell value is not range checked")
        # with both cells in range the field disjunction is the wrapped successor / predecessor
        for a in range(Rg):
            for b in range(Rg):
                rec.goals += 1
                if (((b - a - 1) * (b - a + 255)) % P == 0) != (b == (a + 1) % Rg): raise Failed("successor lemma")
                if (((b - a + 1) * (b - a - 255)) % P == 0) != (b == (a - 1) % Rg): raise Failed("predecessor lemma")
        rec.fns.add("ckb_bf_base::range_table::load_table"); rec.paths += 1
    return Ob("cell range and wrap-around", f)
def inverse_ob():
    def f(rec):
        S, V = proc_ctx(); r0, mrow, last = mid(S)
        for row in (r0, mrow, last):
            A = S.active(row, "p")
            for q in (V("mv") * (V("mv") * V("mvi") - 1), V("mvi") * (V("mv") * V("mvi") - 1)):
                rec.goals += 1
                if not S.implies([x for x in A if S.support(x) <= {V("mv"), V("mvi")}], q): raise Failed(f"row kind {('first','middle','last')[(r0,mrow,last).index(row)]}: {show(q)} = 0 is not enforced")
        rec.paths += 1
    return Ob("inverse column: mv = 0 and mvi = 0, or mv * mvi = 1", f)
def legal_ob():
    def f(rec):
        S, V = proc_ctx(); r0, mrow, last = mid(S)
        prod = S.R(1)
        for o in OPS.values(): prod = prod * (V("ci") - o)
        rec.goals += 1
        if not S.implies([x for x in S.active(mrow, "p") if S.support(x) <= {V("ci")}], prod): raise Failed("a step with an instruction other than the eight is not excluded")
        rec.paths += 1
    return Ob("only the eight instructions make a step", f)
def first_ob():
    def f(rec):
        S, V = proc_ctx(); r0, mrow, last = mid(S)
        A = S.active(r0, "p"); M = S.active(mrow, "p")
        extra = [q for q in A if q not in M]
        zero = [V("clk"), V("ip"), V("mp"), V("mv")]
        for z in zero:
            rec.goals += 1
            if not S.implies(extra, z): raise Failed(f"first row: {z} = 0 is not enforced")
        acc = []
        for c in ("mem_prp", "inst_prp", "output_rs", "input_rs"):
            k = S.at(S.by["p." + c], r0); acc.append(V(c) - k)
            rec.goals += 1
            if not S.implies(extra, V(c) - k): raise Failed(f"first row: {c} is not pinned to its initial value")
        for q in extra:
            rec.goals += 1
            if not S.implies(zero + acc, q): raise Failed(f"first row: {show(q)} = 0 is enforced but not implied by the initial state")
        rec.goals += 1
        if S.key([q for q in M if q not in A]): raise Failed("first row: a step constraint is missing")
        rec.paths += 1
    return Ob("first row: initial state and initial accumulators", f)
def rows_ob(i):
    def f(rec):
        S = dump(i); T = dump(0)
        r0 = base_row(S, "p", "clk"); n = S.d["np"]
        V = lambda n: T.var("p_" + n)
        _, mrow, lrow = mid(T)
        ref = {k: T.key(T.active(r, "p")) for k, r in (("first", mid(T)[0]), ("mid", mrow), ("last", lrow))}
        for k in range(n):
            rec.goals += 1
            kind = "last" if k == n - 1 else "first" if k == 0 else "mid"
            if S.key(S.active(r0 + k, "p")) != ref[kind]: raise Failed(f"program {DUMPS[i][0]!r}: row {k} of {n} does not carry the {kind}-row constraints")
        for r in range(r0 + n, r0 + n + 3):
            rec.goals += 1
            if S.active(r, "p"): raise Failed(f"program {DUMPS[i][0]!r}: constraints enabled past the last row")
        rec.paths += 1; rec.fns.add("ckb_bf_base::processor_table::load_table (selectors)")
    return Ob(f"which rows carry which constraints: program {DUMPS[i][0]!r}", f, bounded="one recorded trace")
def last_ob():
    def f(rec):
        S, V = proc_ctx(); r0, mrow, last = mid(S)
        A = S.active(last, "p"); M = S.active(mrow, "p")
        for q in A:
            rec.goals += 1
            if q not in M: raise Failed(f"last row enforces {show(q)} = 0, which no other row does")
        # the terminal state must be able to satisfy them: only the inverse relation and the two running products
        spec = [V("mv") * (V("mv") * V("mvi") - 1), V("mvi") * (V("mv") * V("mvi") - 1)]
        for col in ("mem_prp", "inst_prp"):
            L = lin_form(S, A, V(col + "_n"), V(col), col)
            rec.goals += 1
            if L is None: raise Failed(f"last row: {col} does not absorb the row")
            spec.append(V(col + "_n") - V(col) * L)
        equiv(rec, S, A, spec, "last row")
        rec.paths += 1
    return Ob("last row: absorbed by both running products, no step", f)

def warm(i=None):
    for k in range(len(DUMPS)) if i is None else [i]: dump(k)
def proc_obs(_):
    warm()
    obs = [step_ob(op, z) for op in OPS for z in (True, False)]
    return obs + [wrap_lemma(), inverse_ob(), legal_ob(), first_ob(), last_ob()] + [rows_ob(i) for i in range(len(DUMPS))]

# ---------------------------------------------------------------- the other tables
def rows_of(S, tab, col, n):
    r0 = base_row(S, tab, col)
    return r0, r0 + 1, r0 + n - 1
def enforce(rec, S, A, spec, what):
    for b in spec:
        rec.goals += 1
        if not S.implies(A, b): raise Failed(f"{what}: the circuit does not enforce {show(b)} = 0")
def admits(rec, S, A, hon, what):
    for a in A:
        rec.goals += 1
        if not S.implies(hon, a): raise Failed(f"{what}: the circuit demands {show(a)} = 0, which an honest trace does not satisfy")

def mem_ctx():
    S = dump(0); V = lambda n: S.var("m_" + n)
    r0, r1, rl = rows_of(S, "m", "clk", S.d["nm"])
    return S, V, r0, r1, rl
def mem_prp(rec, S, V, A, what):
    L = lin_form(S, A, V("prp_n"), V("prp"), what)
    check_lin(rec, S, L, ["m_clk", "m_mp", "m_mv"], what)
    return L
def mem_sound():
    def f(rec):
        S, V, r0, r1, rl = mem_ctx(); A = S.active(r1, "m")
        dm = V("mp_n") - V("mp")
        enforce(rec, S, A, [dm * (dm - 1)], "memory table step")
        enforce(rec, S, A + [dm], [(V("mv_n") - V("mv")) * (V("clk_n") - V("clk") - 1)], "memory table, same cell")
        enforce(rec, S, A + [dm - 1], [V("mv_n")], "memory table, next cell")
        L = mem_prp(rec, S, V, A, "memory table"); enforce(rec, S, A, [V("prp_n") - V("prp") * L], "memory table")
        A0 = S.active(r0, "m"); enforce(rec, S, A0, [V("mp"), V("mv"), V("prp") - S.at(S.by["m.prp"], r0)], "memory table, first row")
        enforce(rec, S, A0, A, "memory table, first row")
        Al = S.active(rl, "m"); enforce(rec, S, Al, [V("prp_n") - V("prp") * L], "memory table, last row")
        if S.at(S.by["m.prp"], r0) == 0: raise Failed("memory table: the running product starts at 0")
        rec.goals += 1; rec.paths += 1
        rec.fns |= {"ckb_bf_base::memory_table::configure", "ckb_bf_base::memory_table::configure_second_phase"}
    return Ob("memory table: every row follows the previous one", f)
def mem_complete():
    def f(rec):
        S, V, r0, r1, rl = mem_ctx(); A = S.active(r1, "m"); dm = V("mp_n") - V("mp")
        L = lin_form(S, A, V("prp_n"), V("prp"), "memory table")
        if L is None: raise Undecided("no running product update")
        acc = [V("prp_n") - V("prp") * L]
        for hon, w in (([dm, V("clk_n") - V("clk") - 1], "same cell, next cycle"), ([dm, V("mv_n") - V("mv")], "same cell, later cycle, same value"), ([dm - 1, V("mv_n")], "next cell")):
            admits(rec, S, A, hon + acc, f"memory table, {w}")
            init = [V("mp"), V("mv"), V("prp") - S.at(S.by["m.prp"], r0)]
            admits(rec, S, S.active(r0, "m"), [S.subst(q, {V("mp"): S.R(0), V("mv"): S.R(0)}) for q in hon] + init + acc, f"memory table, first row, {w}")
        admits(rec, S, S.active(rl, "m"), acc, "memory table, last row")
        rec.paths += 1
    return Ob("memory table: honest rows are accepted", f)

def inst_ctx():
    S = dump(0); V = lambda n: S.var("i_" + n)
    r0, r1, rl = rows_of(S, "i", "ip", S.d["ni"])
    return S, V, r0, r1, rl
def inst_L(rec, S, V, A, what):
    """the fingerprint: from the constraints in the case ip' = ip"""
    q = [S.subst(x, {V("ip_n"): V("ip")}) for x in A]
    L = lin_form(S, q, V("prp_n"), V("prp"), what)
    check_lin(rec, S, L, ["i_ip", "i_ci", "i_ni"], what)
    return L
def inst_sound():
    def f(rec):
        S, V, r0, r1, rl = inst_ctx(); A = S.active(r1, "i"); d = V("ip_n") - V("ip")
        enforce(rec, S, A, [d * (d - 1)], "instruction table step")
        L = inst_L(rec, S, V, A, "instruction table")
        enforce(rec, S, A + [d], [V("ci_n") - V("ci"), V("ni_n") - V("ni"), V("prp_n") - V("prp") * L, V("rs_n") - V("rs")], "instruction table, same address")
        enforce(rec, S, A + [d - 1], [V("ni") - V("ci_n"), V("prp_n") - V("prp")], "instruction table, next address")
        horner(rec, S, A + [d - 1], V("rs_n"), V("rs"), V("ci"), "instruction table, next address")
        A0 = S.active(r0, "i"); enforce(rec, S, A0, [V("ip"), V("rs") - S.at(S.by["i.rs"], r0), V("prp") - S.at(S.by["i.prp"], r0)] + A, "instruction table, first row")
        rec.goals += 1
        if S.at(S.by["i.prp"], r0) == 0: raise Failed("instruction table: the running product starts at 0")
        # last row: absorbed, and past the program
        W = lambda n: S.var("i_" + n + "_p")
        Al = S.active(rl, "i"); An = S.active(rl + 1, "i")
        up = {V("ip"): V("ip_n"), W("ip"): V("ip"), W("ci"): V("ci"), W("ni"): V("ni"), W("prp"): V("prp"), V("prp"): V("prp_n"), V("rs"): V("rs_n")}
        for g in list(S.v):
            if g.startswith("i_") and g.endswith("_p") and S.v[g] not in up: up[S.v[g]] = S.v[g[:-2]]
        last = Al + [S.subst(q, up) for q in An]
        enforce(rec, S, last, [V("ci"), V("ni")], "instruction table, last row")
        enforce(rec, S, last + [V("ci"), V("ni")], [S.subst(V("prp_n") - V("prp") * L, {V("ci"): S.R(0), V("ni"): S.R(0)})], "instruction table, last row")
        rec.paths += 1
        rec.fns |= {"ckb_bf_base::instruction_table::configure", "ckb_bf_base::instruction_table::configure_second_phase"}
    return Ob("instruction table: every row follows the previous one", f)
def inst_complete():
    def f(rec):
        S, V, r0, r1, rl = inst_ctx(); A = S.active(r1, "i"); d = V("ip_n") - V("ip")
        L = inst_L(rec, S, V, A, "instruction table"); g = horner(rec, S, A + [d - 1], V("rs_n"), V("rs"), V("ci"), "instruction table")
        init = [V("ip"), V("rs") - S.at(S.by["i.rs"], r0), V("prp") - S.at(S.by["i.prp"], r0)]
        for hon, w in (([d, V("ci_n") - V("ci"), V("ni_n") - V("ni"), V("prp_n") - V("prp") * L, V("rs_n") - V("rs")], "same address"), ([d - 1, V("ni") - V("ci_n"), V("prp_n") - V("prp"), V("rs_n") - V("rs") * g - V("ci")], "next address")):
            admits(rec, S, A, hon, f"instruction table, {w}")
            admits(rec, S, S.active(r0, "i"), hon + init, f"instruction table, first row, {w}")
        rec.paths += 1
    return Ob("instruction table: honest rows are accepted", f)

SUMS = {"o": ("output", "val", "rs", "nout"), "n": ("input", "val", "rs", "nin"), "c": ("program", "code", "code_rs", "ncode")}
def sum_ob(t):
    nm, val, rs, cnt = SUMS[t]
    def f(rec):
        i = 2; S = dump(i); n = S.d[cnt]; V = lambda x: S.var(f"{t}_{x}")
        r0 = base_row(S, t, rs); init = S.at(S.by[f"{t}.{rs}"], r0)
        A = S.active(r0 + 1, t) if n > 1 else S.active(r0, t)
        g = horner(rec, S, A, V(rs + "_n"), V(rs), V(val), f"{nm} table")
        st = [V(rs + "_n") - V(rs) * g - V(val)]
        enforce(rec, S, A, st, f"{nm} table"); admits(rec, S, A, st + ([V(rs) - init] if n == 1 else []), f"{nm} table")
        A0 = S.active(r0, t); enforce(rec, S, A0, st + [V(rs) - init], f"{nm} table, first row"); admits(rec, S, A0, st + [V(rs) - init], f"{nm} table, first row")
        for k in range(1, n):
            rec.goals += 1
            if S.key(S.active(r0 + k, t)) != S.key(A): raise Failed(f"{nm} table: entry {k} is not absorbed")
        rec.goals += 1
        if init == 0: raise Failed(f"{nm} table: the running sum starts at 0, so leading zeros are not counted")
        if t != "c":
            S0 = dump(1); r = base_row(S0, t, rs)
            rec.goals += 1
            if not S.implies([], S.R(0)) or S0.at(S0.by[f"{t}.{rs}"], r) != init: raise Failed(f"{nm} table: an empty table starts elsewhere")
            if S0.d[cnt] == 0: enforce(rec, S0, S0.active(r, t), [S0.var(f"{t}_{rs}") - init], f"empty {nm} table")
        rec.paths += 1
        rec.fns |= {f"ckb_bf_base::{nm}_table::configure", f"ckb_bf_base::{nm}_table::configure_second_phase"}
    return Ob(f"{nm} table: every entry enters the running sum", f)
def link_ob():
    def f(rec):
        S = dump(0); V = S.var
        _, mrow, _ = mid(S); P_ = S.active(mrow, "p")
        # fingerprints and challenges agree
        Lp = lin_form(S, P_, V("p_mem_prp_n"), V("p_mem_prp"), ""); Sm, Vm, r0, r1, rl = mem_ctx()
        Lm = lin_form(S, S.active(r1, "m"), V("m_prp_n"), V("m_prp"), "")
        rec.goals += 2
        if Lp is None or Lm is None: raise Undecided("no fingerprint")
        if canon_L(S, Lp, {"p_clk": "m_clk", "p_mp": "m_mp", "p_mv": "m_mv"}) != canon_L(S, Lm, {}): raise Failed("processor and memory table do not use the same row fingerprint")
        Li = lin_form(S, P_, V("p_inst_prp_n"), V("p_inst_prp"), "")
        Si, Vi, i0, i1, il = inst_ctx(); Lt = inst_L(rec, S, Vi, S.active(i1, "i"), "instruction table")
        if canon_L(S, Li, {"p_ip": "i_ip", "p_ci": "i_ci", "p_ni": "i_ni"}) != canon_L(S, Lt, {}): raise Failed("processor and instruction table do not use the same row fingerprint")
        # last instruction row uses the same one
        W = lambda n: S.var("i_" + n + "_p")
        An = S.active(il + 1, "i")
        Lx = lin_form(S, An, Vi("prp"), W("prp"), "")
        rec.goals += 1
        if Lx is not None and canon_L(S, Lx, {f"i_{c}_p": f"i_{c}" for c in ("ip", "ci", "ni")}) != canon_L(S, Lt, {}): raise Failed("last instruction row is absorbed with another fingerprint")
        gi = horner(rec, S, S.active(i1, "i") + [Vi("ip_n") - Vi("ip") - 1], Vi("rs_n"), Vi("rs"), Vi("ci"), "instruction table")
        gs = {}
        for t, (nm, val, rs, cnt) in SUMS.items():
            r = base_row(S, t, rs)
            gs[t] = horner(rec, S, S.active(r, t), V(f"{t}_{rs}_n"), V(f"{t}_{rs}"), V(f"{t}_{val}"), f"{nm} table")
        A = lambda op: [S.subst(q, {V("p_ci"): S.R(OPS[op])}) for q in P_]
        go = horner(rec, S, A("put"), V("p_output_rs_n"), V("p_output_rs"), V("p_mv"), "put"); gn = horner(rec, S, A("get"), V("p_input_rs_n"), V("p_input_rs"), V("p_mv_n"), "get")
        rec.goals += 3
        if gs["c"] != gi: raise Failed("program and instruction table use different challenges")
        if gs["o"] != go: raise Failed("output table and processor use different challenges")
        if gs["n"] != gn: raise Failed("input table and processor use different challenges")
        ip = lambda k: S.at(S.by[k], base_row(S, k.split(".")[0], k.split(".")[1]))
        for a, b in (("p.mem_prp", "m.prp"), ("p.inst_prp", "i.prp"), ("p.output_rs", "o.rs"), ("p.input_rs", "n.rs"), ("i.rs", "c.code_rs")):
            rec.goals += 1
            if ip(a) != ip(b): raise Failed(f"{a} and {b} start from different values")
        rec.paths += 1
        rec.fns.add("ckb_bf_base::utils::BFChallenge")
    return Ob("tables are compared through the same challenges and initial values", f)
DATA = ["p.clk", "p.ip", "p.ci", "p.ni", "p.mp", "p.mv", "m.clk", "m.mp", "m.mv", "i.ip", "i.ci", "i.ni", "o.val", "n.val", "c.code"]
def phase_ob():
    def f(rec):
        S = dump(0)
        used = {n for n in S.v if re.fullmatch(r"ch\d+", n)}
        for k in DATA:
            if k not in S.by: raise Undecided(f"column {k} not found")
            rec.goals += 1
            for c in used:
                if S.d["phase"][S.by[k][1]] > S.d["chphase"][int(c[2:])]: raise Failed(f"column {k} is committed after challenge {c} is known")
        rec.paths += 1
    return Ob("table contents are committed before the challenges are drawn", f)
def sound_obs(_):
    warm()
    return [mem_sound(), inst_sound(), link_ob(), phase_ob()] + [sum_ob(t) for t in SUMS] + [finals_ob(i) for i in range(len(DUMPS))]
def complete_obs(_):
    warm()
    return [mem_complete(), inst_complete()]

# ---------------------------------------------------------------- equalities
def classes(S):
    par = {}
    def find(x):
        while par.get(x, x) != x: x = par[x]
        return x
    for a, ra, b, rb in S.d["copies"]:
        x, y = find((tuple(a), ra)), find((tuple(b), rb))
        if x != y: par[x] = y
    return find
def finals_ob(i):
    def f(rec):
        S = dump(i); find = classes(S); d = S.d
        end = lambda k, n: (S.by[k], base_row(S, *k.split(".")) + n)
        ends = [("p.mem_prp", d["np"], "m.prp", d["nm"]), ("p.inst_prp", d["np"], "i.prp", d["ni"]), ("p.output_rs", d["np"], "o.rs", d["nout"]), ("p.input_rs", d["np"], "n.rs", d["nin"]), ("i.rs", d["ni"], "c.code_rs", d["ncode"])]
        for a, na, b, nb in ends:
            rec.goals += 1
            tgt = find(end(b, nb))
            bad = Failed(f"program {DUMPS[i][0]!r}: the final values of {a} and {b} are not constrained to be equal")
            if find(end(a, na)) != tgt:
                if "prp" in a or find(end(a, na - 1)) != tgt: raise bad
            elif "prp" not in a:      # one row past the last: that row must carry the sum on
                t, col = a.split("."); r = base_row(S, t, col) + na
                cur, nxt = S.v.get(f"{t}_{col}"), S.v.get(f"{t}_{col}_n"); prv = S.v.get(f"{t}_{col}_p")
                ok = nxt is not None and S.implies(S.active(r - 1, t), nxt - cur)
                ok = ok or (prv is not None and S.implies(S.active(r, t), cur - prv))
                if not ok: raise Failed(f"program {DUMPS[i][0]!r}: the final value of {a} is a witness cell that no row constrains")
        rec.paths += 1; rec.fns.add("ckb_bf_base::main_config::load_table")
    return Ob(f"final accumulators are equal: program {DUMPS[i][0]!r}", f, bounded="one recorded trace")
def bind_ob(i):
    def f(rec):
        S = dump(i); find = classes(S); d = S.d
        for t, val, ln, inst, cnt in (("c", "code", "program_len", "inst.code", "ncode"), ("n", "val", "input_len", "inst.input", "nin")):
            n = d[cnt]
            if inst not in S.by: raise Undecided(f"instance column {inst}")
            rec.goals += 1
            root = find((S.by[inst], 0))
            cls = [x for x in S.cells if find(x) == root]
            if not cls: raise Failed(f"program {DUMPS[i][0]!r}: {inst}[0] is not tied to the length")
            if not any(c[0] == "f" and S.cells[c, r] == n for c, r in cls): raise Failed(f"program {DUMPS[i][0]!r}: {inst}[0] is tied only to a free witness cell, not to the number of rows")
            for k in range(n):
                rec.goals += 1
                if find((S.by[inst], k + 1)) != find((S.by[f"{t}.{val}"], k)): raise Failed(f"program {DUMPS[i][0]!r}: {inst}[{k + 1}] is not tied to entry {k}")
            rec.goals += 1
        rec.paths += 1
    return Ob(f"public values are tied to the tables: program {DUMPS[i][0]!r}", f, bounded="one recorded trace")
def bind_obs(_):
    warm()
    return [bind_ob(i) for i in range(len(DUMPS))]
