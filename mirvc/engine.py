"""mirvc: a deductive verification-condition engine over rustc's monomorphised MIR.

Values
  Int(p, lo, hi)   machine integer / bool / char: integer polynomial over ctx symbols + interval
  FE(fld, p)       abstract element of a prime field (contract level of the field types)
  Agg(f, v)        struct / tuple / enum variant / closure
  Arr(items)       array, and the contents of a Vec
  Ref(cell, path, meta)   reference / raw pointer / Box;  meta=(start,len) for slices
  FnV(inst)        function item / pointer
  Nat(kind, ...)   native model object (slice iterators ...)
"""
import json, re, sys
from math import gcd
from .poly import Poly, pdiv
sys.setrecursionlimit(20000)

class Unsupported(Exception):
    pass
class Panic(Exception):
    def __init__(self, msg):
        self.msg = msg
class PathInfeasible(Exception):
    pass
class PathDone(Exception):
    """the path ended at a loop head after its obligations were checked"""

class Int:
    __slots__ = ("p", "lo", "hi")
    def __init__(self, p, lo, hi):
        self.p = p; self.lo = lo; self.hi = hi
    def is_const(self):
        return self.p.is_const()
    def c(self):
        if not self.p.is_const():
            raise Unsupported("symbolic value where a constant is needed")
        return self.p.cval()
    def __repr__(self):
        return f"Int({self.p.show()})"
def K(c):
    c = int(c)
    return Int(Poly.const(c), c, c)
TRUE, FALSE = K(1), K(0)

class FE:
    __slots__ = ("fld", "p")
    def __init__(self, fld, p):
        self.fld = fld; self.p = p
    def __repr__(self):
        return f"FE<{self.fld.name}>({self.p.show()})"
class Fld:
    def __init__(self, name, p, mont_r=None, base=None):
        self.name = name; self.p = p; self.r = mont_r; self.base = base
class Agg:
    __slots__ = ("f", "v", "ty")
    def __init__(self, f, v=0, ty=None):
        self.f = f; self.v = v; self.ty = ty
    def __repr__(self):
        return f"Agg#{self.v}{self.f}"
class Arr:
    __slots__ = ("items",)
    def __init__(self, items):
        self.items = items
    def __repr__(self):
        return f"Arr{self.items}"
class Ref:
    __slots__ = ("cell", "path", "meta")
    def __init__(self, cell, path=(), meta=None):
        self.cell = cell; self.path = path; self.meta = meta
    def __repr__(self):
        return f"Ref({self.cell}{self.path}{self.meta})"
class FnV:
    def __init__(self, inst):
        self.inst = inst
class Nat:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)
    def copy(self, **kw):
        d = dict(self.__dict__); d.update(kw); k = d.pop("kind")
        return Nat(k, **d)
    def __repr__(self):
        return f"Nat<{self.kind}>"
class Undef:
    pass
UNDEF = Undef()
UNIT = Agg([])

class Program:
    # re-export paths rustc may print for the same item, depending on which crates are visible
    ALIASES = (("halo2_proofs::halo2curves::", "halo2curves::"), ("halo2curves::group::ff::", "ff::"), ("group::ff::", "ff::"), ("halo2curves::group::", "group::"),
               ("halo2_proofs::arithmetic::Field", "ff::Field"))
    def __init__(self, path):
        self.fns = {}; self.tys = {}; self.allocs = {}; self.roots = {}; self.byname = {}
        with open(path) as f:
            for line in f:
                for a, b in self.ALIASES:
                    line = line.replace(a, b)
                j = json.loads(line)
                t = j["t"]
                if t == "fn":
                    self.fns[j["id"]] = j
                    self.byname.setdefault(j["name"], []).append(j["id"])
                elif t == "ty":
                    self.tys[j["id"]] = j
                elif t == "alloc":
                    self.allocs[j["id"]] = j
                else:
                    for n, i in j["r"]:
                        self.roots[n] = i
    def find(self, name):
        """unique function whose full name equals `name`"""
        l = self.byname.get(name)
        return self.fns[l[0]] if l else None
    def search(self, rx):
        r = re.compile(rx)
        return [f for f in self.fns.values() if r.search(f["name"])]

class Ctx:
    """one path: symbols, facts, decisions"""
    def __init__(self, prefix=(), solver=None):
        self.names = []; self.lo = []; self.hi = []; self.bools = set(); self.defs = {}
        self.facts = []            # ('ge0',p) ('eq0',p) ('negdef',b,p) ('zdef',b,p)
        self.memo = {}
        self.pb = {}
        self.prefix = list(prefix); self.pos = 0; self.trace = []; self.alts = []
        self.asg = {}
        self.ffacts = []           # (fld, poly, iszero)
        self.nz = []               # field polynomials assumed non-zero
        self.cells = []
        self.inputs = []
        self.stats = {"steps": 0, "branches": 0}
        self.inlined = set(); self.used = set()
        from .solve import PathSolver
        self.solver = PathSolver(self)
        self.log = []
    # --- symbols
    def sym(self, name, lo=None, hi=None, boolean=False):
        i = len(self.names)
        self.names.append(f"{name}#{i}" if not name.startswith("$") else name[1:])
        self.lo.append(lo); self.hi.append(hi)
        if boolean:
            self.bools.add(i); self.lo[i] = 0; self.hi[i] = 1
        return i
    def int_sym(self, name, lo, hi):
        s = self.sym(name, lo, hi)
        return Int(Poly.sym(s), lo, hi)
    def bool_sym(self, name):
        return Int(Poly.sym(self.sym(name, boolean=True)), 0, 1)
    def fe_sym(self, fld, name):
        return FE(fld, Poly.sym(self.sym(name)))
    def interval(self, p):
        k = self.pb.get(p)
        lo = hi = 0
        for m, c in p.t.items():
            l = h = 1
            for s, e in m:
                sl, sh = self.lo[s], self.hi[s]
                if s in self.asg:
                    sl = sh = self.asg[s]
                if sl is None or sh is None:
                    l = None; break
                a, b = (sl ** e, sh ** e)
                if sl < 0 and e % 2 == 0:
                    a, b = 0, max(sl ** e, sh ** e)
                q = (l * a, l * b, h * a, h * b)
                l, h = min(q), max(q)
            if l is None:
                lo = hi = None; break
            if c >= 0:
                lo += c * l; hi += c * h
            else:
                lo += c * h; hi += c * l
        if k:
            if lo is None or k[0] > lo: lo = k[0]
            if hi is None or k[1] < hi: hi = k[1]
        return lo, hi
    def mk(self, p, lo=None, hi=None):
        if self.bools:
            p = p.idem(self.bools)
        if p.is_const():
            return K(p.cval())
        a, b = self.interval(p)
        if a is not None and (lo is None or a > lo): lo = a
        if b is not None and (hi is None or b < hi): hi = b
        if lo is not None and lo == hi:
            return K(lo)
        if lo is not None and hi is not None:
            self.pb[p] = (lo, hi)
        return Int(p, lo, hi)
    def nrm(self, x):
        """apply decided boolean symbols"""
        if self.asg and not x.p.is_const():
            p = x.p.subst(self.asg)
            if p is not x.p:
                return self.mk(p, x.lo, x.hi)
        return x
    # --- arithmetic
    def add(self, a, b):
        return self.mk(a.p + b.p, _a(a.lo, b.lo), _a(a.hi, b.hi))
    def sub(self, a, b):
        return self.mk(a.p - b.p, _s(a.lo, b.hi), _s(a.hi, b.lo))
    def mul(self, a, b):
        lo = hi = None
        if None not in (a.lo, a.hi, b.lo, b.hi):
            q = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)
            lo, hi = min(q), max(q)
        return self.mk(a.p * b.p, lo, hi)
    def scale(self, a, k):
        return self.mul(a, K(k))
    def only_bools(self, *ps):
        s = set()
        for p in ps:
            s |= p.syms()
        return s if s <= self.bools and len(s) <= 8 else None
    def table(self, syms, fn):
        """multilinear interpolation of fn: {0,1}^n -> int"""
        syms = sorted(syms)
        n = len(syms)
        vals = []
        for i in range(1 << n):
            vals.append(fn({s: (i >> k) & 1 for k, s in enumerate(syms)}))
        for k in range(n):
            for i in range(1 << n):
                if i >> k & 1:
                    vals[i] -= vals[i ^ (1 << k)]
        t = {}
        for i in range(1 << n):
            if vals[i]:
                t[tuple((s, 1) for k, s in enumerate(syms) if i >> k & 1)] = vals[i]
        return self.mk(Poly(t))
    def floordiv(self, x, d):
        """floor(x / d), d a positive constant"""
        x = self.nrm(x)
        if x.is_const():
            return K(x.c() // d)
        if d == 1:
            return x
        bs = self.only_bools(x.p)
        if bs is not None:
            return self.table(bs, lambda e: x.p.eval(e) // d)
        g = d
        for c in x.p.t.values():
            g = gcd(g, c)
            if g == 1: break
        if 1 < g < d:     # floor(g*y / (g*e)) = floor(y / e)
            return self.floordiv(self.mk(Poly({mm: c // g for mm, c in x.p.t.items()}),
                                         None if x.lo is None else -(-x.lo // g), None if x.hi is None else x.hi // g), d // g)
        lo = None if x.lo is None else x.lo // d
        hi = None if x.hi is None else x.hi // d
        div = []; rest = {}
        for mm, c in x.p.t.items():
            if c % d == 0:
                div.append((mm, c))
            else:
                rest[mm] = c
        if not rest:
            return self.mk(Poly({mm: c // d for mm, c in div}), lo, hi)
        # choose which divisible monomials to pull out: newest symbols first, stopping at the first
        # remainder whose interval pins the quotient (so the same remainder always gets the same symbol)
        div.sort(key=lambda mc: max([s_ for s_, _ in mc[0]] or [-1]), reverse=True)
        best = None
        for n in list(range(len(div) + 1)):
            Bp = Poly({**rest, **{mm: c for mm, c in div[n:]}})
            if ("fl", Bp, d) in self.memo:
                best = n; break
            blo, bhi = self.interval(Bp)
            if n == 0:
                blo, bhi = _max(blo, x.lo), _min(bhi, x.hi)
            if blo is not None and bhi is not None and (blo // d == bhi // d or (-d <= blo and bhi < d)):
                best = n; break
        if best is None:
            best = len(div)
        A = {mm: c // d for mm, c in div[:best]}
        Bp = Poly({**rest, **{mm: c for mm, c in div[best:]}})
        blo, bhi = self.interval(Bp)
        if A:
            alo, ahi = self.interval(Poly(A))
            if None not in (alo, ahi, x.lo, x.hi):
                blo, bhi = _max(blo, x.lo - d * ahi), _min(bhi, x.hi - d * alo)
        else:
            blo, bhi = _max(blo, x.lo), _min(bhi, x.hi)
        if blo is None or bhi is None:
            raise Unsupported("unbounded floor")
        if blo // d == bhi // d:
            return self.mk(Poly(A) + (blo // d), lo, hi)
        if -d <= blo and bhi < d:
            n = self.neg_ind(Int(Bp, blo, bhi))
            return self.mk(Poly(A) - n.p, lo, hi)
        key = ("fl", Bp, d)
        f = self.memo.get(key)
        if f is None:
            # nested floors: floor(floor(y/c)/d) = floor(y/(c*d)) is not normalised; facts suffice
            f = self.sym("q", blo // d, bhi // d)
            if blo // d == 0 and bhi // d == 1:
                self.bools.add(f)
            self.defs[f] = key
            self.memo[key] = f
            r = Bp - Poly.sym(f).scale(d)
            self.facts.append(("ge0", r)); self.facts.append(("ge0", (d - 1) - r))
            self.pb[r] = (0, d - 1)
        return self.mk(Poly(A) + Poly.sym(f), lo, hi)
    def mod(self, x, d):
        q = self.floordiv(x, d)
        r = self.mk(x.p - q.p.scale(d), 0, d - 1)
        return r
    def wrap(self, x, bits, signed=False):
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        if x.lo is not None and x.lo >= lo and x.hi is not None and x.hi <= hi:
            return x
        if signed:
            return self.sub(self.mod(self.add(x, K(-lo)), 1 << bits), K(-lo))
        return self.mod(x, 1 << bits)
    def neg_ind(self, x):
        """indicator [x < 0]"""
        x = self.nrm(x)
        if x.lo is not None and x.lo >= 0:
            return FALSE
        if x.hi is not None and x.hi < 0:
            return TRUE
        bs = self.only_bools(x.p)
        if bs is not None:
            return self.table(bs, lambda e: int(x.p.eval(e) < 0))
        key = ("neg", x.p)
        b = self.memo.get(key)
        if b is None:
            key2 = ("neg", -x.p - 1)   # [-x-1 < 0] = [x >= 0]
            b2 = self.memo.get(key2)
            if b2 is not None:
                return self.mk(1 - Poly.sym(b2))
            b = self.sym("neg", boolean=True)
            self.memo[key] = b
            self.defs[b] = key
            if x.lo is not None and x.hi is not None:
                self.pb.setdefault(x.p, (x.lo, x.hi))
            self.facts.append(("negdef", b, x.p))
        return Int(Poly.sym(b), 0, 1)
    def zero_ind(self, x):
        x = self.nrm(x)
        if x.is_const():
            return TRUE if x.c() == 0 else FALSE
        if (x.lo is not None and x.lo > 0) or (x.hi is not None and x.hi < 0):
            return FALSE
        bs = self.only_bools(x.p)
        if bs is not None:
            return self.table(bs, lambda e: int(x.p.eval(e) == 0))
        lead = max(x.p.t.items(), key=lambda mc: (len(mc[0]), mc[0]))
        p = x.p if lead[1] > 0 else -x.p
        key = ("z", p)
        b = self.memo.get(key)
        if b is None:
            b = self.sym("eqz", boolean=True)
            self.memo[key] = b; self.defs[b] = key
            self.facts.append(("zdef", b, p))
        return Int(Poly.sym(b), 0, 1)
    def lt(self, a, b):
        return self.neg_ind(self.sub(a, b))
    def le(self, a, b):
        return self.not_(self.lt(b, a))
    def eq(self, a, b):
        return self.zero_ind(self.sub(a, b))
    def not_(self, a):
        return self.mk(1 - a.p, 0, 1)
    def and_(self, a, b):
        return self.mk(a.p * b.p, 0, 1)
    def or_(self, a, b):
        return self.mk(a.p + b.p - a.p * b.p, 0, 1)
    def ite(self, c, a, b):
        """c ? a : b on Ints"""
        c = self.nrm(c)
        if c.is_const():
            return a if c.c() else b
        lo = None if a.lo is None or b.lo is None else min(a.lo, b.lo)
        hi = None if a.hi is None or b.hi is None else max(a.hi, b.hi)
        return self.mk(c.p * a.p + (1 - c.p) * b.p, lo, hi)
    def mask_of(self, x, bits):
        """x in {0, 2^bits-1} as boolean polynomial e with x=(2^bits-1)*e, else None"""
        full = (1 << bits) - 1
        bs = self.only_bools(x.p)
        if bs is None:
            return None
        for i in range(1 << len(bs)):
            e = {s: (i >> k) & 1 for k, s in enumerate(sorted(bs))}
            if x.p.eval(e) not in (0, full):
                return None
        return Poly({m: c // full for m, c in x.p.t.items()})
    def bitop(self, op, a, b, bits):
        a, b = self.nrm(a), self.nrm(b)
        if a.is_const() and b.is_const():
            x, y = a.c(), b.c()
            return K(x & y if op == "And" else x | y if op == "Or" else x ^ y)
        full = (1 << bits) - 1
        bs = self.only_bools(a.p, b.p)
        if bs is not None:
            f = {"And": lambda x, y: x & y, "Or": lambda x, y: x | y, "Xor": lambda x, y: x ^ y}[op]
            return self.table(bs, lambda e: f(a.p.eval(e), b.p.eval(e)))
        if a.lo is not None and a.lo >= 0 and b.lo is not None and b.lo >= 0 and a.hi <= 1 and b.hi <= 1:
            pr = a.p * b.p
            if op == "And": return self.mk(pr, 0, 1)
            if op == "Or": return self.mk(a.p + b.p - pr, 0, 1)
            return self.mk(a.p + b.p - pr.scale(2), 0, 1)
        for x, y in ((a, b), (b, a)):
            if y.is_const():
                c = y.c()
                if c == 0:
                    return K(0) if op == "And" else x
                if c == full:
                    if op == "And": return x
                    if op == "Or": return y
                    return self.sub(K(full), x)
                if op == "And":
                    # contiguous mask runs
                    r = K(0); k = 0; n = 0
                    while c >> k:
                        if (c >> k) & 1:
                            j = k
                            while (c >> j) & 1: j += 1
                            part = self.mod(self.floordiv(x, 1 << k), 1 << (j - k))
                            r = self.add(r, self.scale(part, 1 << k))
                            k = j; n += 1
                            if n > 4: r = None; break
                        else:
                            k += 1
                    if r is not None: return r
            e = self.mask_of(y, bits)
            if e is not None:
                if op == "And": return self.mk(x.p * e, 0, x.hi)
                if op == "Or": return self.mk(x.p * (1 - e) + e.scale(full), 0, full)
                return self.mk(x.p + e * (Poly.const(full) - x.p.scale(2)), 0, full)
        if a.p == b.p:
            return K(0) if op == "Xor" else a
        if op in ("Or", "Xor"):
            for x, y in ((a, b), (b, a)):
                if x.lo is not None and x.lo >= 0 and y.lo is not None and y.lo >= 0 and y.hi is not None:
                    k = y.hi.bit_length()
                    if all(c % (1 << k) == 0 for c in x.p.t.values()):
                        return self.add(x, y)
            # disjointness the other way: proven by the solver
        if op == "And":
            for x, y in ((a, b), (b, a)):
                if y.hi is not None and y.lo >= 0 and y.hi <= 1:
                    # y in {0,1}: x & y = y * (x mod 2)
                    return self.mul(self.mod(x, 2), y)
        if op == "Xor":
            for x, y in ((a, b), (b, a)):
                if y.hi is not None and y.lo >= 0 and y.hi <= 1:
                    l = self.mod(x, 2)
                    return self.mk(x.p + y.p - (l.p * y.p).scale(2), 0, full)
        if op == "Or":
            for x, y in ((a, b), (b, a)):
                if y.hi is not None and y.lo >= 0 and y.hi <= 1:
                    l = self.mod(x, 2)
                    return self.mk(x.p + y.p - l.p * y.p, 0, full)
        # general words: over-approximate by a fresh word with the facts every such word satisfies
        if None in (a.lo, b.lo, a.hi, b.hi) or a.lo < 0 or b.lo < 0:
            raise Unsupported(f"bit operation {op} on general symbolic words")
        ka, kb = sorted([a.p, b.p], key=lambda q: sorted(q.t.items()))
        key = ("bit" + op, ka, kb)
        f = self.memo.get(key)
        if f is None:
            hi = min(full, (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1)
            if op == "And": hi = min(a.hi, b.hi)
            f = self.sym("w" + op, 0, hi)
            self.memo[key] = f; self.defs[f] = key
            o = Poly.sym(f)
            if op == "And":
                self.facts += [("ge0", a.p - o), ("ge0", b.p - o)]
            elif op == "Or":
                self.facts += [("ge0", o - a.p), ("ge0", o - b.p), ("ge0", a.p + b.p - o)]
            else:
                self.facts += [("ge0", a.p + b.p - o), ("ge0", o - a.p + b.p), ("ge0", o - b.p + a.p)]
        return self.mk(Poly.sym(f))
    # --- field level
    def imag(self):
        """the symbol standing for the generator of a quadratic extension"""
        k = self.memo.get("imag")
        if k is None:
            k = self.memo["imag"] = self.sym("i")
        return k
    def fe_zero_ind(self, fld, p):
        p = p.mod(fld.p)
        if self.asg: p = p.subst(self.asg).mod(fld.p)
        if p.is_const():
            return TRUE if p.cval() == 0 else FALSE
        for g in self.nz:                   # factors known to be non-zero
            while True:
                q = pdiv(p, g, fld.p) if g.syms() <= p.syms() else None
                if q is None: break
                p = q
        if p.is_const():
            return FALSE
        lead = max(p.t.items(), key=lambda mc: mc[0])
        q = p.scale(pow(lead[1], -1, fld.p)).mod(fld.p)
        # a single monomial is zero iff its radical is: x^n*y -> x*y
        if len(q.t) == 1:
            (m, c), = q.t.items()
            if len(m) > 1:
                # product zero iff some factor zero
                z = FALSE
                for s, _ in m:
                    z = self.or_(z, self.fe_zero_ind(fld, Poly.sym(s)))
                return z
            q = Poly({tuple((s, 1) for s, e in m): c})
        key = ("fz", fld.name, q)
        b = self.memo.get(key)
        if b is None:
            b = self.sym("fz", boolean=True)
            self.memo[key] = b; self.defs[b] = (key[0], fld, q)
        return self.nrm(Int(Poly.sym(b), 0, 1))
    # --- control
    def decide(self, cond):
        """cond: boolean Int -> python bool; forks when both are feasible"""
        cond = self.nrm(cond)
        if cond.is_const():
            return cond.c() != 0
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
        else:
            t = self.solver.feasible(cond, 1)
            f = self.solver.feasible(cond, 0) if t else True
            if not t and not f:
                raise PathInfeasible()
            if t and f:
                self.alts.append(self.trace + [0])
                v = 1
                self.stats["branches"] += 1
            else:
                v = 1 if t else 0
            self.pos += 1
            self.prefix.append(v)
        self.trace.append(v)
        self.assume(cond, v)
        return bool(v)
    def assume(self, cond, v=1):
        cond = self.nrm(cond)
        if cond.is_const():
            if cond.c() != v:
                raise PathInfeasible()
            return
        p = cond.p
        todo = [(p, v)]
        while todo:
            p, v = todo.pop()
            m = list(p.t.items())
            if len(m) == 1 and len(m[0][0]) == 1 and m[0][0][0][0] in self.bools and m[0][1] == 1:
                self._assign(m[0][0][0][0], v)
            elif len(m) == 2 and p.t.get(()) == 1 and all(len(k) <= 1 for k in p.t) and sum(p.t.values()) == 0 and list((p - 1).syms())[0] in self.bools:
                self._assign(list((p - 1).syms())[0], 1 - v)
            elif v == 1 and len(m) == 1 and m[0][1] == 1 and all(s in self.bools for s, _ in m[0][0]):
                for s, _ in m[0][0]:
                    self._assign(s, 1)
            elif v == 0 and self._all_or(p):
                for s in p.syms():
                    self._assign(s, 0)
            else:
                self.facts.append(("eq0", p - v))
    def _all_or(self, p):
        """p is the OR of its boolean symbols?"""
        s = sorted(p.syms())
        if not s or not set(s) <= self.bools or len(s) > 8:
            return False
        q = Poly.const(1)
        for x in s:
            q = q * (1 - Poly.sym(x))
        return (1 - q) == p
    def _assign(self, s, v):
        if s in self.asg:
            if self.asg[s] != v:
                raise PathInfeasible()
            return
        self.asg[s] = v
        d = self.defs.get(s)
        if d and d[0] == "fz":
            self.ffacts.append((d[1], d[2], v == 1))
        if d and d[0] == "z" and v == 1:
            self.facts.append(("eq0", d[1]))
        self.facts.append(("eq0", Poly.sym(s) - v))
    # --- memory
    def new_cell(self, v=UNDEF):
        self.cells.append(v)
        return len(self.cells) - 1

def _max(x, y):
    return y if x is None else x if y is None else max(x, y)
def _min(x, y):
    return y if x is None else x if y is None else min(x, y)
def _a(x, y):
    return None if x is None or y is None else x + y
def _s(x, y):
    return None if x is None or y is None else x - y

class Frame:
    __slots__ = ("fn", "cells")

class Machine:
    STEP_LIMIT = 3_000_000
    def __init__(self, prog, ctx, contracts=None, fields=None, models=None):
        from . import models as M
        self.prog = prog; self.ctx = ctx
        self.contracts = contracts or {}
        self.fields = fields or {}      # adt name -> Fld: treat as abstract field elements
        self.models = M
        self.depth = 0
        self.stack = []
        self.loop_hook = None
        self.call_hook = None
    # ---------- memory
    def load(self, cell, path):
        v = self.ctx.cells[cell]
        for e in path:
            v = self.proj(v, e)
        return v
    def proj(self, v, e):
        if isinstance(e, int):
            if isinstance(v, Agg):
                return v.f[e]
            if isinstance(v, (Ref, FnV)):
                return v            # Box/Unique/NonNull wrappers
            if isinstance(v, Nat):
                return v.proj(self, e) if hasattr(v, "proj") else self.bad(f"field of native {v.kind}")
            if isinstance(v, FE):
                raise Unsupported(f"limb access of abstract {v.fld.name} element")
            raise Unsupported(f"field {e} of {type(v).__name__}")
        if e[0] == "e":
            if isinstance(v, Arr):
                i = e[1]
                if isinstance(i, Int):
                    i = self.pick_index(i, len(v.items))
                if i >= len(v.items) or i < 0:
                    raise Unsupported("element out of range in memory model")
                return v.items[i]
            if isinstance(v, Nat) and hasattr(v, "elem"):
                return v.elem(self, e[1])
            raise Unsupported(f"index into {type(v).__name__}")
        raise Unsupported(f"projection {e}")
    def bad(self, m):
        raise Unsupported(m)
    def pick_index(self, i, n):
        i = self.ctx.nrm(i)
        if i.is_const():
            return i.c()
        for k in range(n):
            if self.ctx.decide(self.ctx.eq(i, K(k))):
                return k
        raise PathInfeasible()
    def store(self, cell, path, val):
        self.ctx.cells[cell] = self._upd(self.ctx.cells[cell], path, 0, val)
    def _upd(self, v, path, k, val):
        if k == len(path):
            return val
        e = path[k]
        if isinstance(e, int):
            if isinstance(v, Ref):
                return self._upd(v, path, k + 1, val)
            if v is UNDEF:
                f = [UNDEF] * (e + 1)
                v = Agg(f)
            if isinstance(v, Nat) and hasattr(v, "upd_field"):
                return v.upd_field(self, e, lambda o: self._upd(o, path, k + 1, val))
            if not isinstance(v, Agg):
                raise Unsupported(f"store into field of {type(v).__name__}")
            f = list(v.f)
            while len(f) <= e:
                f.append(UNDEF)
            f[e] = self._upd(f[e], path, k + 1, val)
            return Agg(f, v.v, v.ty)
        if e[0] == "e":
            if isinstance(v, Nat) and hasattr(v, "upd_elem"):
                return v.upd_elem(self, e[1], lambda o: self._upd(o, path, k + 1, val))
            if not isinstance(v, Arr):
                raise Unsupported(f"store into element of {type(v).__name__}")
            i = e[1]
            if isinstance(i, Int):
                i = self.pick_index(i, len(v.items))
            it = list(v.items)
            it[i] = self._upd(it[i], path, k + 1, val)
            return Arr(it)
        raise Unsupported(f"store projection {e}")
    def deref_val(self, r):
        if not isinstance(r, Ref):
            raise Unsupported(f"deref of {type(r).__name__}")
        if r.meta is not None:
            raise Unsupported("deref of slice as value")
        return self.load(r.cell, r.path)
    def slice_items(self, r):
        """concrete list of element values behind a slice reference"""
        base = self.load(r.cell, r.path)
        if not isinstance(base, Arr):
            raise Unsupported("slice over non-array")
        if r.meta is None:
            return base.items
        s, n = r.meta
        return base.items[s:s + n]
    # ---------- places
    def place(self, fr, pl):
        """-> (cell, path, meta)"""
        local, projs = pl
        cell, path, meta = fr.cells[local], (), None
        for pr in projs:
            k = pr[0]
            if k == "f":
                path = path + (pr[1],)
            elif k == "*":
                v = self.load(cell, path)
                if not isinstance(v, Ref):
                    if isinstance(v, Nat) and hasattr(v, "deref"):
                        v = v.deref(self)
                    else:
                        raise Unsupported(f"deref of {type(v).__name__}")
                cell, path, meta = v.cell, v.path, v.meta
            elif k == "i":
                i = self.ctx.nrm(self.ctx.cells[fr.cells[pr[1]]])
                if i.is_const():
                    i = i.c()
                if meta is not None:
                    i = self._off(meta[0], i)
                path = path + (("e", i),); meta = None
            elif k == "ci":
                off, _, fe = pr[1], pr[2], pr[3]
                if fe:
                    n = meta[1] if meta is not None else len(self.load(cell, path).items)
                    off = n - off
                if meta is not None:
                    off = self._off(meta[0], off)
                path = path + (("e", off),); meta = None
            elif k == "ss":
                n = meta[1] if meta is not None else len(self.load(cell, path).items)
                s = meta[0] if meta is not None else 0
                frm, to, fe = pr[1], pr[2], pr[3]
                end = n - to if fe else to
                meta = (s + frm, end - frm)
            elif k == "dc":
                pass
            elif k == "oc":
                pass
            else:
                raise Unsupported(f"place projection {k}")
        return cell, path, meta
    def _off(self, s, i):
        if isinstance(s, int) and s == 0:
            return i
        if isinstance(s, int) and isinstance(i, int):
            return s + i
        a = K(s) if isinstance(s, int) else s
        b = K(i) if isinstance(i, int) else i
        r = self.ctx.add(a, b)
        return r.c() if r.is_const() else r
    # ---------- constants
    def const(self, c):
        ty = self.prog.tys[c["ty"]]
        if "bad" in c:
            raise Unsupported("unevaluated constant " + c["bad"][:80])
        if "z" in c:
            return self.zst(c["ty"])
        ck = ("const", c["ty"], c["b"], json.dumps(c["p"]))
        return self.decode(bytes.fromhex(c["b"]), dict(map(tuple, c["p"])), c["ty"], 0)
    def zst(self, tid):
        ty = self.prog.tys[tid]
        k = ty["k"]
        if k == "fndef":
            return FnV(ty["inst"]) if ty["inst"] is not None else Agg([])
        if k == "tuple":
            return Agg([self.zst(t) for t in ty["f"]])
        if k == "adt":
            return Agg([self.zst(t) for _, t in ty["v"][0]["f"]] if ty["v"] else [], 0, tid)
        if k == "array":
            return Arr([self.zst(ty["e"])] * ty["n"])
        if k == "closure":
            return Agg([], 0, tid)
        return Agg([])
    def fld_of(self, ty):
        if ty["k"] == "adt" and ty["name"] in self.fields:
            return self.fields[ty["name"]]
        return None
    def decode(self, b, prov, tid, off):
        ty = self.prog.tys[tid]
        k = ty["k"]
        if k in ("bool", "char", "uint", "int"):
            n = ty["size"]
            return K(int.from_bytes(b[off:off + n], "little", signed=(k == "int")))
        if k == "float":
            return Agg([])
        if k in ("ref", "ptr", "fnptr"):
            if off not in prov:
                v = int.from_bytes(b[off:off + 8], "little")
                e = ty.get("e")
                # dangling pointer to empty slice/zst
                cell = self.ctx.new_cell(Arr([]) if e is not None and self.prog.tys[e]["k"] == "slice" else UNDEF)
                if e is not None and self.prog.tys[e]["k"] in ("slice", "str"):
                    ln = int.from_bytes(b[off + 8:off + 16], "little")
                    el = self.prog.tys[e].get("e")
                    if ln and el is not None:
                        self.ctx.cells[cell] = Arr([self.zst(el)] * ln)
                    return Ref(cell, (), (0, ln))
                return Ref(cell)
            a = self.prog.allocs[prov[off]]
            if "fn" in a:
                return FnV(a["fn"])
            if "bad" in a:
                return Nat("opaque", what="alloc")
            addr = int.from_bytes(b[off:off + 8], "little")
            ab = bytes.fromhex(a["b"]); ap = dict(map(tuple, a["p"]))
            et = self.prog.tys[ty["e"]]
            if et["k"] in ("slice", "str"):
                ln = int.from_bytes(b[off + 8:off + 16], "little")
                if et["k"] == "str":
                    cell = self.ctx.new_cell(Arr([K(x) for x in ab[addr:addr + ln]]))
                else:
                    es = self.sizeof(et["e"])
                    cell = self.ctx.new_cell(Arr([self.decode(ab, ap, et["e"], addr + i * es) for i in range(ln)]))
                return Ref(cell, (), (0, ln))
            if et["k"] == "dyn":
                return Nat("opaque", what="dyn")
            key = ("alloccell", prov[off], addr, ty["e"])
            cell = self.ctx.memo.get(key)
            if cell is None:
                cell = self.ctx.new_cell(UNDEF)
                self.ctx.memo[key] = cell
                self.ctx.cells[cell] = self.decode(ab, ap, ty["e"], addr)
            return Ref(cell)
        if k == "array":
            es = self.sizeof(ty["e"])
            return Arr([self.decode(b, prov, ty["e"], off + i * es) for i in range(ty["n"])])
        if k == "tuple":
            return Agg([self.decode(b, prov, t, off + o) for t, o in zip(ty["f"], ty["offs"])])
        if k == "closure":
            up = self.prog.tys[ty["up"]]
            return Agg([self.decode(b, prov, t, off + o) for t, o in zip(up["f"], ty["offs"])], 0, tid)
        if k == "fndef":
            return FnV(ty["inst"])
        if k == "adt":
            fld = self.fld_of(ty)
            if fld is not None and fld.base is not None:      # quadratic extension: c0 + c1*i
                cs = [int.from_bytes(b[off + o:off + o + 32], "little") * pow(fld.base.r, -1, fld.p) % fld.p for o in ty["offs"]]
                return FE(fld, Poly.const(cs[0]) + Poly.sym(self.ctx.imag()).scale(cs[1]))
            if fld is not None:
                n = int.from_bytes(b[off:off + 32], "little")
                return FE(fld, Poly.const(n * pow(fld.r, -1, fld.p) % fld.p))
            if ty["kind"] == "struct":
                return Agg([self.decode(b, prov, t, off + o) for (_, t), o in zip(ty["v"][0]["f"], ty["offs"])], 0, tid)
            if ty["kind"] == "union":
                return Agg([self.decode(b, prov, ty["v"][0]["f"][0][1], off)], 0, tid)
            var = ty["var"]
            if var is None:
                return UNDEF
            if "single" in var:
                vi = var["single"]
                return Agg([self.decode(b, prov, t, off + o) for (_, t), o in zip(ty["v"][vi]["f"], ty["offs"])], vi, tid)
            to = ty["offs"][var["tf"]]
            tag = int.from_bytes(b[off + to:off + to + var["tsz"]], "little")
            if var["enc"] == "direct":
                vi = [i for i, v in enumerate(ty["v"]) if v["d"] % (1 << (8 * var["tsz"])) == tag][0]
            else:
                e = var["enc"]
                if (off + to) in prov:
                    vi = e["untagged"]
                else:
                    rel = (tag - e["start"]) % (1 << (8 * var["tsz"]))
                    vi = e["lo"] + rel if rel <= e["hi"] - e["lo"] else e["untagged"]
            return Agg([self.decode(b, prov, t, off + o) for (_, t), o in zip(ty["v"][vi]["f"], var["vo"][vi])], vi, tid)
        raise Unsupported(f"constant of type {ty['s']}")
    def sizeof(self, tid):
        ty = self.prog.tys[tid]
        if "size" in ty:
            return ty["size"]
        if ty["k"] in ("fndef", "never"):
            return 0
        if ty["k"] == "fnptr":
            return 8
        raise Unsupported("size of " + ty["s"])
    # ---------- types of places
    def place_ty(self, fn, pl):
        t = fn["locals"][pl[0]]
        for pr in pl[1]:
            ty = self.prog.tys[t]
            if pr[0] == "f":
                t = pr[2]
            elif pr[0] == "*":
                t = ty["e"] if "e" in ty else (ty["args"][0] if ty.get("args") else None)
            elif pr[0] in ("i", "ci"):
                t = ty["e"]
            elif pr[0] == "ss":
                t = t
        return t
    def op_ty(self, fn, op):
        if op[0] == "k":
            return op[1]["ty"]
        if op[0] == "rc":
            return None
        return self.place_ty(fn, op[1])
    # ---------- operands / rvalues
    def operand(self, fr, op):
        k = op[0]
        if k in ("c", "m"):
            cell, path, meta = self.place(fr, op[1])
            return self.load(cell, path)
        if k == "k":
            return self.const(op[1])
        if k == "rc":
            return FALSE
        raise Unsupported("operand")
    def bits(self, tid):
        ty = self.prog.tys[tid]
        k = ty["k"]
        if k in ("uint", "int"):
            return ty["size"] * 8, k == "int"
        if k == "bool":
            return 1, False
        if k == "char":
            return 32, False
        raise Unsupported(f"integer op on {ty['s']}")
    def binop(self, op, a, b, ta, tb=None):
        ctx = self.ctx
        if isinstance(a, (Ref, FnV)) or isinstance(b, (Ref, FnV)):
            if op in ("Eq", "Ne") and isinstance(a, Ref) and isinstance(b, Ref):
                same = (a.cell, a.path, a.meta) == (b.cell, b.path, b.meta)
                return K(same if op == "Eq" else not same)
            raise Unsupported("pointer arithmetic")
        if not isinstance(a, Int) or not isinstance(b, Int):
            if isinstance(a, Agg) and not a.f:
                return K(op == "Eq")
            raise Unsupported(f"binop on {type(a).__name__},{type(b).__name__}")
        w, sg = self.bits(ta)
        op = op.replace("Unchecked", "")
        if op == "Add": return ctx.wrap(ctx.add(a, b), w, sg)
        if op == "Sub": return ctx.wrap(ctx.sub(a, b), w, sg)
        if op == "Mul": return ctx.wrap(ctx.mul(a, b), w, sg)
        if op in ("BitAnd", "BitOr", "BitXor"):
            if sg:
                if a.is_const() and b.is_const():
                    x, y = a.c(), b.c()
                    return K(x & y if op == "BitAnd" else x | y if op == "BitOr" else x ^ y)
                raise Unsupported("signed bitop")
            return ctx.bitop(op[3:], a, b, w)
        if op in ("Shl", "Shr"):
            b = ctx.nrm(b)
            if not b.is_const():
                # power-of-two case split on a bounded shift amount
                if b.lo is None or b.hi is None or b.hi - b.lo > 128:
                    raise Unsupported("symbolic shift")
                for kx in range(b.lo, b.hi + 1):
                    if ctx.decide(ctx.eq(b, K(kx))):
                        b = K(kx); break
            s = b.c() % w
            if op == "Shl":
                return ctx.wrap(ctx.scale(a, 1 << s), w, sg)
            return ctx.floordiv(a, 1 << s)
        if op == "Eq": return ctx.eq(a, b)
        if op == "Ne": return ctx.not_(ctx.eq(a, b))
        if op == "Lt": return ctx.lt(a, b)
        if op == "Le": return ctx.le(a, b)
        if op == "Gt": return ctx.lt(b, a)
        if op == "Ge": return ctx.le(b, a)
        if op in ("Div", "Rem"):
            b = ctx.nrm(b)
            if not b.is_const() or (sg and (a.lo is None or a.lo < 0)):
                if a.is_const() and b.is_const():
                    x, y = a.c(), b.c()
                    q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                    return K(q if op == "Div" else x - q * y)
                raise Unsupported("division by symbolic / signed")
            d = b.c()
            if d == 0: raise Panic("div0")
            return ctx.floordiv(a, d) if op == "Div" else ctx.mod(a, d)
        if op == "Cmp":
            lt = ctx.lt(a, b)
            if ctx.decide(lt): return self.ordering(-1)
            if ctx.decide(ctx.eq(a, b)): return self.ordering(0)
            return self.ordering(1)
        raise Unsupported(f"binop {op}")
    def ordering(self, c):
        return Agg([], c + 1)      # Less=-1 -> variant 0
    def checked(self, op, a, b, ta):
        ctx = self.ctx
        w, sg = self.bits(ta)
        raw = {"Add": ctx.add, "Sub": ctx.sub, "Mul": ctx.mul}.get(op)
        if raw is None:
            # shifts
            return Agg([self.binop(op, a, b, ta), FALSE])
        r = raw(a, b)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        ov = ctx.or_(ctx.neg_ind(ctx.sub(r, K(lo))), ctx.neg_ind(ctx.sub(K(hi), r)))
        ov = ctx.nrm(ov)
        if ov.is_const() and ov.c() == 0:
            return Agg([r, FALSE])
        if ctx.decide(ov):
            return Agg([ctx.wrap(r, w, sg), TRUE])
        r2 = ctx.mk(r.p, max(lo, r.lo) if r.lo is not None else lo, min(hi, r.hi) if r.hi is not None else hi)
        return Agg([r2, FALSE])
    def rvalue(self, fr, rv, dst_ty):
        fn = fr.fn
        k = rv[0]
        if k == "use":
            return self.operand(fr, rv[1])
        if k in ("ref", "addr"):
            cell, path, meta = self.place(fr, rv[1])
            return Ref(cell, path, meta)
        if k == "bin":
            a = self.operand(fr, rv[2]); b = self.operand(fr, rv[3])
            if rv[1] == "Offset":
                raise Unsupported("pointer offset")
            return self.binop(rv[1], a, b, self.op_ty(fn, rv[2]))
        if k == "cbin":
            a = self.operand(fr, rv[2]); b = self.operand(fr, rv[3])
            return self.checked(rv[1], a, b, self.op_ty(fn, rv[2]))
        if k == "un":
            a = self.operand(fr, rv[2])
            if rv[1] == "PtrMetadata":
                if isinstance(a, Ref) and a.meta is not None:
                    n = a.meta[1]
                    return K(n) if isinstance(n, int) else n
                return UNIT
            w, sg = self.bits(self.op_ty(fn, rv[2]))
            if rv[1] == "Not":
                if sg: return self.ctx.sub(K(-1), a)
                return self.ctx.sub(K((1 << w) - 1), a)
            return self.ctx.wrap(self.ctx.sub(K(0), a), w, sg)
        if k == "len":
            cell, path, meta = self.place(fr, rv[1])
            if meta is not None:
                return K(meta[1]) if isinstance(meta[1], int) else meta[1]
            return K(len(self.load(cell, path).items))
        if k == "discr":
            cell, path, meta = self.place(fr, rv[1])
            v = self.load(cell, path)
            if isinstance(v, Nat) and hasattr(v, "discr"):
                return v.discr(self)
            if not isinstance(v, Agg):
                raise Unsupported(f"discriminant of {type(v).__name__}")
            ty = self.prog.tys[self.place_ty(fn, rv[1])]
            if ty["k"] == "adt" and ty["kind"] == "enum":
                d = ty["v"][v.v]["d"]
                dt = self.prog.tys[dst_ty] if dst_ty is not None else None
                if dt and dt["k"] == "int" and d >= 1 << (dt["size"] * 8 - 1):
                    d -= 1 << (dt["size"] * 8) if d < 1 << (dt["size"] * 8) else 1 << 128
                return K(d)
            return K(0)
        if k == "cast":
            v = self.operand(fr, rv[2])
            ck = rv[1]
            if ck == "IntToInt":
                if isinstance(v, Agg):      # fieldless enum
                    ty = self.prog.tys[self.op_ty(fn, rv[2])]
                    v = K(ty["v"][v.v]["d"])
                w, sg = self.bits(rv[3])
                return self.ctx.wrap(v, w, sg)
            if "Unsize" in ck:
                if isinstance(v, Ref) and v.meta is None:
                    st = self.prog.tys[self.op_ty(fn, rv[2])]
                    et = self.prog.tys[st["e"]] if "e" in st else None
                    if et and et["k"] == "array":
                        return Ref(v.cell, v.path, (0, et["n"]))
                    if st["k"] == "adt":   # Box<[T;N]> -> Box<[T]>
                        base = self.load(v.cell, v.path)
                        if isinstance(base, Arr):
                            return Ref(v.cell, v.path, (0, len(base.items)))
                return v
            if ck in ("PtrToPtr", "Subtype") or "MutToConst" in ck:
                return v
            if ck in ("Transmute", "BoxDerefTransmute"):
                return self.transmute(v, self.op_ty(fn, rv[2]), rv[3])
            if "ReifyFnPointer" in ck or "UnsafeFnPointer" in ck:
                return v
            if "ClosureFnPointer" in ck:
                ty = self.prog.tys[self.op_ty(fn, rv[2])]
                return FnV(ty["once"])
            raise Unsupported(f"cast {ck}")
        if k == "agg":
            kk = rv[1]
            ops = [self.operand(fr, o) for o in rv[2]]
            if kk[0] == "array": return Arr(ops)
            if kk[0] == "tuple": return Agg(ops)
            if kk[0] == "adt":
                if kk[3] is not None:
                    return Agg(ops, 0, kk[1])
                return Agg(ops, kk[2], kk[1])
            if kk[0] == "closure": return Agg(ops, 0, kk[1])
            if kk[0] == "rawptr":
                r = ops[0]
                if isinstance(ops[1], Int) and isinstance(r, Ref):
                    n = ops[1].c() if ops[1].is_const() else ops[1]
                    if r.path and isinstance(r.path[-1], tuple) and r.meta is None:
                        return Ref(r.cell, r.path[:-1], (r.path[-1][1], n))
                    return Ref(r.cell, r.path, (0, n))
                return r
            raise Unsupported("aggregate")
        if k == "rep":
            v = self.operand(fr, rv[1])
            return Arr([v] * rv[2])
        raise Unsupported(f"rvalue {k}")
    def transmute(self, v, src, dst):
        s, d = self.prog.tys[src], self.prog.tys[dst]
        if isinstance(v, (Ref, FnV)):
            return v
        if s["k"] in ("uint", "int", "char") and d["k"] in ("uint", "int", "char", "bool"):
            w, sg = self.bits(dst)
            return self.ctx.wrap(v, w, sg)
        if s["k"] == "array" and d["k"] == "uint" and self.prog.tys[s["e"]]["k"] == "uint" and self.prog.tys[s["e"]]["size"] == 1:
            return self.from_le(v.items)
        if d["k"] == "array" and s["k"] == "uint" and self.prog.tys[d["e"]]["size"] == 1:
            return Arr(self.to_le(v, d["n"]))
        if src == dst or (s["k"] == d["k"] == "array"):
            return v
        if d["k"] == "adt" and s["k"] != "adt" and len(d["v"]) == 1 and len(d["v"][0]["f"]) == 1:
            return Agg([self.transmute(v, src, d["v"][0]["f"][0][1])], 0, dst)
        if s["k"] == "adt" and len(s["v"]) == 1 and len(s["v"][0]["f"]) == 1 and isinstance(v, Agg):
            return self.transmute(v.f[0], s["v"][0]["f"][0][1], dst)
        if d["k"] == "adt" and d["kind"] == "enum" and isinstance(v, Int) and v.is_const():
            return self.decode(v.c().to_bytes(16, "little"), {}, dst, 0)
        raise Unsupported(f"transmute {s['s']} -> {d['s']}")
    def from_le(self, items):
        r = K(0)
        for i, b in enumerate(items):
            r = self.ctx.add(r, self.ctx.scale(b, 1 << (8 * i)))
        return self.ctx.mk(r.p, 0, (1 << (8 * len(items))) - 1)
    def to_le(self, x, n):
        """little-endian bytes of x"""
        out = []
        for i in range(n):
            q = self.ctx.floordiv(x, 1 << (8 * i))
            q2 = self.ctx.floordiv(x, 1 << (8 * (i + 1))) if i + 1 < n else K(0)
            out.append(self.ctx.mk(q.p - q2.p.scale(256), 0, 255))
        return out
    # ---------- calls
    def ctor(self, fn, args):
        """a tuple-struct or enum-variant constructor used as a function"""
        d = re.sub(r"::<.*>$", "", fn["def"])
        pre, _, last = d.rpartition("::")
        pre = re.sub(r"::<.*>$", "", pre)
        for t in self.prog.tys.values():
            if t.get("k") != "adt" or not t.get("v"): continue
            if t["name"] == d and len(t["v"]) == 1 and len(t["v"][0]["f"]) == len(args): return Agg(list(args), 0)
            if t["name"] == pre:
                for i, v in enumerate(t["v"]):
                    if v["name"] == last and len(v["f"]) == len(args): return Agg(list(args), i)
    def call(self, fid, args, site=None, via_fn_trait=False):
        fn = self.prog.fns[fid]
        name = fn["name"]
        c = self.contracts.get(name)
        if c is None:
            c = self.contracts.get(fn["def"])
        if c is not None:
            r = c(self, args, fn)
            if r is not NotImplemented:
                self.ctx.used.add(name)
                return r
        m = self.models.lookup(self, fn)
        if m is not None:
            r = m(self, args, fn)
            if r is not NotImplemented:
                return r
        if "nobody" in fn:
            r = self.ctor(fn, args)
            if r is not None: return r
            raise Unsupported(f"no body: {name}")
        return self.exec(fn, args, via_fn_trait)
    def exec(self, fn, args, via_fn_trait=False):
        ctx = self.ctx
        self.depth += 1
        if self.depth > 300:
            raise Unsupported("call depth")
        if fn["src"].startswith("/repo") or "/repo/" in fn["src"]:
            ctx.inlined.add(fn["name"])
        argc = fn["argc"]
        ity = self.prog.tys[fn["ity"]]
        if fn["spread"] is not None:
            sp = fn["spread"]
            if len(args) != argc:
                args = list(args[:sp - 1]) + [Agg(list(args[sp - 1:]))]
        elif ity["k"] == "closure" and via_fn_trait and len(args) == 2 and isinstance(args[1], Agg):
            args = [args[0]] + list(args[1].f)
        if len(args) != argc:
            if len(args) == argc - 1 and ity["k"] == "closure":
                args = [Agg([])] + list(args)
            else:
                raise Unsupported(f"arity mismatch calling {fn['name']}: {len(args)} vs {argc}")
        fr = Frame()
        fr.fn = fn
        fr.cells = [ctx.new_cell() for _ in fn["locals"]]
        for i, a in enumerate(args):
            ctx.cells[fr.cells[i + 1]] = a
        bbs = fn["bbs"]
        bb = 0
        self.stack.append(fn["name"])
        while True:
            ctx.stats["steps"] += 1
            if ctx.stats["steps"] > self.STEP_LIMIT:
                raise Unsupported("step limit")
            if self.loop_hook is not None:
                nb = self.loop_hook(self, fr, bb)
                if nb is not None:
                    bb = nb
            stmts, term, line = bbs[bb]
            for st in stmts:
                if st[0] == "=":
                    pl = st[1]
                    v = self.rvalue(fr, st[2], self.place_ty(fn, pl) if st[2][0] == "discr" else None)
                    if not pl[1]:
                        ctx.cells[fr.cells[pl[0]]] = v
                    else:
                        cell, path, meta = self.place(fr, pl)
                        self.store(cell, path, v)
                elif st[0] == "sd":
                    cell, path, meta = self.place(fr, st[1])
                    o = self.load(cell, path)
                    self.store(cell, path, Agg(list(o.f) if isinstance(o, Agg) else [], st[2]))
                elif st[0] == "assume":
                    pass
                else:
                    raise Unsupported(f"statement {st[0]}")
            k = term[0]
            if k == "goto":
                bb = term[1]
            elif k == "ret":
                self.depth -= 1
                self.stack.pop()
                r = ctx.cells[fr.cells[0]]
                return UNIT if r is UNDEF else r
            elif k == "sw":
                v = self.operand(fr, term[1])
                if not isinstance(v, Int):
                    raise Unsupported(f"switch on {type(v).__name__}")
                v = ctx.nrm(v)
                nxt = None
                if v.is_const():
                    c = v.c()
                    if c < 0:
                        w, _ = self.bits(self.op_ty(fn, term[1]))
                        c += 1 << w
                    for val, t in term[2]:
                        if val == c:
                            nxt = t; break
                    else:
                        nxt = term[3]
                else:
                    for val, t in term[2]:
                        if ctx.decide(ctx.eq(v, K(val))):
                            nxt = t; break
                    else:
                        nxt = term[3]
                bb = nxt
            elif k == "assert":
                c = self.operand(fr, term[1])
                exp = 1 if term[2] else 0
                ok = c if exp else ctx.not_(c)
                if not ctx.decide(ok):
                    raise Panic(f"{term[3]} at {fn['src']} line {line}")
                bb = term[4]
            elif k == "drop":
                bb = term[2]
            elif k == "call":
                callee, fop, aops, dest, target = term[1:]
                args2 = [self.operand(fr, a) for a in aops]
                via = False
                if callee is None:
                    f = self.operand(fr, fop)
                    if not isinstance(f, FnV):
                        raise Unsupported("indirect call")
                    callee = f.inst
                else:
                    ft = self.prog.tys[fop[1]["ty"]] if fop[0] == "k" else None
                    via = bool(ft and re.search(r"ops::(function::)?Fn(Once|Mut)?::call", ft["name"]))
                cf = self.prog.fns[callee]
                if cf["kind"] == "virtual":
                    raise Unsupported("virtual call " + cf["name"])
                r = self.call(callee, args2, line, via)
                if target is None:
                    raise Panic(f"diverging call {cf['name']} at {fn['src']} line {line}")
                if not dest[1]:
                    ctx.cells[fr.cells[dest[0]]] = r
                else:
                    cell, path, meta = self.place(fr, dest)
                    self.store(cell, path, r)
                bb = target
            elif k == "unreachable":
                raise PathInfeasible()
            else:
                raise Unsupported(f"terminator {k}")

def explore(run, max_paths=5000, time_limit=None):
    """run(ctx) is executed once per feasible path; yields (ctx, outcome) with outcome
    ('ok', value) | ('panic', msg)"""
    import time
    t0 = time.time()
    work = [[]]
    n = 0
    while work:
        pre = work.pop()
        ctx = Ctx(pre)
        try:
            v = run(ctx)
            out = ("ok", v)
        except Panic as e:
            out = ("panic", e.msg)
            if ctx.solver.unsat_path(): out = None
        except PathDone:
            out = ("done", None)
        except PathInfeasible:
            out = None
        work.extend(ctx.alts)
        n += 1
        if n > max_paths:
            raise Unsupported("too many paths")
        if time_limit and time.time() - t0 > time_limit:
            raise Unsupported("exploration time limit")
        if out is not None:
            yield ctx, out
