"""Sparse multivariate integer polynomials.  Monomial: tuple of (sym, exp) sorted by sym; () is 1."""
from functools import lru_cache

def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1])); i += 1; j += 1
        elif x[0] < y[0]:
            out.append(x); i += 1
        else:
            out.append(y); j += 1
    out.extend(a[i:]); out.extend(b[j:])
    return tuple(out)

class Poly:
    __slots__ = ("t", "_k")
    def __init__(self, t=None):
        self.t = t if t is not None else {}
        self._k = None
    @staticmethod
    def const(c):
        return Poly({(): c} if c else {})
    @staticmethod
    def sym(s):
        return Poly({((s, 1),): 1})
    def key(self):
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k
    def __hash__(self):
        return hash(self.key())
    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)
    def cval(self):
        return self.t.get((), 0)
    def __add__(self, o):
        if isinstance(o, int):
            o = Poly.const(o)
        if len(o.t) > len(self.t):
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
        return Poly(t)
    __radd__ = __add__
    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})
    def __sub__(self, o):
        if isinstance(o, int):
            o = Poly.const(o)
        return self + (-o)
    def __rsub__(self, o):
        return (-self) + o
    def scale(self, k):
        if k == 0:
            return Poly()
        return Poly({m: c * k for m, c in self.t.items()})
    def __mul__(self, o):
        if isinstance(o, int):
            return self.scale(o)
        if o.is_const():
            return self.scale(o.cval())
        if self.is_const():
            return o.scale(self.cval())
        t = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = mono_mul(m, n)
                v = t.get(k, 0) + c * d
                if v:
                    t[k] = v
                else:
                    t.pop(k, None)
        return Poly(t)
    __rmul__ = __mul__
    def mod(self, p):
        return Poly({m: c % p for m, c in self.t.items() if c % p})
    def syms(self):
        s = set()
        for m in self.t:
            for x, _ in m:
                s.add(x)
        return s
    def idem(self, bools):
        """reduce b^n -> b for boolean symbols"""
        need = False
        for m in self.t:
            for s, e in m:
                if e > 1 and s in bools:
                    need = True
        if not need:
            return self
        t = {}
        for m, c in self.t.items():
            k = tuple((s, 1 if s in bools else e) for s, e in m)
            v = t.get(k, 0) + c
            if v:
                t[k] = v
            else:
                t.pop(k, None)
        return Poly(t)
    def subst(self, mp):
        """substitute symbols by Poly/int"""
        if not (self.syms() & mp.keys()):
            return self
        r = Poly()
        acc = {}
        for m, c in self.t.items():
            rest = []
            fac = None
            for s, e in m:
                if s in mp:
                    v = mp[s]
                    if isinstance(v, int):
                        v = Poly.const(v)
                    for _ in range(e):
                        fac = v if fac is None else fac * v
                else:
                    rest.append((s, e))
            base = tuple(rest)
            if fac is None:
                v = acc.get(base, 0) + c
                acc[base] = v
            else:
                for n, d in fac.t.items():
                    k = mono_mul(base, n)
                    acc[k] = acc.get(k, 0) + c * d
        return Poly({m: c for m, c in acc.items() if c})
    def eval(self, env):
        r = 0
        for m, c in self.t.items():
            for s, e in m:
                c *= env[s] ** e
            r += c
        return r
    def degree_in(self, s):
        return max([e for m in self.t for x, e in m if x == s] or [0])
    def show(self, names=None):
        if not self.t:
            return "0"
        out = []
        for m, c in list(sorted(self.t.items(), key=lambda x: (len(x[0]), x[0])))[:40]:
            ms = "*".join((names[s] if names else f"s{s}") + (f"^{e}" if e > 1 else "") for s, e in m)
            out.append(f"{c}" + ("*" + ms if ms else "") if (c != 1 or not ms) else ms)
        if len(self.t) > 40:
            out.append(f"... ({len(self.t)} terms)")
        return " + ".join(out)

def pdiv(a, b, p):
    """exact division of polynomials with coefficients modulo the prime p, or None"""
    syms = sorted(a.syms() | b.syms())
    vec = lambda m: tuple(dict(m).get(s, 0) for s in syms)
    lm = max(b.t, key=vec); lc = pow(b.t[lm], -1, p); lv = dict(lm)
    r = dict(a.t); q = {}
    while r:
        m = max(r, key=vec); mv = dict(m)
        if any(mv.get(s, 0) < e for s, e in lv.items()): return None
        qm = tuple((s, e - lv.get(s, 0)) for s, e in m if e - lv.get(s, 0))
        c = r[m] * lc % p; q[qm] = c
        for n, x in b.t.items():
            k = mono_mul(qm, n); v = (r.get(k, 0) - c * x) % p
            if v: r[k] = v
            else: r.pop(k, None)
    return Poly(q)
