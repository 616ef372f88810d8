"""Symbolic sequences (Vec contents of symbolic length) and loop rules."""
from .engine import *
from .engine import Unsupported, Panic, PathInfeasible

class SymVec(Nat):
    """base[off .. off+blen) ++ app, with point updates on base and app.  base elements are unknown but fixed values
    produced by gen(ctx, idx) once per distinct index (indices compared with the path condition)."""
    def __init__(self, name, blen, gen, off=None, app=(), upd=(), known=None, sortkey=None, tag=None):
        self.kind = "symvec"; self.name = name; self.blen = blen; self.gen = gen
        self.off = off if off is not None else K(0)
        self.app = tuple(app); self.upd = tuple(upd)
        self.known = known if known is not None else []     # shared: [(absolute index, value)]
        self.sortkey = sortkey; self.tag = tag
    def cp(self, **kw):
        d = dict(name=self.name, blen=self.blen, gen=self.gen, off=self.off, app=self.app, upd=self.upd, known=self.known, sortkey=self.sortkey, tag=self.tag)
        d.update(kw)
        return SymVec(**d)
    copy = cp
    def seqlen(self, m):
        r = m.ctx.add(self.blen, K(len(self.app)))
        return r.c() if r.is_const() else r
    def _i(self, i):
        return K(i) if isinstance(i, int) else i
    def base_elem(self, ctx, ai):
        """value of the base at absolute index ai"""
        for j, v in self.known:
            if ctx.decide(ctx.eq(ai, j)):
                return v
        v = self.gen(ctx, ai)
        self.known.append((ai, v))
        return v
    def where(self, m, i):
        """('app', k) or ('base', abs idx)"""
        ctx = m.ctx
        i = ctx.nrm(self._i(i))
        for k in range(len(self.app)):
            if ctx.decide(ctx.eq(i, ctx.add(self.blen, K(k)))):
                return ("app", k)
        return ("base", ctx.add(i, self.off))
    def elem(self, m, i):
        if self.sortkey: raise Unsupported("indexing a sorted symbolic vector")
        k, a = self.where(m, i)
        if k == "app": return self.app[a]
        for j, v in reversed(self.upd):
            if m.ctx.decide(m.ctx.eq(a, j)):
                return v
        return self.base_elem(m.ctx, a)
    def upd_elem(self, m, i, f):
        if self.sortkey: raise Unsupported("update of a sorted symbolic vector")
        k, a = self.where(m, i)
        if k == "app":
            l = list(self.app); l[a] = f(l[a])
            return self.cp(app=l)
        old = None
        for j, v in reversed(self.upd):
            if m.ctx.decide(m.ctx.eq(a, j)):
                old = v; break
        if old is None: old = self.base_elem(m.ctx, a)
        return self.cp(upd=self.upd + ((a, f(old)),))
    def push(self, m, v):
        if self.sortkey: raise Unsupported("push to a sorted symbolic vector")
        return self.cp(app=self.app + (v,))
    def popv(self, m):
        """-> (new vec, value) ; caller has established non-emptiness"""
        if self.app: return self.cp(app=self.app[:-1]), self.app[-1]
        e = m.ctx.sub(self.blen, K(1))
        v = self.elem(m, e)
        return self.cp(blen=e), v
    def remove0(self, m):
        v = self.elem(m, K(0))
        if any(True for _ in self.upd): raise Unsupported("remove(0) after update")
        if self.app: raise Unsupported("remove(0) after push")
        return self.cp(off=m.ctx.add(self.off, K(1)), blen=m.ctx.sub(self.blen, K(1))), v

# ---------------------------------------------------------------- CFG / liveness
def succs(term):
    k = term[0]
    if k == "goto": return [term[1]]
    if k == "sw": return [t for _, t in term[2]] + [term[3]]
    if k == "assert": return [term[4]]
    if k == "drop": return [term[2]]
    if k == "call": return [term[5]] if term[5] is not None else []
    return []
def heads(fn):
    """loop heads (targets of back edges of a DFS)"""
    if "_heads" in fn: return fn["_heads"]
    color = {}; hs = set()
    st = [(0, iter(succs(fn["bbs"][0][1])))]; color[0] = 1
    while st:
        b, it = st[-1]
        for s in it:
            if s is None: continue
            if color.get(s, 0) == 0:
                color[s] = 1; st.append((s, iter(succs(fn["bbs"][s][1])))); break
            if color[s] == 1: hs.add(s)
        else:
            color[b] = 2; st.pop()
    fn["_heads"] = hs
    return hs
def _place_uses(pl, out):
    out.add(pl[0])
    for pr in pl[1]:
        if pr[0] == "i": out.add(pr[1])
def _walk(x, out):
    if isinstance(x, list):
        if len(x) == 2 and x[0] in ("c", "m") and isinstance(x[1], list) and len(x[1]) == 2 and isinstance(x[1][0], int):
            _place_uses(x[1], out); return
        if x and x[0] in ("ref", "addr", "len", "discr") and len(x) >= 2 and isinstance(x[1], list):
            _place_uses(x[1], out); return
        for y in x: _walk(y, out)
def live_at(fn, bb):
    """locals live on entry to block bb"""
    if "_live" not in fn:
        bbs = fn["bbs"]; n = len(bbs)
        use, deff = [], []
        for stmts, term, _ in bbs:
            u, d = set(), set()
            for s in stmts:
                t = set()
                if s[0] == "=":
                    _walk(s[2], t)
                    if s[1][1]: _place_uses(s[1], t)
                elif s[0] == "sd": _place_uses(s[1], t)
                u |= t - d
                if s[0] == "=" and not s[1][1]: d.add(s[1][0])
            t = set()
            if term[0] == "call":
                _walk(term[2], t); _walk(term[3], t)
                if term[4][1]: _place_uses(term[4], t)
            elif term[0] == "drop": pass
            elif term[0] == "ret": t.add(0)
            else: _walk(list(term), t)
            u |= t - d
            if term[0] == "call" and not term[4][1]: d.add(term[4][0])
            use.append(u); deff.append(d)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                o = set()
                for s in succs(bbs[b][1]):
                    if s is not None: o |= live[s]
                nl = use[b] | (o - deff[b])
                if nl != live[b]: live[b] = nl; ch = True
        fn["_live"] = live
    return fn["_live"][bb]
def snap(m, v, skip, seen=None):
    """structural snapshot of a value, following references except into cells of `skip`"""
    if isinstance(v, Int): return ("i", v.p.key())
    if isinstance(v, FE): return ("f", v.p.key())
    if isinstance(v, Agg): return ("a", v.v, tuple(snap(m, x, skip, seen) for x in v.f))
    if isinstance(v, Arr): return ("r", tuple(snap(m, x, skip, seen) for x in v.items))
    if isinstance(v, Ref):
        h = ("p", v.cell, repr(v.path), repr(v.meta))
        if v.cell in skip: return h
        seen = seen or ()
        if v.cell in seen: return h
        return h + (snap(m, m.ctx.cells[v.cell], skip, seen + (v.cell,)),)
    if isinstance(v, FnV): return ("fn", v.inst)
    if isinstance(v, SymVec):
        return ("sv", v.name, v.blen.p.key(), v.off.p.key(), tuple(snap(m, x, skip, seen) for x in v.app), tuple((i.p.key(), snap(m, x, skip, seen)) for i, x in v.upd), v.sortkey)
    if isinstance(v, Nat):
        return ("n", v.kind, tuple((k, snap(m, x, skip, seen) if isinstance(x, (Int, FE, Agg, Arr, Ref, Nat)) else repr(x)) for k, x in sorted(v.__dict__.items()) if not callable(x)))
    return ("u",)
def vsnap(m, v):
    return snap(m, v, set())
