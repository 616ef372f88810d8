"""Assumed contracts of the finite maps and sets (hashbrown::HashMap/HashSet, alloc BTreeMap/BTreeSet): keyed by equality of
keys.  A B-tree iterates in the order given by ctx.env["rank"] (a function of the key), constants in numerical order; with
symbolic keys and no rank, in insertion order: properties proved under one order are re-proved under another."""
from .engine import *
from .models import model, val, some, NONE, deep_eq, K
class Map(Nat):
    def __init__(self, ent=(), kind="map"): self.kind = kind; self.ent = tuple(ent)
    def copy(self, **kw): return Map(**{"ent": self.ent, "kind": self.kind, **kw})
class Slot(Nat):
    """a map value that has been borrowed mutably: it lives in a cell of its own"""
    def __init__(self, ref): self.kind = "slot"; self.ref = ref
    def copy(self, **kw): return self
def rd(m, v): return m.load(v.ref.cell, v.ref.path) if isinstance(v, Slot) else v
def slot(m, r, mp, i):
    k, v = mp.ent[i]
    if not isinstance(v, Slot):
        v = Slot(Ref(m.ctx.new_cell(v))); ent = list(mp.ent); ent[i] = (k, v); m.store(r.cell, r.path, mp.copy(ent=ent))
    return v.ref
def mref(m, r):
    while isinstance(m.load(r.cell, r.path), Ref): r = m.load(r.cell, r.path)
    return r
COL = r"(HashMap|BTreeMap|HashSet|BTreeSet)"
def rank(m, k):
    f = m.ctx.env.get("rank")
    if f is not None: return f(k)
    if isinstance(k, FE): return k.p.cval() % k.fld.p if k.p.is_const() else None
    if isinstance(k, Int): return k.c() if k.is_const() else None
    if isinstance(k, Agg) or isinstance(k, Arr):
        l = [rank(m, x) for x in (k.f if isinstance(k, Agg) else k.items)]
        return None if any(x is None for x in l) else tuple([k.v] + l if isinstance(k, Agg) else l)
    return None
def find(m, mp, k):
    for i, e in enumerate(mp.ent):
        if m.ctx.decide(deep_eq(m, e[0], k)): return i
    return None
def put(m, mp, k, v):
    ent = list(mp.ent); r = rank(m, k)
    if r is None or any(rank(m, e[0]) is None for e in ent): pos = len(ent)
    else: pos = sum(1 for e in ent if rank(m, e[0]) < r)
    ent.insert(pos, (k, v)); return mp.copy(ent=ent)
def mapval(m, x):
    x = val(m, x)
    if not isinstance(x, Map): raise Unsupported("not a modelled collection")
    if any(isinstance(v, Slot) for _, v in x.ent): x = x.copy(ent=[(k, rd(m, v)) for k, v in x.ent])
    return x
@model(COL + r"(::)?<[^>]*>(::| as std::default::Default>::)(new|default|with_capacity|with_hasher)$")
def _(m, a, fn): return Map()
@model(COL + r"::<[^>]*>::insert$")
def _(m, a, fn):
    r = a[0]
    while isinstance(m.load(r.cell, r.path), Ref): r = m.load(r.cell, r.path)
    mp = mapval(m, r); i = find(m, mp, a[1]); ismap = len(a) > 2
    if i is None:
        m.store(r.cell, r.path, put(m, mp, a[1], a[2] if ismap else UNIT))
        return NONE if ismap else TRUE
    if not ismap: return FALSE
    ent = list(mp.ent); old = ent[i][1]; ent[i] = (ent[i][0], a[2]); m.store(r.cell, r.path, mp.copy(ent=ent)); return some(old)
@model(COL + r"::<[^>]*>::remove$")
def _(m, a, fn):
    r = a[0]
    while isinstance(m.load(r.cell, r.path), Ref): r = m.load(r.cell, r.path)
    mp = mapval(m, r); i = find(m, mp, val(m, a[1])); ismap = "Map" in fn["def"]
    if i is None: return NONE if ismap else FALSE
    ent = list(mp.ent); old = ent.pop(i)[1]; m.store(r.cell, r.path, mp.copy(ent=ent)); return some(old) if ismap else TRUE
@model(COL + r"::<[^>]*>::(contains|contains_key)$")
def _(m, a, fn): return TRUE if find(m, mapval(m, a[0]), val(m, a[1])) is not None else FALSE
@model(COL + r"::<[^>]*>::(len|is_empty)$")
def _(m, a, fn):
    n = len(mapval(m, a[0]).ent)
    return K(n) if fn["def"].endswith("len") else (FALSE if n else TRUE)
@model(COL + r"::<[^>]*>::get$")
def _(m, a, fn):
    mp = mapval(m, a[0]); i = find(m, mp, val(m, a[1]))
    return NONE if i is None else some(Ref(m.ctx.new_cell(mp.ent[i][1])))
def it(m, mp, fn, refs):
    ismap = "Map" in fn["def"]
    c = lambda x: Ref(m.ctx.new_cell(x)) if refs else x
    l = [Agg([c(k), c(v)]) if ismap else c(k) for k, v in mp.ent]
    return Nat("into", items=l, i=0, n=len(l))
@model(COL + r"::<[^>]*>::(iter|keys|values)$|^<&'?[a-z ]*[a-z:]*" + COL + r"<[^>]*> as std::iter::IntoIterator>::into_iter$")
def _(m, a, fn):
    if fn["def"].endswith(("keys", "values")):
        j = 0 if fn["def"].endswith("keys") else 1
        l = [Ref(m.ctx.new_cell(e[j])) for e in mapval(m, a[0]).ent]
        return Nat("into", items=l, i=0, n=len(l))
    return it(m, mapval(m, a[0]), fn, True)
@model(r"^<[a-z_:]*" + COL + r"<[^>]*> as std::iter::IntoIterator>::into_iter$")
def _(m, a, fn): return it(m, mapval(m, a[0]), fn, False)
@model(COL + r"<[^>]*> as std::iter::FromIterator<[^>]*>>::from_iter$")
def _(m, a, fn):
    from . import iters
    if "locals" not in fn: return NotImplemented
    r = Ref(m.ctx.new_cell(a[0])); mp = Map(); ismap = "Map" in fn["def"]
    for x in iters.items(m, r, fn["locals"][1]):
        k, v = (x.f[0], x.f[1]) if ismap else (x, UNIT)
        i = find(m, mp, k)
        if i is None: mp = put(m, mp, k, v)
        elif ismap: ent = list(mp.ent); ent[i] = (ent[i][0], v); mp = mp.copy(ent=ent)
    return mp
@model(r"^<[a-z_:]*" + COL + r"<[^>]*> as std::clone::Clone>::clone$")
def _(m, a, fn): return mapval(m, a[0])
@model(r"^<[a-z_:]*" + COL + r"<[^>]*> as std::cmp::PartialEq>::eq$")
def _(m, a, fn):
    x, y = mapval(m, a[0]), mapval(m, a[1])
    if len(x.ent) != len(y.ent): return FALSE
    r = TRUE
    for k, v in x.ent:
        i = find(m, y, k)
        if i is None: return FALSE
        r = m.ctx.and_(r, deep_eq(m, v, y.ent[i][1]))
    return r

@model(COL + r"::<[^>]*>::get_mut$")
def _(m, a, fn):
    r = mref(m, a[0]); mapval(m, r); mp = m.load(r.cell, r.path); i = find(m, mp, val(m, a[1]))
    return NONE if i is None else some(slot(m, r, mp, i))
@model(COL + r"::<[^>]*>::entry$")
def _(m, a, fn):
    r = mref(m, a[0]); mapval(m, r); return Nat("entry", r=r, k=a[1])
@model(r"(btree_map|hash_map)::Entry::<.*>::(or_insert|or_insert_with|or_default|and_modify)$")
def _(m, a, fn):
    e = a[0]
    if not isinstance(e, Nat) or e.kind != "entry": return NotImplemented
    r = e.r; mp = m.load(r.cell, r.path); i = find(m, mp, e.k); nm = fn["def"].rsplit("::", 1)[-1]
    from .models import call_fn
    if nm == "or_default": return NotImplemented
    if nm == "and_modify":
        if i is not None: call_fn(m, a[1], [slot(m, r, mp, i)], fn["locals"][2])
        return e
    if i is None:
        v = a[1] if nm == "or_insert" else call_fn(m, a[1], [], fn["locals"][2])
        mp = put(m, m.load(r.cell, r.path), e.k, v); m.store(r.cell, r.path, mp); i = find(m, mp, e.k)
    return slot(m, r, mp, i)
@model(r"slice::<impl \[T\]>::sort(_unstable)?$")
def _(m, a, fn):
    from .models import as_slice
    s = as_slice(m, a[0]); v = m.load(s.cell, s.path)
    if not isinstance(v, Arr): return NotImplemented
    lo, n = s.meta; l = v.items[lo:lo + n]; rk = [rank(m, x) for x in l]
    if any(x is None for x in rk): raise Unsupported("sort of unranked values")
    l = [x for _, x in sorted(zip(rk, l), key=lambda z: z[0])]
    m.store(s.cell, s.path, Arr(list(v.items[:lo]) + l + list(v.items[lo + n:])))
    return UNIT
