"""Assumed contracts of the std iterator adaptors and consumers (element-wise, in order, lazy)."""
import re
from .engine import *
from .models import model, TABLE, val, some, NONE, cint, call_fn, call_fn_mut, iter_get, as_slice, slen, K
from . import models as MD
END = object()

def sub(ref, i):
    return Ref(ref.cell, ref.path + (i,))
def fidx(m, ty, name):
    for i, (n, t) in enumerate(ty["v"][0]["f"]):
        if n == name: return i, t
    raise Unsupported(f"iterator field {name} of {ty['s']}")
def sf(m, ref, ty, name):
    i, t = fidx(m, ty, name)
    return Ref(ref.cell, ref.path + (i,)), t
def unopt(v):
    return END if v.v == 0 else v.f[0]
def norm(m, ref, tid):
    ty = m.prog.tys[tid]
    while True:
        v = m.load(ref.cell, ref.path)
        if isinstance(v, Ref) and ty["k"] in ("ref", "ptr"):
            ref = v; tid = ty["e"]; ty = m.prog.tys[tid]
        elif isinstance(v, Ref) and ty["k"] == "adt" and ty["name"].endswith("Box"):
            ref = v; tid = ty["args"][0]; ty = m.prog.tys[tid]
        else: return ref, tid, ty, v
def nat_next(m, ref, v):
    if hasattr(v, "next"): return unopt(v.next(m, ref))
    n = cint(m, v.n)
    if v.i >= n: return END
    m.store(ref.cell, ref.path, v.copy(i=v.i + 1))
    return iter_get(m, v, v.i)
def nat_back(m, ref, v):
    n = cint(m, v.n)
    if v.i >= n: return END
    m.store(ref.cell, ref.path, v.copy(n=n - 1))
    return iter_get(m, v, n - 1)
def byname(m, ty, meth, ref):
    f = m.prog.find(f"<{ty['s']} as std::iter::{meth}")
    if f is None: raise Unsupported(f"iterator {ty['s'][:80]}::{meth}")
    return unopt(m.call(f["id"], [ref]))
def py_next(m, ref, tid):
    ref, tid, ty, v = norm(m, ref, tid)
    if isinstance(v, Nat): return nat_next(m, ref, v)
    c = m.ctx
    nm = ty["name"].rsplit("::", 1)[-1] if ty["k"] == "adt" else ""
    if nm == "Range":
        if not c.decide(c.lt(v.f[0], v.f[1])): return END
        m.store(ref.cell, ref.path, Agg([c.mk(v.f[0].p + 1, None if v.f[0].lo is None else v.f[0].lo + 1, v.f[1].hi), v.f[1]], 0, v.ty))
        return v.f[0]
    if nm == "RangeInclusive":
        if c.decide(c.nrm(v.f[2])) or not c.decide(c.le(v.f[0], v.f[1])): return END
        if c.decide(c.eq(v.f[0], v.f[1])): m.store(ref.cell, ref.path, Agg([v.f[0], v.f[1], TRUE], 0, v.ty))
        else: m.store(ref.cell, ref.path, Agg([c.add(v.f[0], K(1)), v.f[1], v.f[2]], 0, v.ty))
        return v.f[0]
    if nm == "RangeFrom":
        m.store(ref.cell, ref.path, Agg([c.add(v.f[0], K(1))], 0, v.ty))
        return v.f[0]
    if nm == "Rev":
        r, t = sf(m, ref, ty, "iter"); return py_back(m, r, t)
    if nm == "Map":
        r, t = sf(m, ref, ty, "iter")
        x = py_next(m, r, t)
        if x is END: return END
        fr, ft = sf(m, ref, ty, "f")
        return call_fn_mut(m, fr, [x], ft)
    if nm == "Filter":
        r, t = sf(m, ref, ty, "iter"); fr, ft = sf(m, ref, ty, "predicate")
        while True:
            x = py_next(m, r, t)
            if x is END: return END
            b = call_fn_mut(m, fr, [Ref(c.new_cell(x))], ft)
            if c.decide(b): return x
    if nm == "FilterMap":
        r, t = sf(m, ref, ty, "iter"); fr, ft = sf(m, ref, ty, "f")
        while True:
            x = py_next(m, r, t)
            if x is END: return END
            b = call_fn_mut(m, fr, [x], ft)
            if b.v == 1: return b.f[0]
    if nm == "Enumerate":
        r, t = sf(m, ref, ty, "iter"); cr, _ = sf(m, ref, ty, "count")
        x = py_next(m, r, t)
        if x is END: return END
        i = m.load(cr.cell, cr.path)
        m.store(cr.cell, cr.path, c.add(i, K(1)))
        return Agg([i, x])
    if nm == "Zip":
        ra, ta = sf(m, ref, ty, "a"); rb, tb = sf(m, ref, ty, "b")
        x = py_next(m, ra, ta)
        if x is END: return END
        y = py_next(m, rb, tb)
        if y is END: return END
        return Agg([x, y])
    if nm in ("Cloned", "Copied"):
        r, t = sf(m, ref, ty, "it")
        x = py_next(m, r, t)
        if x is END: return END
        return m.load(x.cell, x.path)
    if nm == "Chain":
        for k in ("a", "b"):
            r, t = sf(m, ref, ty, k)
            o = m.load(r.cell, r.path)
            if o.v == 1:
                it = m.prog.tys[t]["args"][0]
                x = py_next(m, Ref(r.cell, r.path + (0,)), it)
                if x is not END: return x
                if k == "a": m.store(r.cell, r.path, NONE)
        return END
    if nm == "Take":
        r, t = sf(m, ref, ty, "iter"); nr, _ = sf(m, ref, ty, "n")
        n = m.load(nr.cell, nr.path)
        if c.decide(c.eq(n, K(0))): return END
        m.store(nr.cell, nr.path, c.sub(n, K(1)))
        return py_next(m, r, t)
    if nm == "Skip":
        r, t = sf(m, ref, ty, "iter"); nr, _ = sf(m, ref, ty, "n")
        n = cint(m, m.load(nr.cell, nr.path))
        m.store(nr.cell, nr.path, K(0))
        for _ in range(n):
            if py_next(m, r, t) is END: return END
        return py_next(m, r, t)
    if nm == "StepBy":
        r, t = sf(m, ref, ty, "iter"); sr, _ = sf(m, ref, ty, "step_minus_one") ; fr, _ = sf(m, ref, ty, "first_take")
        first = m.load(fr.cell, fr.path)
        n = 0 if first.c() else cint(m, m.load(sr.cell, sr.path))
        m.store(fr.cell, fr.path, FALSE)
        for _ in range(n):
            if py_next(m, r, t) is END: return END
        return py_next(m, r, t)
    if nm == "Fuse":
        r, t = sf(m, ref, ty, "iter")
        o = m.load(r.cell, r.path)
        if o.v == 0: return END
        x = py_next(m, Ref(r.cell, r.path + (0,)), m.prog.tys[t]["args"][0])
        if x is END: m.store(r.cell, r.path, NONE)
        return x
    if nm == "FlatMap" or nm == "Flatten":
        ir, it = sf(m, ref, ty, "inner")
        ity = m.prog.tys[it]
        fr, ft = sf(m, ir, ity, "frontiter"); rr, rt = sf(m, ir, ity, "iter")
        ut = m.prog.tys[ft]["args"][0]
        while True:
            o = m.load(fr.cell, fr.path)
            if o.v == 1:
                x = py_next(m, Ref(fr.cell, fr.path + (0,)), ut)
                if x is not END: return x
                m.store(fr.cell, fr.path, NONE)
            x = py_next(m, rr, rt)
            if x is END: break
            # into_iter of the produced value
            m.store(fr.cell, fr.path, some(into_iter(m, x, ut)))
        br, bt = sf(m, ir, ity, "backiter")
        o = m.load(br.cell, br.path)
        if o.v == 1:
            x = py_next(m, Ref(br.cell, br.path + (0,)), ut)
            if x is not END: return x
            m.store(br.cell, br.path, NONE)
        return END
    if nm == "Once":
        r, t = sf(m, ref, ty, "inner"); ty2 = m.prog.tys[t]
        return py_next(m, r, t)
    if nm == "IntoIter" and "option" in ty["name"] or nm == "Item":
        i, t = 0, ty["v"][0]["f"][0][1]
        if nm == "IntoIter":
            return py_next(m, Ref(ref.cell, ref.path + (0,)), t)
        o = m.load(ref.cell, ref.path + (0,))
        if o.v == 0: return END
        m.store(ref.cell, ref.path + (0,), NONE)
        return o.f[0]
    if nm == "Repeat":
        return v.f[0]
    if nm == "TakeWhile":
        r, t = sf(m, ref, ty, "iter"); pr, pt = sf(m, ref, ty, "predicate"); fl, _ = sf(m, ref, ty, "flag")
        if c.decide(m.load(fl.cell, fl.path)): return END
        x = py_next(m, r, t)
        if x is END: return END
        if c.decide(call_fn_mut(m, pr, [Ref(c.new_cell(x))], pt)): return x
        m.store(fl.cell, fl.path, TRUE)
        return END
    if nm == "Scan":
        r, t = sf(m, ref, ty, "iter"); fr, ft = sf(m, ref, ty, "f"); sr, _ = sf(m, ref, ty, "state")
        x = py_next(m, r, t)
        if x is END: return END
        b = call_fn_mut(m, fr, [sr, x], ft)
        return b.f[0] if b.v == 1 else END
    if nm == "MapWhile":
        r, t = sf(m, ref, ty, "iter"); fr, ft = sf(m, ref, ty, "predicate")
        x = py_next(m, r, t)
        if x is END: return END
        b = call_fn_mut(m, fr, [x], ft)
        return b.f[0] if b.v == 1 else END
    if nm == "Successors":
        r, t = sf(m, ref, ty, "next"); fr, ft = sf(m, ref, ty, "succ")
        o = m.load(r.cell, r.path)
        if o.v == 0: return END
        m.store(r.cell, r.path, call_fn_mut(m, fr, [Ref(c.new_cell(o.f[0]))], ft))
        return o.f[0]
    return byname(m, ty, "Iterator>::next", ref)
def into_iter(m, x, tid):
    """x.into_iter() where the iterator type is tid"""
    ty = m.prog.tys[tid]
    if isinstance(x, Nat) and x.kind in ("iter", "into", "chunks", "windows"): return x
    if isinstance(x, Arr) and ty["k"] == "adt" and ty["name"].endswith("IntoIter"):
        return Nat("into", items=list(x.items), i=0, n=len(x.items))
    if isinstance(x, Ref) and ty["k"] == "adt" and "slice::Iter" in ty["name"]:
        s = as_slice(m, x); return Nat("iter", s=s, i=0, n=s.meta[1])
    if ty["k"] == "adt" and ty["name"].endswith("option::IntoIter") and isinstance(x, Agg) and x.v in (0, 1) and not (x.f and isinstance(x.f[0], Agg) and x.v == 0):
        return Agg([Agg([x])])
    return x
def py_back(m, ref, tid):
    ref, tid, ty, v = norm(m, ref, tid)
    if isinstance(v, Nat): return nat_back(m, ref, v)
    c = m.ctx
    nm = ty["name"].rsplit("::", 1)[-1] if ty["k"] == "adt" else ""
    if nm == "Range":
        if not c.decide(c.lt(v.f[0], v.f[1])): return END
        e = c.sub(v.f[1], K(1))
        m.store(ref.cell, ref.path, Agg([v.f[0], e], 0, v.ty))
        return e
    if nm == "RangeInclusive":
        if c.decide(c.nrm(v.f[2])) or not c.decide(c.le(v.f[0], v.f[1])): return END
        if c.decide(c.eq(v.f[0], v.f[1])): m.store(ref.cell, ref.path, Agg([v.f[0], v.f[1], TRUE], 0, v.ty))
        else: m.store(ref.cell, ref.path, Agg([v.f[0], c.sub(v.f[1], K(1)), v.f[2]], 0, v.ty))
        return v.f[1]
    if nm == "Rev":
        r, t = sf(m, ref, ty, "iter"); return py_next(m, r, t)
    if nm == "Map":
        r, t = sf(m, ref, ty, "iter")
        x = py_back(m, r, t)
        if x is END: return END
        fr, ft = sf(m, ref, ty, "f")
        return call_fn_mut(m, fr, [x], ft)
    if nm in ("Cloned", "Copied"):
        r, t = sf(m, ref, ty, "it")
        x = py_back(m, r, t)
        return END if x is END else m.load(x.cell, x.path)
    if nm == "Chain":
        for k in ("b", "a"):
            r, t = sf(m, ref, ty, k)
            o = m.load(r.cell, r.path)
            if o.v == 1:
                x = py_back(m, Ref(r.cell, r.path + (0,)), m.prog.tys[t]["args"][0])
                if x is not END: return x
                if k == "b": m.store(r.cell, r.path, NONE)
        return END
    if nm == "Enumerate":
        r, t = sf(m, ref, ty, "iter"); cr, _ = sf(m, ref, ty, "count")
        n = py_len(m, r, t)
        x = py_back(m, r, t)
        if x is END: return END
        return Agg([c.add(m.load(cr.cell, cr.path), K(n - 1)), x])
    if nm == "Zip":
        ra, ta = sf(m, ref, ty, "a"); rb, tb = sf(m, ref, ty, "b")
        na, nb = py_len(m, ra, ta), py_len(m, rb, tb)
        while na > nb: py_back(m, ra, ta); na -= 1
        while nb > na: py_back(m, rb, tb); nb -= 1
        x = py_back(m, ra, ta)
        if x is END: return END
        return Agg([x, py_back(m, rb, tb)])
    if nm == "Take":
        r, t = sf(m, ref, ty, "iter"); nr, _ = sf(m, ref, ty, "n")
        n = cint(m, m.load(nr.cell, nr.path))
        if n == 0: return END
        L = py_len(m, r, t)
        while L > n: py_back(m, r, t); L -= 1
        m.store(nr.cell, nr.path, K(n - 1))
        return py_back(m, r, t)
    if nm == "Skip":
        r, t = sf(m, ref, ty, "iter"); nr, _ = sf(m, ref, ty, "n")
        n = cint(m, m.load(nr.cell, nr.path))
        if py_len(m, r, t) <= n: return END
        return py_back(m, r, t)
    return byname(m, ty, "DoubleEndedIterator>::next_back", ref)
def py_len(m, ref, tid):
    ref, tid, ty, v = norm(m, ref, tid)
    if isinstance(v, Nat): return max(0, cint(m, v.n) - v.i)
    nm = ty["name"].rsplit("::", 1)[-1]
    if nm == "Range": return max(0, cint(m, v.f[1]) - cint(m, v.f[0]))
    if nm in ("Rev", "Map", "Enumerate"):
        r, t = sf(m, ref, ty, "iter"); return py_len(m, r, t)
    if nm in ("Cloned", "Copied"):
        r, t = sf(m, ref, ty, "it"); return py_len(m, r, t)
    if nm == "Zip":
        ra, ta = sf(m, ref, ty, "a"); rb, tb = sf(m, ref, ty, "b")
        return min(py_len(m, ra, ta), py_len(m, rb, tb))
    if nm == "Take":
        r, t = sf(m, ref, ty, "iter"); nr, _ = sf(m, ref, ty, "n")
        return min(py_len(m, r, t), cint(m, m.load(nr.cell, nr.path)))
    if nm == "Skip":
        r, t = sf(m, ref, ty, "iter"); nr, _ = sf(m, ref, ty, "n")
        return max(0, py_len(m, r, t) - cint(m, m.load(nr.cell, nr.path)))
    if nm == "Chain":
        n = 0
        for k in ("a", "b"):
            r, t = sf(m, ref, ty, k)
            if m.load(r.cell, r.path).v == 1: n += py_len(m, Ref(r.cell, r.path + (0,)), m.prog.tys[t]["args"][0])
        return n
    raise Unsupported("length of iterator " + ty["s"][:60])

def selfty(m, fn):
    """type of the iterator argument"""
    if "locals" in fn and fn["argc"] >= 1: return fn["locals"][1]
    if fn["def"].startswith("std::iter::Iterator::"): return fn["args"][0]
    raise Unsupported("iterator type of " + fn["name"][:80])
def arg_iter(m, a, fn):
    """iterator argument as (ref, tid)"""
    t = selfty(m, fn)
    ty = m.prog.tys[t]
    if ty["k"] == "ref" and isinstance(a[0], Ref):
        return a[0], ty["e"]
    return Ref(m.ctx.new_cell(a[0])), t
def items(m, ref, tid):
    while True:
        x = py_next(m, ref, tid)
        if x is END: return
        yield x

AD = r"(Map|Filter|FilterMap|Enumerate|Zip|Cloned|Copied|Chain|Take|Skip|StepBy|Rev|Fuse|FlatMap|Flatten|Once|TakeWhile|Repeat|Scan|MapWhile|Successors)"
@model(r"^<std::iter::" + AD + r"<.*> as std::iter::Iterator>::next$|^std::iter::range::<impl std::iter::Iterator for std::ops::Range(Inclusive)?<A>>::next$|^<std::ops::Range(Inclusive)?<A> as std::iter::Iterator>::next$")
def _(m, a, fn):
    r, t = arg_iter(m, a, fn)
    x = py_next(m, r, t)
    return NONE if x is END else some(x)
@model(r"^<std::iter::" + AD + r"<.*> as std::iter::DoubleEndedIterator>::next_back$|^std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range(Inclusive)?<A>>::next_back$")
def _(m, a, fn):
    r, t = arg_iter(m, a, fn)
    x = py_back(m, r, t)
    return NONE if x is END else some(x)
@model(r"^<(std::collections::|hashbrown::)(btree_map|btree_set|hash_map|hash_set)::\w+<.*> as std::iter::Iterator>::next$")
def _(m, a, fn):
    v = m.load(a[0].cell, a[0].path)
    if not isinstance(v, Nat): return NotImplemented
    x = nat_next(m, a[0], v)
    return NONE if x is END else some(x)
@model(r"^std::iter::Zip::<A, B>::new$|<std::iter::Zip<A, B> as .*ZipImpl<A, B>>::new$")
def _(m, a, fn):
    return Agg([a[0], a[1], K(0), K(0)], 0, fn["locals"][0] if "locals" in fn else None)
@model(r"^std::iter::StepBy::<I>::new$")
def _(m, a, fn):
    t = fn["locals"][0]; ty = m.prog.tys[t]
    f = []
    for n, _ in ty["v"][0]["f"]:
        f.append({"iter": a[0], "first_take": TRUE}.get(n, None) if n in ("iter", "first_take") else m.ctx.sub(a[1], K(1)))
    return Agg(f, 0, t)
def sink(m, r, t, target):
    ty = m.prog.tys[target]
    if ty["k"] == "adt" and ty["name"].endswith("vec::Vec"):
        return Arr(list(items(m, r, t)))
    if ty["k"] == "adt" and ty["name"].endswith("Box"):
        l = list(items(m, r, t))
        return Ref(m.ctx.new_cell(Arr(l)), (), (0, len(l)))
    if ty["k"] == "adt" and ty["name"].endswith("result::Result"):
        l = []
        inner = m.prog.tys[ty["args"][0]]
        for x in items(m, r, t):
            if x.v == 1: return Agg([x.f[0]], 1)
            l.append(x.f[0])
        if inner["k"] == "tuple" and not inner["f"]: return Agg([UNIT], 0)
        if inner["k"] == "adt" and inner["name"].endswith("vec::Vec"): return Agg([Arr(l)], 0)
    if ty["k"] == "adt" and ty["name"].endswith("option::Option"):
        l = []
        inner = m.prog.tys[ty["args"][0]]
        for x in items(m, r, t):
            if x.v == 0: return NONE
            l.append(x.f[0])
        if inner["k"] == "adt" and inner["name"].endswith("vec::Vec"): return some(Arr(l))
    return None
@model(r"^std::iter::Iterator::collect$|^<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter$|^<std::boxed::Box<\[I\]> as std::iter::FromIterator<I>>::from_iter$")
def _(m, a, fn):
    if "locals" not in fn: return NotImplemented
    tgt = m.prog.tys[fn["locals"][0]]
    if tgt["k"] != "adt" or not re.search(r"(vec::Vec|Box|result::Result|option::Option)$", tgt["name"]): return NotImplemented
    x = sink(m, Ref(m.ctx.new_cell(a[0])), fn["locals"][1], fn["locals"][0])
    return NotImplemented if x is None else x
@model(r"^std::iter::Iterator::(fold|for_each|count|last|sum|product|all|any|position|unzip|max|min|nth|rev_fold|find|reduce)$|^<std::iter::" + AD + r"<.*> as std::iter::Iterator>::(fold|count|last|nth|find)$|^<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::(fold|for_each|count|last|all|any|position|nth|find)$|IntoIter<.*> as std::iter::Iterator>::(fold|count|nth)$")
def _(m, a, fn):
    r, t = arg_iter(m, a, fn)
    c = m.ctx
    op = fn["def"].rsplit("::", 1)[1]
    if op == "fold":
        acc = a[1]; fc = Ref(c.new_cell(a[2]))
        fty = fn["locals"][3]
        for x in items(m, r, t): acc = call_fn_mut(m, fc, [acc, x], fty)
        return acc
    if op == "for_each":
        fc = Ref(c.new_cell(a[1])); fty = fn["locals"][2]
        for x in items(m, r, t): call_fn_mut(m, fc, [x], fty)
        return UNIT
    if op == "count":
        return K(sum(1 for _ in items(m, r, t)))
    if op == "last":
        l = END
        for x in items(m, r, t): l = x
        return NONE if l is END else some(l)
    if op == "nth":
        n = cint(m, a[1]); x = END
        for _ in range(n + 1):
            x = py_next(m, r, t)
            if x is END: return NONE
        return some(x)
    if op in ("all", "any", "position", "find"):
        fc = Ref(c.new_cell(a[1])); fty = fn["locals"][2]
        i = 0
        for x in items(m, r, t):
            b = c.decide(call_fn_mut(m, fc, [Ref(c.new_cell(x)) if op == "find" else x], fty))
            if op == "all" and not b: return FALSE
            if op == "any" and b: return TRUE
            if op == "position" and b: return some(K(i))
            if op == "find" and b: return some(x)
            i += 1
        return TRUE if op == "all" else FALSE if op == "any" else NONE
    if op == "unzip":
        l = list(items(m, r, t))
        return Agg([Arr([x.f[0] for x in l]), Arr([x.f[1] for x in l])])
    if op == "reduce":
        fc = Ref(c.new_cell(a[1])); fty = fn["locals"][2]
        acc = END
        for x in items(m, r, t): acc = x if acc is END else call_fn_mut(m, fc, [acc, x], fty)
        return NONE if acc is END else some(acc)
    if op in ("max", "min"):
        best = None
        for x in items(m, r, t):
            xv = val(m, x)
            if not isinstance(xv, Int): return NotImplemented
            if best is None: best = x; continue
            bv = val(m, best)
            if op == "max" and c.decide(c.le(bv, xv)): best = x
            elif op == "min" and c.decide(c.lt(xv, bv)): best = x
        return NONE if best is None else some(best)
    if op in ("sum", "product"):
        rt = m.prog.tys[fn["locals"][0]]
        if rt["k"] not in ("uint", "int"): return NotImplemented
        acc = K(0 if op == "sum" else 1)
        w, sg = m.bits(fn["locals"][0])
        for x in items(m, r, t):
            acc = (c.add if op == "sum" else c.mul)(acc, val(m, x))
        if acc.hi is None or acc.hi >> w: raise Unsupported("possible overflow in sum")
        return acc
    return NotImplemented
@model(r"^<std::vec::Vec<T, A> as std::iter::Extend<(&'a )?T>>::extend$")
def _(m, a, fn):
    v = val(m, a[0])
    if not isinstance(v, Arr): raise Unsupported("extend of symbolic vector")
    t = fn["locals"][2]
    it = a[1]; ty = m.prog.tys[t]
    if isinstance(it, Arr): l = list(it.items)
    elif isinstance(it, Ref): l = [m.load(it.cell, it.path + (("e", i),)) for i in range(0)] or list(m.slice_items(as_slice(m, it)))
    else:
        l = list(items(m, Ref(m.ctx.new_cell(it)), t))
        if "&'a T" in fn["def"]: l = [m.load(x.cell, x.path) for x in l]
    m.store(a[0].cell, a[0].path, Arr(v.items + l))
    return UNIT
@model(r"(Range(Inclusive)?<A>|std::iter::" + AD + r"<.*>) as std::iter::ExactSizeIterator>::len$|^std::iter::ExactSizeIterator::len$")
def _(m, a, fn):
    r, t = arg_iter(m, a, fn)
    return K(py_len(m, r, t))
