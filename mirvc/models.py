"""Assumed contracts ("models") of std / subtle / ff library functions, keyed by definition path.
Every entry is an assumption listed in the evidence (trusted_base)."""
import re
from .engine import *
from .engine import _a, _s

TABLE = []      # (regex, handler, doc)
def model(rx, doc=""):
    def d(f):
        TABLE.append((re.compile(rx), f, doc))
        return f
    return d
_cache = {}
def lookup(m, fn):
    key = fn["def"]
    r = _cache.get(key, 0)
    if r == 0:
        r = None
        for rx, f, _ in TABLE:
            if rx.search(key):
                r = f; break
        _cache[key] = r
    return r

def val(m, x):
    """auto-deref"""
    while isinstance(x, Ref) and x.meta is None:
        x = m.load(x.cell, x.path)
    return x
def intty(fn, which=None):
    mt = re.search(r"<impl (u|i)(8|16|32|64|128|size)>", fn["def"])
    s, w = mt.group(1), mt.group(2)
    return (64 if w == "size" else int(w)), s == "i"
def some(x, m=None):
    return Agg([x], 1)
NONE = Agg([], 0)
def slen(r):
    return K(r.meta[1]) if isinstance(r.meta[1], int) else r.meta[1]

# ---- integers
@model(r"^core::num::<impl [ui]\w+>::(wrapping|unchecked)_(add|sub|mul)$")
def _(m, a, fn):
    w, sg = intty(fn)
    c = m.ctx
    f = {"add": c.add, "sub": c.sub, "mul": c.mul}[fn["def"].rsplit("_", 1)[1]]
    return c.wrap(f(a[0], a[1]), w, sg)
@model(r"^core::num::<impl [ui]\w+>::wrapping_neg$")
def _(m, a, fn):
    w, sg = intty(fn)
    return m.ctx.wrap(m.ctx.sub(K(0), a[0]), w, sg)
@model(r"^core::num::<impl [ui]\w+>::overflowing_(add|sub|mul)$")
def _(m, a, fn):
    w, sg = intty(fn)
    c = m.ctx
    f = {"add": c.add, "sub": c.sub, "mul": c.mul}[fn["def"].rsplit("_", 1)[1]]
    raw = f(a[0], a[1])
    r = c.wrap(raw, w, sg)
    d = c.sub(raw, r)
    if d.is_const():
        return Agg([r, K(d.c() != 0)])
    return Agg([r, c.not_(c.zero_ind(d))])
@model(r"^core::num::<impl u\w+>::checked_(add|sub|mul)$")
def _(m, a, fn):
    w, sg = intty(fn)
    c = m.ctx
    f = {"add": c.add, "sub": c.sub, "mul": c.mul}[fn["def"].rsplit("_", 1)[1]]
    raw = f(a[0], a[1])
    hi = (1 << w) - 1
    ok = c.and_(c.le(K(0), raw), c.le(raw, K(hi)))
    if c.decide(ok):
        return some(c.mk(raw.p, 0, hi))
    return NONE
@model(r"^core::num::<impl u\w+>::saturating_sub$")
def _(m, a, fn):
    if m.ctx.decide(m.ctx.lt(a[0], a[1])):
        return K(0)
    return m.ctx.sub(a[0], a[1])
@model(r"^core::num::<impl u\w+>::saturating_add$|intrinsics::saturating_add$")
def _(m, a, fn):
    r = m.ctx.add(a[0], a[1])
    w = 64
    mt = re.search(r"<impl u(\d+)>", fn["def"])
    if mt: w = int(mt.group(1))
    if r.hi is not None and r.hi < 1 << w: return r
    if m.ctx.decide(m.ctx.le(r, K((1 << w) - 1))): return r
    return K((1 << w) - 1)
@model(r"^core::num::<impl u\w+>::from_le_bytes$")
def _(m, a, fn):
    return m.from_le(a[0].items)
@model(r"^core::num::<impl u\w+>::to_le_bytes$")
def _(m, a, fn):
    w, _ = intty(fn)
    return Arr(m.to_le(a[0], w // 8))
def _iw(fn): return int(re.search(r"<impl i(\d+)>", fn["name"]).group(1))
@model(r"^core::num::<impl i\d+>::to_[bl]e_bytes$")
def _(m, a, fn):
    w = _iw(fn); b = m.to_le(m.ctx.wrap(a[0], w), w // 8); return Arr(b if "_le_" in fn["name"] else b[::-1])
@model(r"^core::num::<impl i\d+>::from_[bl]e_bytes$")
def _(m, a, fn):
    w = _iw(fn); it = a[0].items; return m.ctx.wrap(m.from_le(it if "_le_" in fn["name"] else it[::-1]), w, True)
@model(r"^core::num::<impl u\w+>::from_be_bytes$")
def _(m, a, fn):
    return m.from_le(a[0].items[::-1])
@model(r"^core::num::<impl u\w+>::to_be_bytes$")
def _(m, a, fn):
    w, _ = intty(fn)
    return Arr(m.to_le(a[0], w // 8)[::-1])
@model(r"^core::num::<impl u\w+>::pow$")
def _(m, a, fn):
    w, sg = intty(fn)
    if a[0].is_const() and a[1].is_const():
        v = a[0].c() ** a[1].c()
        if v >> w: raise Panic("pow overflow")
        return K(v)
    return NotImplemented
@model(r"^core::num::<impl u\w+>::(leading_zeros|trailing_zeros|count_ones|is_power_of_two|next_power_of_two)$")
def _(m, a, fn):
    w, _ = intty(fn)
    x = a[0].c()
    n = fn["def"].rsplit("::", 1)[1]
    if n == "leading_zeros": return K(w - x.bit_length())
    if n == "trailing_zeros": return K(w if x == 0 else (x & -x).bit_length() - 1)
    if n == "count_ones": return K(bin(x).count("1"))
    if n == "is_power_of_two": return K(x != 0 and x & (x - 1) == 0)
    return K(1 if x <= 1 else 1 << (x - 1).bit_length())
@model(r"intrinsics::(size_of|min_align_of|align_of|needs_drop|size_of_val)")
def _(m, a, fn):
    if "size_of" in fn["def"] and "val" not in fn["def"]:
        return K(m.sizeof(fn["args"][0]))
    return K(8)
@model(r"intrinsics::(cold_path|assert_inhabited|assert_zero_valid|assume)|precondition_check|ub_checks::")
def _(m, a, fn):
    return UNIT
@model(r"intrinsics::(wrapping|unchecked)_(add|sub|mul)")
def _(m, a, fn):
    w, sg = m.bits(fn["args"][0])
    op = re.search(r"_(add|sub|mul)", fn["def"]).group(1)
    return m.ctx.wrap({"add": m.ctx.add, "sub": m.ctx.sub, "mul": m.ctx.mul}[op](a[0], a[1]), w, sg)
@model(r"intrinsics::three_way_compare")
def _(m, a, fn):
    return m.binop("Cmp", a[0], a[1], fn["args"][0])
@model(r"intrinsics::raw_eq$")
def _(m, a, fn):
    return deep_eq(m, val(m, a[0]), val(m, a[1]))
@model(r"^(std|core)::hint::black_box|^subtle::black_box|ptr::read_volatile|intrinsics::black_box")
def _(m, a, fn):
    return val(m, a[0]) if "read_volatile" in fn["def"] else a[0]
def deep_eq(m, x, y):
    c = m.ctx
    if isinstance(x, Ref) and isinstance(y, Ref):
        if x.meta is not None or y.meta is not None:
            xs, ys = m.slice_items(x), m.slice_items(y)
            if len(xs) != len(ys): return FALSE
            return deep_eq(m, Arr(xs), Arr(ys))
        return deep_eq(m, m.deref_val(x), m.deref_val(y))
    if isinstance(x, Int) and isinstance(y, Int):
        return c.eq(x, y)
    if isinstance(x, FE) and isinstance(y, FE):
        return c.fe_zero_ind(x.fld, x.p - y.p)
    if isinstance(x, Agg) and isinstance(y, Agg):
        if x.v != y.v: return FALSE
        r = TRUE
        for p, q in zip(x.f, y.f):
            r = c.and_(r, deep_eq(m, p, q))
        return r
    if isinstance(x, Arr) and isinstance(y, Arr):
        if len(x.items) != len(y.items): return FALSE
        r = TRUE
        for p, q in zip(x.items, y.items):
            r = c.and_(r, deep_eq(m, p, q))
        return r
    raise Unsupported(f"equality of {type(x).__name__}")
@model(r"array::equality::|slice::cmp::<impl std::cmp::PartialEq|SlicePartialEq|vec::partial_eq")
def _(m, a, fn):
    r = deep_eq(m, a[0], a[1])
    return m.ctx.not_(r) if fn["def"].endswith("::ne") else r

# ---- subtle
@model(r"^<(u8|u16|u32|u64|u128|usize) as subtle::ConstantTimeEq>::ct_eq$", "subtle ct_eq on words is equality")
def _(m, a, fn):
    return Agg([m.ctx.eq(val(m, a[0]), val(m, a[1]))])
@model(r"^<(u8|u16|u32|u64|u128) as subtle::ConditionallySelectable>::conditional_select$",
       "subtle conditional_select on words: choice ? b : a")
def _(m, a, fn):
    ch = a[2].f[0]
    return m.ctx.ite(ch, val(m, a[1]), val(m, a[0]))
@model(r"^<(u8|u16|u32|u64|u128) as subtle::ConditionallySelectable>::conditional_(assign)$")
def _(m, a, fn):
    ch = a[2].f[0]
    r = m.ctx.ite(ch, val(m, a[1]), val(m, a[0]))
    m.store(a[0].cell, a[0].path, r)
    return UNIT
@model(r"^<subtle::Choice as std::convert::From<u8>>::from$")
def _(m, a, fn):
    return Agg([a[0]])

# ---- slices / arrays
def rng(m, r, n, kind):
    """(start, len) of a range value over length n; panics when out of bounds"""
    c = m.ctx
    s, e = K(0), n
    f = r.f
    if kind == "Range": s, e = f[0], f[1]
    elif kind == "RangeFrom": s = f[0]
    elif kind == "RangeTo": e = f[0]
    elif kind == "RangeInclusive": s, e = f[0], c.add(f[1], K(1))
    elif kind == "RangeToInclusive": e = c.add(f[0], K(1))
    elif kind == "RangeFull": pass
    else: raise Unsupported("range " + kind)
    if not c.decide(c.le(s, e)) or not c.decide(c.le(e, n)):
        raise Panic("slice index out of range")
    ln = c.sub(e, s)
    return (s.c() if s.is_const() else s), (ln.c() if ln.is_const() else ln)
def as_slice(m, r):
    """any reference to array / Vec / slice as slice Ref"""
    if isinstance(r, Ref):
        if r.meta is not None: return r
        b = m.load(r.cell, r.path)
        if isinstance(b, Arr): return Ref(r.cell, r.path, (0, len(b.items)))
        if isinstance(b, Ref): return as_slice(m, b)
        if isinstance(b, Nat) and hasattr(b, "seqlen"): return Ref(r.cell, r.path, (0, b.seqlen(m)))
    raise Unsupported(f"as_slice {r} -> {type(m.load(r.cell, r.path)).__name__ if isinstance(r, Ref) else ''}")
@model(r"(std::array|core::slice::index|alloc::vec|std::vec)?.*(ops::Index(Mut)?<.*> for (\[|std::vec::Vec|alloc::vec::Vec)|std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>).*::index(_mut)?$|<.* as std::slice::SliceIndex<\[T\]>>::index(_mut)?$")
def _(m, a, fn):
    base, idx = a[0], a[1]
    if "SliceIndex" in fn["def"]:
        base, idx = a[1], a[0]
    s = as_slice(m, base)
    if isinstance(idx, Int):
        c = m.ctx
        if not c.decide(c.lt(idx, slen(s))):
            raise Panic("index out of bounds")
        idx = c.nrm(idx)
        i = idx.c() if idx.is_const() else idx
        return Ref(s.cell, s.path + (("e", m._off(s.meta[0], i)),))
    # range type from generic args
    kind = None
    for t in [fn["ity"]] + [x for x in fn["args"] if isinstance(x, int)]:
        mt = re.search(r"ops::(RangeInclusive|RangeFrom|RangeToInclusive|RangeTo|RangeFull|Range)\b", m.prog.tys[t]["s"])
        if mt: kind = mt.group(1); break
    if kind is None:
        mt = re.search(r"ops::(RangeInclusive|RangeFrom|RangeToInclusive|RangeTo|RangeFull|Range)\b", fn["name"])
        kind = mt.group(1) if mt else "Range"
    st, ln = rng(m, idx, slen(s), kind)
    return Ref(s.cell, s.path, (m._off(s.meta[0], st), ln))
@model(r"^core::slice::<impl \[T\]>::(get|get_mut)$")
def _(m, a, fn):
    s = as_slice(m, a[0]); idx = a[1]
    if not isinstance(idx, Int): raise Unsupported("get(range)")
    c = m.ctx
    if not c.decide(c.lt(idx, slen(s))): return NONE
    idx = c.nrm(idx)
    i = idx.c() if idx.is_const() else idx
    return some(Ref(s.cell, s.path + (("e", m._off(s.meta[0], i)),)))
@model(r"slice::<impl \[T\]>::len$|^std::vec::Vec::<T, A>::len$|Vec::<.*>::len$")
def _(m, a, fn):
    return slen(as_slice(m, a[0]))
@model(r"slice::<impl \[T\]>::is_empty$|Vec::<.*>::is_empty$")
def _(m, a, fn):
    return m.ctx.eq(slen(as_slice(m, a[0])), K(0))
@model(r"TryFrom<.*Vec<T, A>> for \[T; N\]>::try_from$")
def _(m, a, fn):
    n = int([x for x in fn["args"] if isinstance(x, str) and x.split("_")[0].isdigit()][0].split("_")[0])
    if len(a[0].items) != n: return Agg([a[0]], 1)
    return Agg([Arr(list(a[0].items))], 0)
@model(r"TryFrom<&(mut )?\[T\]> for \[T; N\]>::try_from$|TryFrom<&\[T\]> for &\[T; N\]>::try_from$")
def _(m, a, fn):
    n = int([x for x in fn["args"] if isinstance(x, str)][0])
    s = as_slice(m, a[0])
    if not m.ctx.decide(m.ctx.eq(slen(s), K(n))):
        return Agg([Agg([])], 1)
    items = m.slice_items(Ref(s.cell, s.path, (s.meta[0], n)))
    if "for &" in fn["def"]:
        return Agg([Ref(m.ctx.new_cell(Arr(list(items))))], 0)
    return Agg([Arr(list(items))], 0)
@model(r"slice::<impl \[T\]>::(copy_from_slice|clone_from_slice)$")
def _(m, a, fn):
    d, s = as_slice(m, a[0]), as_slice(m, a[1])
    if not m.ctx.decide(m.ctx.eq(slen(d), slen(s))):
        raise Panic("copy_from_slice length mismatch")
    items = m.slice_items(s)
    base = m.load(d.cell, d.path)
    it = list(base.items)
    it[d.meta[0]:d.meta[0] + len(items)] = items
    m.store(d.cell, d.path, Arr(it))
    return UNIT
@model(r"slice::<impl \[T\]>::(iter|iter_mut)$|<&('a )?(mut )?\[T\] as .*IntoIterator>::into_iter$|IntoIterator for &('a )?(mut )?\[T(; N)?\]>::into_iter$|<&('a )?(mut )?\[T(; N)?\] as std::iter::IntoIterator>::into_iter$|<&('a )?(mut )?std::vec::Vec<T(, A)?> as std::iter::IntoIterator>::into_iter$|IntoIterator for &('a )?(mut )?std::vec::Vec")
def _(m, a, fn):
    s = as_slice(m, a[0])
    return Nat("iter", s=s, i=0, n=s.meta[1])
def elem_ref(m, s, i):
    return Ref(s.cell, s.path + (("e", m._off(s.meta[0], i)),))
def cint(m, x):
    return x if isinstance(x, int) else m.ctx.nrm(x).c()
@model(r"<std::slice::Iter(Mut)?<'_?a?, T> as std::iter::Iterator>::next$|<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::next$|IntoIter<T.*> as std::iter::Iterator>::next$|^<std::slice::(Chunks|ChunksExact|ChunksMut|ChunksExactMut|Windows)<'a, T> as std::iter::Iterator>::next$")
def _(m, a, fn):
    it = val(m, a[0])
    if not isinstance(it, Nat): return NotImplemented
    if hasattr(it, "next"): return it.next(m, a[0])
    n = cint(m, it.n)
    if it.i >= n:
        return NONE
    m.store(a[0].cell, a[0].path, it.copy(i=it.i + 1))
    return some(iter_get(m, it, it.i))
def iter_get(m, it, i):
    if it.kind == "iter": return elem_ref(m, it.s, i)
    if it.kind == "into": return it.items[i]
    if it.kind == "chunks":
        st = i * it.k
        return Ref(it.s.cell, it.s.path, (m._off(it.s.meta[0], st), min(it.k, it.s.meta[1] - st)))
    if it.kind == "windows":
        return Ref(it.s.cell, it.s.path, (m._off(it.s.meta[0], i), it.k))
    raise Unsupported("iter kind " + it.kind)
@model(r"<std::slice::Iter(Mut)?<'a, T> as std::iter::DoubleEndedIterator>::next_back$|IntoIter<T.*> as std::iter::DoubleEndedIterator>::next_back$|^<std::slice::(Chunks|ChunksExact|ChunksMut|Windows)<'a, T> as std::iter::DoubleEndedIterator>::next_back$")
def _(m, a, fn):
    it = val(m, a[0])
    n = cint(m, it.n)
    if it.i >= n: return NONE
    m.store(a[0].cell, a[0].path, it.copy(n=n - 1))
    return some(iter_get(m, it, n - 1))
@model(r"(Iter(Mut)?<'[a_]\w*, T>|IntoIter<T.*>|Chunks\w*<'[a_]\w*, T>) as std::iter::(Iterator>::size_hint|ExactSizeIterator>::len|Iterator>::count)$|TrustedRandomAccessNoCoerce::size$|ExactSizeIterator::len$")
def _(m, a, fn):
    it = val(m, a[0])
    if not isinstance(it, Nat): return NotImplemented
    n = K(cint(m, it.n) - it.i)
    if fn["def"].endswith("size_hint"): return Agg([n, some(n)])
    return n
@model(r"Iterator>::__iterator_get_unchecked$|Iterator::__iterator_get_unchecked$")
def _(m, a, fn):
    it = val(m, a[0])
    if not isinstance(it, Nat): return NotImplemented
    return iter_get(m, it, it.i + cint(m, a[1]))
@model(r"slice::<impl \[T\]>::(chunks|chunks_exact|chunks_mut|chunks_exact_mut)$")
def _(m, a, fn):
    s = as_slice(m, a[0]); k = cint(m, a[1])
    n = cint(m, s.meta[1])
    cnt = n // k if "exact" in fn["def"] else (n + k - 1) // k
    return Nat("chunks", s=s, k=k, i=0, n=cnt)
@model(r"slice::<impl \[T\]>::windows$")
def _(m, a, fn):
    s = as_slice(m, a[0]); k = cint(m, a[1])
    return Nat("windows", s=s, k=k, i=0, n=max(0, cint(m, s.meta[1]) - k + 1))
@model(r"slice::<impl \[T\]>::(first|last|first_mut|last_mut)$")
def _(m, a, fn):
    s = as_slice(m, a[0])
    if not m.ctx.decide(m.ctx.lt(K(0), slen(s))): return NONE
    if "first" in fn["def"]: return some(elem_ref(m, s, 0))
    e = m.ctx.sub(slen(s), K(1))
    return some(elem_ref(m, s, e.c() if e.is_const() else e))
@model(r"slice::<impl \[T\]>::(split_at|split_at_mut)$")
def _(m, a, fn):
    s = as_slice(m, a[0]); k = cint(m, a[1]); n = cint(m, s.meta[1])
    if k > n: raise Panic("split_at out of range")
    return Agg([Ref(s.cell, s.path, (s.meta[0], k)), Ref(s.cell, s.path, (m._off(s.meta[0], k), n - k))])
@model(r"slice::<impl \[T\]>::swap$")
def _(m, a, fn):
    s = as_slice(m, a[0]); i, j = cint(m, a[1]), cint(m, a[2]); n = cint(m, s.meta[1])
    if i >= n or j >= n: raise Panic("swap out of range")
    x, y = elem_ref(m, s, i), elem_ref(m, s, j)
    vx, vy = m.load(x.cell, x.path), m.load(y.cell, y.path)
    m.store(x.cell, x.path, vy); m.store(y.cell, y.path, vx)
    return UNIT
@model(r"slice::<impl \[T\]>::rotate_(left|right)$")
def _(m, a, fn):
    d = as_slice(m, a[0]); l = list(m.slice_items(d)); k = cint(m, a[1])
    if k > len(l): raise Panic("rotate out of range")
    if fn["def"].endswith("right"): k = len(l) - k
    l = l[k:] + l[:k]
    for i, x in enumerate(l):
        e = elem_ref(m, d, i); m.store(e.cell, e.path, x)
    return UNIT
@model(r"slice::<impl \[T\]>::reverse$")
def _(m, a, fn):
    s = as_slice(m, a[0])
    base = m.load(s.cell, s.path); it = list(base.items)
    st, n = s.meta
    it[st:st + n] = it[st:st + n][::-1]
    m.store(s.cell, s.path, Arr(it))
    return UNIT
@model(r"AsRef<\[T\]> for (\[T; N\]|\[T\]|std::vec::Vec<T.*>)>::as_ref$|<std::vec::Vec<T, A> as std::convert::AsRef<\[T\]>>::as_ref|AsMut<\[T\]> for .*as_mut$|<std::vec::Vec<T, A> as std::ops::Deref(Mut)?>::deref(_mut)?$|^std::vec::Vec::<T, A>::as_(mut_)?slice$|Borrow(Mut)?<\[T\]> for .*borrow(_mut)?$|<std::vec::Vec<T.*> as std::convert::AsMut<\[T\]>>::as_mut")
def _(m, a, fn):
    return as_slice(m, a[0])
# ---- Vec
@model(r"^std::vec::Vec::<T>::(new|with_capacity)$|^<std::vec::Vec<T> as std::default::Default>::default$")
def _(m, a, fn):
    return Arr([])
@model(r"^std::vec::Vec::<T, A>::push$")
def _(m, a, fn):
    v = val(m, a[0])
    if isinstance(v, Nat) and hasattr(v, "push"): 
        m.store(a[0].cell, a[0].path, v.push(m, a[1])); return UNIT
    m.store(a[0].cell, a[0].path, Arr(v.items + [a[1]]))
    return UNIT
@model(r"^std::vec::Vec::<T, A>::pop$")
def _(m, a, fn):
    v = val(m, a[0])
    if isinstance(v, Nat):
        n = v.seqlen(m)
        if not m.ctx.decide(m.ctx.lt(K(0), K(n) if isinstance(n, int) else n)): return NONE
        nv, x = v.popv(m)
        m.store(a[0].cell, a[0].path, nv)
        return some(x)
    if not v.items: return NONE
    m.store(a[0].cell, a[0].path, Arr(v.items[:-1]))
    return some(v.items[-1])
@model(r"^std::vec::Vec::<T, A>::(reserve|reserve_exact|shrink_to_fit)$")
def _(m, a, fn):
    return UNIT
@model(r"^std::vec::Vec::<T, A>::extend_from_slice$")
def _(m, a, fn):
    v = val(m, a[0]); s = as_slice(m, a[1])
    m.store(a[0].cell, a[0].path, Arr(v.items + list(m.slice_items(s))))
    return UNIT
@model(r"^std::vec::Vec::<T, A>::retain(_mut)?$")
def _(m, a, fn):
    v = m.load(a[0].cell, a[0].path)
    if not isinstance(v, Arr): raise Unsupported("retain on a symbolic vector")
    f = m.ctx.new_cell(a[1]); keep = []
    for x in v.items:
        c = m.ctx.new_cell(x)
        if m.ctx.decide(call_fn_mut(m, Ref(f), [Ref(c)])): keep.append(m.ctx.cells[c])
    m.store(a[0].cell, a[0].path, Arr(keep))
    return UNIT
@model(r"^std::vec::Vec::<T, A>::truncate$")
def _(m, a, fn):
    v = val(m, a[0])
    m.store(a[0].cell, a[0].path, Arr(v.items[:cint(m, a[1])]))
    return UNIT
@model(r"^std::vec::Vec::<T, A>::clear$")
def _(m, a, fn):
    val(m, a[0]); m.store(a[0].cell, a[0].path, Arr([]))
    return UNIT
@model(r"^std::vec::Vec::<T, A>::resize$")
def _(m, a, fn):
    v = val(m, a[0]); n = cint(m, a[1])
    m.store(a[0].cell, a[0].path, Arr((v.items + [a[2]] * n)[:n]))
    return UNIT
@model(r"^std::vec::from_elem$|vec::from_elem$")
def _(m, a, fn):
    return Arr([a[0]] * cint(m, a[1]))
@model(r"slice::<impl \[T\]>::(to_vec|into_vec)$|<std::vec::Vec<T.*> as std::clone::Clone>::clone$|<impl std::borrow::ToOwned for \[T\]>::to_owned|<std::vec::Vec<T> as std::convert::From<&\[T\]>>::from")
def _(m, a, fn):
    s = as_slice(m, a[0])
    b = m.load(s.cell, s.path)
    if isinstance(b, Nat): return b
    return Arr(list(m.slice_items(s)))
@model(r"^<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$|IntoIterator for \[T; N\]>::into_iter$")
def _(m, a, fn):
    if isinstance(a[0], Nat): raise Unsupported("into_iter of symbolic Vec")
    return Nat("into", items=list(a[0].items), i=0, n=len(a[0].items))
@model(r"^std::boxed::Box::<T>::new$")
def _(m, a, fn):
    return Ref(m.ctx.new_cell(a[0]))
# ---- mem
@model(r"^(std|core)::mem::swap$")
def _(m, a, fn):
    x, y = m.load(a[0].cell, a[0].path), m.load(a[1].cell, a[1].path)
    m.store(a[0].cell, a[0].path, y); m.store(a[1].cell, a[1].path, x)
    return UNIT
@model(r"^(std|core)::mem::(replace|take)$")
def _(m, a, fn):
    x = m.load(a[0].cell, a[0].path)
    if "take" in fn["def"]: return NotImplemented
    m.store(a[0].cell, a[0].path, a[1])
    return x
@model(r"^(std|core)::mem::(drop|forget)$")
def _(m, a, fn):
    return UNIT
# ---- clone on Copy-like values
@model(r"clone::impls::<impl std::clone::Clone for (u8|u16|u32|u64|u128|usize|i32|i64|bool|&T)>::clone$|<&T as std::clone::Clone>::clone")
def _(m, a, fn):
    return m.load(a[0].cell, a[0].path)
@model(r"array::<impl std::clone::Clone for \[T; N\]>::clone$")
def _(m, a, fn):
    return m.load(a[0].cell, a[0].path)
# ---- panics
@model(r"panicking::|unwrap_failed|expect_failed|slice_index_fail|len_mismatch_fail|handle_alloc_error|slice_(start|end)_index|option::unwrap_failed")
def _(m, a, fn):
    raise Panic("call to " + fn["name"] + " from " + (m.stack[-1] if m.stack else "?"))
# ---- calling function values from models
def call_fn(m, f, args, fty=None):
    """call a closure / fn item value with the given arguments; f may be a value or a Ref to one"""
    if isinstance(f, Ref):
        inner = m.load(f.cell, f.path)
        if isinstance(inner, (Agg, FnV, Ref)): 
            return call_fn(m, inner, args, fty)
    if isinstance(f, FnV):
        return m.call(f.inst, list(args))
    if isinstance(f, Agg):
        tid = f.ty if f.ty is not None else fty
        ty = m.prog.tys.get(tid)
        while ty and ty["k"] in ("ref",):
            ty = m.prog.tys[ty["e"]]
        if ty and ty["k"] == "fndef":
            return m.call(ty["inst"], list(args))
        if ty and ty["k"] == "closure":
            fn = m.prog.fns[ty["once"]]
            if fn["ity"] == ty["id"] and fn.get("kind") == "item":
                b = fn
            else:
                b = None
                for x in m.prog.fns.values():
                    if x.get("ity") == ty["id"] and x.get("kind") == "item" and "bbs" in x:
                        b = x; break
                if b is None: b = fn
            # the body takes the closure by value or by reference
            t1 = m.prog.tys[b["locals"][1]]
            self_arg = Ref(m.ctx.new_cell(f)) if t1["k"] == "ref" else f
            if b["spread"] is not None:
                return m.call(b["id"], [self_arg, Agg(list(args))])
            return m.call(b["id"], [self_arg] + list(args))
    raise Unsupported("call of unknown function value")
def call_fn_mut(m, cell_ref, args, fty=None):
    """FnMut behind a reference: state changes are kept"""
    f = m.load(cell_ref.cell, cell_ref.path)
    while isinstance(f, Ref):
        cell_ref = f; f = m.load(f.cell, f.path)
    if isinstance(f, Agg):
        tid = f.ty if f.ty is not None else fty
        ty = m.prog.tys[tid]
        if ty["k"] == "closure":
            for x in m.prog.fns.values():
                if x.get("ity") == ty["id"] and "bbs" in x and m.prog.tys[x["locals"][1]]["k"] == "ref":
                    return m.call(x["id"], [cell_ref] + list(args)) if x["spread"] is None else m.call(x["id"], [cell_ref, Agg(list(args))])
    return call_fn(m, f, args, fty)
@model(r"array::<impl \[T; N\]>::map$")
def _(m, a, fn):
    fc = Ref(m.ctx.new_cell(a[1]))
    fty = [t for t in fn["args"] if not isinstance(t, str)][1]
    return Arr([call_fn_mut(m, fc, [x], fty) for x in a[0].items])
@model(r"intrinsics::integer_(min|max)$|^(std|core)::cmp::(min|max)$|<impl std::cmp::Ord for u\w+>::(min|max)$|cmp::Ord::(min|max)$")
def _(m, a, fn):
    x, y = a[0], a[1]
    if not (isinstance(x, Int) and isinstance(y, Int)): return NotImplemented
    ismin = fn["def"].endswith("min")
    lt = m.ctx.decide(m.ctx.lt(y, x))
    return (y if lt else x) if ismin else (x if lt else y)

@model(r"^std::vec::Vec::<T, A>::remove$")
def _(m, a, fn):
    v = val(m, a[0])
    if isinstance(v, Nat):
        if not (m.ctx.nrm(a[1]).is_const() and a[1].c() == 0): raise Unsupported("remove at a symbolic index")
        n = v.seqlen(m)
        if not m.ctx.decide(m.ctx.lt(K(0), K(n) if isinstance(n, int) else n)): raise Panic("remove index out of bounds")
        nv, x = v.remove0(m)
        m.store(a[0].cell, a[0].path, nv)
        return x
    i = cint(m, a[1])
    if i >= len(v.items): raise Panic("remove index out of bounds")
    m.store(a[0].cell, a[0].path, Arr(v.items[:i] + v.items[i + 1:]))
    return v.items[i]
@model(r"slice::<impl \[T\]>::contains$")
def _(m, a, fn):
    s = as_slice(m, a[0])
    r = FALSE
    for x in m.slice_items(s):
        r = m.ctx.or_(r, deep_eq(m, x, val(m, a[1])))
    return r
@model(r"slice::<impl \[T\]>::sort(_unstable)?(_by_key|_by_cached_key)$")
def _(m, a, fn):
    s = as_slice(m, a[0])
    v = m.load(s.cell, s.path)
    if isinstance(v, Nat) and v.kind == "symvec":
        m.store(s.cell, s.path, v.sort_hook(m, a[1], fn) if hasattr(v, "sort_hook") else m.bad("sort of symbolic vector"))
        return UNIT
    raise Unsupported("sort of concrete vector")
@model(r"^std::boxed::Box::<T>::new_uninit$")
def _(m, a, fn):
    return Ref(m.ctx.new_cell(UNDEF))
@model(r"boxed::box_assume_init_into_vec_unsafe$")
def _(m, a, fn):
    v = m.load(a[0].cell, a[0].path)
    while isinstance(v, Agg):
        v = v.f[-1]
    if not isinstance(v, Arr): raise Unsupported("vec! literal")
    return v
@model(r"str::<impl str>::(as_bytes|len|is_empty)$")
def _(m, a, fn):
    if fn["def"].endswith("as_bytes"): return a[0]
    return slen(a[0]) if fn["def"].endswith("len") else m.ctx.eq(slen(a[0]), K(0))
@model(r"^core::fmt::rt::(Argument|<impl std::fmt::Arguments)|^std::fmt::Arguments::<'_>::new(_|$)|^std::fmt::Arguments|^core::fmt::rt::Placeholder::new|fmt::rt::UnsafeArg")
def _(m, a, fn): return Nat("fmtargs")
@model(r"^std::string::String::(len|as_str|as_bytes|is_empty)$|^<std::string::String as std::ops::Deref>::deref$")
def _(m, a, fn):
    r = a[0]; v = m.load(r.cell, r.path)
    n = len(v.f[0].items); op = fn["def"].rsplit("::", 1)[1]
    if op == "len": return K(n)
    if op == "is_empty": return K(int(n == 0))
    return Ref(r.cell, r.path + (0,), (0, n))
@model(r"^<std::boxed::Box<T, A> as std::clone::Clone>::clone$|^<alloc::boxed::Box<T, A> as core::clone::Clone>::clone$")
def _(m, a, fn):
    b = m.load(a[0].cell, a[0].path)
    t = m.prog.tys[fn["args"][0]]["s"] if isinstance(fn["args"][0], int) else None
    f = m.prog.find(f"<{t} as std::clone::Clone>::clone")
    return Ref(m.ctx.new_cell(m.call(f["id"], [Ref(b.cell, b.path)]) if f is not None else m.load(b.cell, b.path)), (), b.meta)
from . import iters, maps
