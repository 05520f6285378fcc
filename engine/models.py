"""Semantics of the library functions (core/alloc/std and third-party) that the analysed code calls, over the abstract domain.
A model has the signature (it, st, fn, args, argtys, dty, where) -> [(state, value)] | NotImplemented."""
import math
import re
from terms import *
from interp import *

M = {}        # exact callee path -> model
PAT = []      # (regex, model)
NEXT = {}     # adt name -> model of Iterator::next taking (it, st, ptr, ty)
CONSTS = {}
FRESH = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def pat(rx):
    def d(f):
        PAT.append((re.compile(rx), f))
        return f
    return d


_lk = {}


def lookup(it, fn, name):
    for n in (name, fn["p"]):
        r = _lk.get(n, 0)
        if r == 0:
            r = M.get(n)
            if r is None:
                for rx, f in PAT:
                    if rx.fullmatch(n):
                        r = f
                        break
            _lk[n] = r
        if r is not None:
            return r
    return None


UNIT = Agg("tuple", None, [])
OPT = "core::option::Option"
RES = "core::result::Result"


def some(x):
    return Agg(OPT, 1, [x])


NONE = Agg(OPT, 0, [])


def ok(x):
    return Agg(RES, 0, [x])


def err(x):
    return Agg(RES, 1, [x])


def tup(*a):
    return Agg("tuple", None, a)


def one(st, v):
    return [(st, v)]


def split(st, c):
    """[(state, bool)] for a condition"""
    c = st.norm(c)
    d = st.decide(c)
    if d is not None:
        return [(st, d)]
    out = []
    for v in (1, 0):
        s = st.copy()
        s.nfork += 1
        s.conds = s.conds + ((c, v),)
        if s.assume(c, v):
            out.append((s, bool(v)))
    return out


# ---------------------------------------------------------------- helpers

def seq_of(it, st, v):
    """pointer to slice/array/Vec/Box<[T]> -> (cell, path, off, len)"""
    v = it.settle(st, v)
    if isinstance(v, Agg) and v.name in ("vec", "box"):
        c = it.newcell(st, v, None, "sv")
        v = Ptr(c)
    if not isinstance(v, Ptr):
        if isinstance(v, Opq):
            (c, p), meta = it.deref(st, v)
            x = st.mem.get(c)
            if not isinstance(x, ARR):
                ln = it.lensym(repr(v))
                st.mem[c] = SArr(repr(v), ln, elem_ty_guess(it))
            return c, p, ZERO, st.mem[c].len
        raise Undecided(f"sequence expected, got {v!r}")
    if v.meta is not None:
        return v.cell, v.path, v.meta[0], v.meta[1]
    x = it.settle(st, it.load(st, (v.cell, v.path)))
    if isinstance(x, Agg) and x.name == "vec":
        return v.cell, v.path + ("b",), ZERO, x.fields[0].len
    if isinstance(x, Agg) and x.name == "box":
        p = v.path + ("bx",)
        y = it.settle(st, x.fields[0])
        if isinstance(y, ARR):
            return v.cell, p, ZERO, y.len
        return seq_of(it, st, Ptr(v.cell, p))
    if isinstance(x, ARR):
        return v.cell, v.path, ZERO, x.len
    if isinstance(x, (Ptr,)):
        return seq_of(it, st, x)
    if isinstance(x, Opq):
        ln = it.lensym(repr(x))
        y = SArr(repr(x), ln, elem_ty_guess(it))
        it.store(st, (v.cell, v.path), y)
        return v.cell, v.path, ZERO, ln
    raise Undecided(f"sequence expected, got {x!r}")


def elem_ty_guess(it):
    return it.find_ty("u8")


def seq_val(it, st, v):
    """content (ARR) of a slice pointer / vec"""
    v = it.settle(st, v)
    if isinstance(v, ARR):
        return v
    if isinstance(v, Agg) and v.name in ("vec", "box"):
        return v.fields[0]
    c, p, off, ln = seq_of(it, st, v)
    return it.arr_slice(st, it.load(st, (c, p)), off, ln)


def vec(arr):
    return Agg("vec", None, [arr])


EMPTY = VArr([])


def cat(it, st, a, b):
    if isinstance(a, VArr) and isinstance(b, VArr):
        return VArr(a.el + b.el)
    if isinstance(a, VArr) and not a.el:
        return b
    if isinstance(b, VArr) and not b.el:
        return a
    pa = a.parts if isinstance(a, Cat) else (a,)
    pb = b.parts if isinstance(b, Cat) else (b,)
    if isinstance(pa[-1], VArr) and isinstance(pb[0], VArr):
        return Cat(pa[:-1] + (VArr(pa[-1].el + pb[0].el),) + pb[1:])
    return Cat(pa + pb)


def opq_call(it, st, fn, args, dty, where, extra=None):
    """an uninterpreted pure function of its arguments"""
    name = fn.get("rp") or fn["p"]
    vs = tuple(snap(it, st, a) for a in args)
    tag = "call:" + name
    if dty is None:
        return Opq(tag, *vs)
    t = it.T(dty)
    if t["k"] in ("int", "bool", "char"):
        lo, hi = it.rng(t)
        return P(atom("call", name, vs, lo=lo, hi=hi, w=None if t.get("sg") else (t.get("w") or (1 if t["k"] == "bool" else 21))))
    if t["k"] == "float":
        return F("call", (name,) + vs, t["w"])
    if t["k"] == "tuple" and not t["a"]:
        return UNIT
    if t["k"] == "adt" and it.adts.get(t["n"], {}).get("kind") == "enum" and "v" in t:
        return it.fresh(st, dty, repr(Opq(tag, *vs)))
    return Opq(tag, *vs)


def snap(it, st, a, d=0):
    """argument value with references resolved (for provenance)"""
    if d > 6:
        return a
    if isinstance(a, Ptr):
        try:
            if a.meta is not None:
                return seq_val(it, st, a)
            v = it.load(st, (a.cell, a.path))
            return snap(it, st, v, d + 1)
        except (Undecided, PathDead, Fork):
            return a
    if isinstance(a, Agg):
        return Agg(a.name, a.variant, [snap(it, st, x, d + 1) for x in a.fields], a.ty)
    if isinstance(a, VArr) and len(a.el) <= 64:
        return VArr([snap(it, st, x, d + 1) for x in a.el])
    return a


def tyname(it, i):
    return it.tn(i) if i is not None else ""


# ---------------------------------------------------------------- slices and indexing

def range_of(it, st, iv, ln):
    """index value -> ('i', idx) | ('r', lo, hi)"""
    iv = it.settle(st, iv)
    if isinstance(iv, Poly):
        return ("i", iv)
    n = iv.name if isinstance(iv, Agg) else ""
    n = (n or "").split("::")[-1]
    f = [it.as_int(st, x) for x in iv.fields[:2]] if isinstance(iv, Agg) else None
    if n == "Range":
        return ("r", f[0], f[1])
    if n == "RangeTo":
        return ("r", ZERO, f[0])
    if n == "RangeFrom":
        return ("r", f[0], ln)
    if n == "RangeFull":
        return ("r", ZERO, ln)
    if n == "RangeInclusive":
        return ("r", f[0], f[1] + 1)
    if n == "RangeToInclusive":
        return ("r", ZERO, f[0] + 1)
    raise Undecided(f"index by {iv!r}")


def need(it, st, conds, kind, msg, where):
    """obligation: all conds hold; afterwards they are assumed"""
    good = all(st.decide(c) is True for c in conds)
    allc = ONE
    for c in conds:
        allc = allc * c
    it.oblige(st, good, kind, msg, where, allc)
    for c in conds:
        d = st.decide(c)
        if d is False:
            raise PathDead()
        if d is None:
            st.conds = st.conds + ((c, 1),)
            if not st.assume(c, 1):
                raise PathDead()


@pat(r"<(\[T\]|\[T;\s*N\]|alloc::vec::Vec<T,\s*A>) as core::ops::index::Index(Mut)?<I>>::index(_mut)?")
def m_index(it, st, fn, args, aty, dty, where):
    c, p, off, ln = seq_of(it, st, args[0])
    r = range_of(it, st, args[1], ln)
    if r[0] == "i":
        need(it, st, [le0(r[1] + 1 - ln)], "bounds", "index out of bounds", where)
        return one(st, Ptr(c, p + (("i", off + r[1]),)))
    lo, hi = r[1], r[2]
    need(it, st, [le0(lo - hi), le0(hi - ln)], "bounds", "slice index out of bounds", where)
    return one(st, Ptr(c, p, (off + lo, hi - lo)))


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def m_get(it, st, fn, args, aty, dty, where):
    c, p, off, ln = seq_of(it, st, args[0])
    r = range_of(it, st, args[1], ln)
    cond = le0(r[1] + 1 - ln) if r[0] == "i" else le0(r[1] - r[2]) * le0(r[2] - ln)
    res = []
    for s, b in split(st, cond):
        if b:
            v = Ptr(c, p + (("i", off + r[1]),)) if r[0] == "i" else Ptr(c, p, (off + r[1], r[2] - r[1]))
            res.append((s, some(v)))
        else:
            res.append((s, NONE))
    return res


@model("core::slice::<impl [T]>::get_unchecked", "core::slice::<impl [T]>::get_unchecked_mut")
def m_get_unchecked(it, st, fn, args, aty, dty, where):
    return m_index(it, st, fn, args, aty, dty, where)


@model("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last", "core::slice::<impl [T]>::first_mut", "core::slice::<impl [T]>::last_mut")
def m_first(it, st, fn, args, aty, dty, where):
    c, p, off, ln = seq_of(it, st, args[0])
    res = []
    for s, b in split(st, le0(ONE - ln)):
        i = off if "first" in fn["p"] else off + ln - 1
        res.append((s, some(Ptr(c, p + (("i", i),))) if b else NONE))
    return res


@model("core::slice::<impl [T]>::split_first", "core::slice::<impl [T]>::split_last")
def m_split_first(it, st, fn, args, aty, dty, where):
    c, p, off, ln = seq_of(it, st, args[0])
    res = []
    for s, b in split(st, le0(ONE - ln)):
        if not b:
            res.append((s, NONE))
        elif "first" in fn["p"]:
            res.append((s, some(tup(Ptr(c, p + (("i", off),)), Ptr(c, p, (off + 1, ln - 1))))))
        else:
            res.append((s, some(tup(Ptr(c, p + (("i", off + ln - 1),)), Ptr(c, p, (off, ln - 1))))))
    return res


@model("core::slice::<impl [T]>::len", "alloc::vec::Vec::len", "core::ptr::metadata::len")
def m_len(it, st, fn, args, aty, dty, where):
    return one(st, seq_of(it, st, args[0])[3])


@model("core::slice::<impl [T]>::is_empty", "alloc::vec::Vec::is_empty")
def m_is_empty(it, st, fn, args, aty, dty, where):
    return one(st, eq0(seq_of(it, st, args[0])[3]))


@model("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "core::slice::iter::Iter::new", "core::slice::iter::IterMut::new",
       "<&[T] as core::iter::traits::collect::IntoIterator>::into_iter", "<&mut [T] as core::iter::traits::collect::IntoIterator>::into_iter",
       "<&alloc::vec::Vec<T,A> as core::iter::traits::collect::IntoIterator>::into_iter", "<&[T;N] as core::iter::traits::collect::IntoIterator>::into_iter")
def m_iter(it, st, fn, args, aty, dty, where):
    c, p, off, ln = seq_of(it, st, args[0])
    return one(st, Agg("slice_iter", None, [Ptr(c, p), off, off + ln]))


def slice_iter_next(it, st, ptr, ty, back=False):
    v = it.ptr_load(st, ptr)
    if not (isinstance(v, Agg) and v.name == "slice_iter"):
        raise Undecided(f"iterator state {v!r}")
    base, pos, end = v.fields
    (c, p), _ = it.deref(st, base)
    res = []
    for s, b in split(st, le0(pos - end + 1)):
        if b:
            if back:
                it.store(s, (ptr.cell, ptr.path), Agg("slice_iter", None, [base, pos, end - 1]))
                res.append((s, some(Ptr(c, p + (("i", end - 1),)))))
            else:
                it.store(s, (ptr.cell, ptr.path), Agg("slice_iter", None, [base, pos + 1, end]))
                res.append((s, some(Ptr(c, p + (("i", pos),)))))
        else:
            res.append((s, NONE))
    return res


NEXT["core::slice::iter::Iter"] = slice_iter_next
NEXT["core::slice::iter::IterMut"] = slice_iter_next


@pat(r"<core::slice::iter::Iter(Mut)?<T> as core::iter::traits::iterator::Iterator>::next")
def m_iter_next(it, st, fn, args, aty, dty, where):
    return slice_iter_next(it, st, as_ptr(it, st, args[0]), None)


@pat(r"<core::slice::iter::Iter(Mut)?<T> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back")
def m_iter_next_back(it, st, fn, args, aty, dty, where):
    return slice_iter_next(it, st, as_ptr(it, st, args[0]), None, True)


def as_ptr(it, st, v):
    v = it.settle(st, v)
    if isinstance(v, Ptr):
        return v
    raise Undecided(f"reference expected, got {v!r}")


@pat(r"<core::slice::iter::Iter(Mut)?<T> as core::iter::traits::(iterator::Iterator>::size_hint|exact_size::ExactSizeIterator>::len)")
def m_iter_hint(it, st, fn, args, aty, dty, where):
    v = it.ptr_load(st, as_ptr(it, st, args[0]))
    n = v.fields[2] - v.fields[1]
    if "len" in fn["p"].split("::")[-1]:
        return one(st, n)
    return one(st, tup(n, some(n)))


@pat(r"<core::slice::iter::Iter(Mut)?<T> as core::clone::Clone>::clone")
def m_iter_clone(it, st, fn, args, aty, dty, where):
    return one(st, it.ptr_load(st, as_ptr(it, st, args[0])))


@model("core::slice::iter::Iter::as_slice")
def m_iter_as_slice(it, st, fn, args, aty, dty, where):
    v = it.ptr_load(st, as_ptr(it, st, args[0]))
    b = v.fields[0]
    return one(st, Ptr(b.cell, b.path, (v.fields[1], v.fields[2] - v.fields[1])))


@model("core::slice::<impl [T]>::chunks_exact", "core::slice::<impl [T]>::chunks", "core::slice::<impl [T]>::windows")
def m_chunks(it, st, fn, args, aty, dty, where):
    c, p, off, ln = seq_of(it, st, args[0])
    n = it.as_int(st, args[1])
    need(it, st, [le0(ONE - n)], "panic", "chunk size must be non-zero", where)
    return one(st, Agg("slice_" + fn["p"].split("::")[-1], None, [Ptr(c, p), off, off + ln, n]))


def chunks_next(it, st, ptr, ty):
    v = it.ptr_load(st, ptr)
    base, pos, end, n = v.fields
    res = []
    k = v.name.split("_", 1)[1]
    cond = le0(pos + n - end) if k != "chunks" else le0(pos + 1 - end)
    for s, b in split(st, cond):
        if not b:
            res.append((s, NONE))
            continue
        if k == "windows":
            it.store(s, (ptr.cell, ptr.path), Agg(v.name, None, [base, pos + 1, end, n]))
            res.append((s, some(Ptr(base.cell, base.path, (pos, n)))))
        elif k == "chunks_exact":
            it.store(s, (ptr.cell, ptr.path), Agg(v.name, None, [base, pos + n, end, n]))
            res.append((s, some(Ptr(base.cell, base.path, (pos, n)))))
        else:
            for s2, b2 in split(s, le0(pos + n - end)):
                if b2:
                    it.store(s2, (ptr.cell, ptr.path), Agg(v.name, None, [base, pos + n, end, n]))
                    res.append((s2, some(Ptr(base.cell, base.path, (pos, n)))))
                else:
                    it.store(s2, (ptr.cell, ptr.path), Agg(v.name, None, [base, end, end, n]))
                    res.append((s2, some(Ptr(base.cell, base.path, (pos, end - pos)))))
    return res


for _k in ("ChunksExact", "Chunks", "Windows"):
    NEXT["core::slice::iter::" + _k] = chunks_next


@pat(r"<core::slice::iter::(ChunksExact|Chunks|Windows)<T> as core::iter::traits::iterator::Iterator>::next")
def m_chunks_next(it, st, fn, args, aty, dty, where):
    return chunks_next(it, st, as_ptr(it, st, args[0]), None)


@pat(r"<core::slice::iter::(ChunksExact|Chunks|Windows)<T> as core::iter::traits::iterator::Iterator>::size_hint")
def m_chunks_hint(it, st, fn, args, aty, dty, where):
    v = it.ptr_load(st, as_ptr(it, st, args[0]))
    base, pos, end, n = v.fields
    tot = end - pos
    T64 = dict(k="int", w=64, sg=False, s="usize")
    if v.name.endswith("windows"):
        x = ite(le0(tot - n + 1), ZERO, tot - n + 1)
    elif v.name.endswith("exact"):
        x = it.binop(st, "Div", tot, n, T64, T64)
    else:
        x = it.binop(st, "Div", tot + n - 1, n, T64, T64)
    return one(st, tup(x, some(x)))


@model("core::slice::<impl [T]>::contains")
def m_contains(it, st, fn, args, aty, dty, where):
    a = seq_val(it, st, args[0])
    x = it.ptr_load(st, args[1])
    if isinstance(a, VArr) and all(isinstance(e, Poly) for e in a.el) and isinstance(x, Poly):
        r = ZERO
        if len(a.el) <= 12:
            for e in a.el:
                q = it.cond_eq(st, x, e)
                r = r + q - r * q
            return one(st, r)
        # many constants: partition on membership by trying each
        out = []
        cur = st
        for e in a.el:
            q = it.cond_eq(st, x, e)
            nxt = None
            for s, b in split(cur, q):
                if b:
                    out.append((s, ONE))
                else:
                    nxt = s
            if nxt is None:
                return out
            cur = nxt
        return out + [(cur, ZERO)]
    return one(st, P(atom("contains", a, snap(it, st, x), lo=0, hi=1, w=1)))


@pat(r"core::slice::<impl \[T\]>::(copy_from_slice|clone_from_slice)|core::slice::copy_from_slice_impl")
def m_copy_from(it, st, fn, args, aty, dty, where):
    c, p, off, ln = seq_of(it, st, args[0])
    src = seq_val(it, st, args[1])
    need(it, st, [eq0(ln - src.len)], "panic", "copy_from_slice: lengths differ", where)
    it.store(st, (c, p), it.arr_write(st, it.load(st, (c, p)), off, src))
    return one(st, UNIT)


@model("core::slice::<impl [T]>::fill")
def m_fill(it, st, fn, args, aty, dty, where):
    c, p, off, ln = seq_of(it, st, args[0])
    it.store(st, (c, p), it.arr_write(st, it.load(st, (c, p)), off, Fill(args[1], ln)))
    return one(st, UNIT)


@pat(r"(alloc::slice::<impl \[T\]>::(to_vec|into_vec|to_vec_in)|<T as alloc::slice::<impl \[T\]>::to_vec_in::ConvertVec>::to_vec|<\[T\] as alloc::borrow::ToOwned>::to_owned|alloc::slice::hack::(into_vec|to_vec)|<alloc::vec::Vec<T(,A)?> as core::convert::From<(&\[T\]|&mut \[T\]|\[T;N\]|&\[T;N\]|alloc::boxed::Box<\[T\](,A)?>)>>::from)")
def m_to_vec(it, st, fn, args, aty, dty, where):
    return one(st, vec(seq_val(it, st, args[0])))


@pat(r"<alloc::boxed::Box<\[T\](,A)?> as core::convert::From<(&\[T\]|&mut \[T\]|\[T;N\]|alloc::vec::Vec<T(,A)?>)>>::from")
def m_box_from(it, st, fn, args, aty, dty, where):
    return one(st, Agg("box", "sl", [seq_val(it, st, args[0])]))


@model("core::slice::<impl [T]>::split_at", "core::slice::<impl [T]>::split_at_mut")
def m_split_at(it, st, fn, args, aty, dty, where):
    c, p, off, ln = seq_of(it, st, args[0])
    m = it.as_int(st, args[1])
    need(it, st, [le0(m - ln)], "panic", "split_at: mid > len", where)
    return one(st, tup(Ptr(c, p, (off, m)), Ptr(c, p, (off + m, ln - m))))


@model("core::slice::<impl [T]>::reverse")
def m_reverse(it, st, fn, args, aty, dty, where):
    c, p, off, ln = seq_of(it, st, args[0])
    a = seq_val(it, st, args[0])
    it.store(st, (c, p), it.arr_write(st, it.load(st, (c, p)), off, rev_arr(a)))
    return one(st, UNIT)


def rev_arr(a):
    if isinstance(a, VArr):
        return VArr(reversed(a.el))
    if isinstance(a, Fill):
        return a
    if isinstance(a, Rev):
        return a.base
    return Rev(a)


@model("core::slice::<impl [T]>::swap")
def m_swap(it, st, fn, args, aty, dty, where):
    c, p, off, ln = seq_of(it, st, args[0])
    i, j = it.as_int(st, args[1]), it.as_int(st, args[2])
    need(it, st, [le0(i + 1 - ln), le0(j + 1 - ln)], "bounds", "index out of bounds", where)
    a = it.load(st, (c, p))
    x, y = it.arr_get(st, a, off + i), it.arr_get(st, a, off + j)
    a = it.arr_set(st, a, off + i, y)
    it.store(st, (c, p), it.arr_set(st, a, off + j, x))
    return one(st, UNIT)


@pat(r"core::slice::<impl \[T\]>::sort(_unstable)?(_by|_by_key)?|alloc::slice::<impl \[T\]>::sort(_by|_by_key)?|core::slice::sort::unstable::sort")
def m_sort(it, st, fn, args, aty, dty, where):
    c, p, off, ln = seq_of(it, st, args[0])
    a = seq_val(it, st, args[0])
    st.events = st.events + (("sort", a),)
    it.store(st, (c, p), it.arr_write(st, it.load(st, (c, p)), off, SArr("sorted(" + repr(a) + ")", ln, arr_ety(a))))
    return one(st, UNIT)


def arr_ety(a):
    return getattr(a, "ety", None)


@pat(r"core::slice::<impl \[T\]>::(starts_with|ends_with)")
def m_starts(it, st, fn, args, aty, dty, where):
    a, b = seq_val(it, st, args[0]), seq_val(it, st, args[1])
    n = st.norm(b.len)
    res = []
    for s, okl in split(st, le0(n - a.len)):
        if not okl:
            res.append((s, ZERO))
            continue
        off = ZERO if "starts" in fn["p"] else a.len - n
        res.append((s, arr_eq(it, s, it.arr_slice(s, a, off, n), b)))
    return res


def arr_eq(it, st, a, b):
    la, lb = st.norm(a.len), st.norm(b.len)
    if la.const is not None and lb.const is not None:
        if la.const != lb.const:
            return ZERO
        if la.const <= 32:
            r = ONE
            for i in range(la.const):
                r = r * val_eq(it, st, it.arr_get(st, a, P(i)), it.arr_get(st, b, P(i)))
            return r
    if a == b:
        return ONE
    n = la.const if la.const is not None else lb.const
    if n is not None and n <= 32:
        le = eq0(la - lb)
        r = le
        for i in range(n):
            r = r * val_eq(it, st, it.arr_get(st, a, P(i)), it.arr_get(st, b, P(i)))
        return r
    return P(atom("arreq", a, b, lo=0, hi=1, w=1))


def val_eq(it, st, x, y):
    if isinstance(x, Poly) and isinstance(y, Poly):
        return it.cond_eq(st, x, y)
    if isinstance(x, F) and isinstance(y, F):
        return it.fcmp("Eq", x, y)
    if isinstance(x, Ptr):
        return val_eq(it, st, it.ptr_load(st, x), y)
    if isinstance(y, Ptr):
        return val_eq(it, st, x, it.ptr_load(st, y))
    if isinstance(x, ARR) and isinstance(y, ARR):
        return arr_eq(it, st, x, y)
    if isinstance(x, Opq) and isinstance(y, Opq) and x.tag == "str" and y.tag == "str":
        return ONE if x == y else ZERO
    if isinstance(x, Agg) and isinstance(y, Agg) and x.name == y.name:
        if x.variant != y.variant:
            return ZERO
        r = ONE
        for a, b in zip(x.fields, y.fields):
            r = r * val_eq(it, st, a, b)
        return r
    if x == y and not isinstance(x, F):
        return ONE
    return P(atom("valeq", x, y, lo=0, hi=1, w=1))


@pat(r"<(\[T\]|\[T;N\]|&\[T\]|alloc::vec::Vec<T,A1?>|\[T;N\]|&\[B\]|\[U;N\]|&\[U;N\]) as core::cmp::PartialEq<.*>>::(eq|ne)")
def m_slice_eq(it, st, fn, args, aty, dty, where):
    a, b = args
    r = arr_eq(it, st, seq_val(it, st, deep(it, st, a)), seq_val(it, st, deep(it, st, b)))
    return one(st, r if (fn.get("rp") or fn["p"]).endswith("eq") else ONE - r)


def deep(it, st, p):
    """strip references to references"""
    while isinstance(p, Ptr) and p.meta is None:
        v = it.load(st, (p.cell, p.path))
        if isinstance(v, Ptr):
            p = v
        else:
            break
    return p


@pat(r"(<str as core::cmp::PartialEq(<str>)?>|core::str::traits::<impl core::cmp::PartialEq for str>|<alloc::string::String as core::cmp::PartialEq.*>)::(eq|ne)")
def m_str_eq(it, st, fn, args, aty, dty, where):
    x, y = (strv(it, st, a) for a in args)
    if x.tag == "str" and y.tag == "str":
        r = ONE if x == y else ZERO
    elif "toks" in (x.tag, y.tag):
        import strmodels
        r = strmodels.text_eq(it, st, x, y)
    elif x == y:
        r = ONE
    else:
        r = P(atom("streq", *sorted((x, y), key=repr), lo=0, hi=1, w=1))
    return one(st, r if (fn.get("rp") or fn["p"]).endswith("eq") else ONE - r)


def strv(it, st, v):
    v = it.settle(st, v)
    n = 0
    while isinstance(v, Ptr) and n < 6:
        v = it.settle(st, it.load(st, (v.cell, v.path)))
        n += 1
    if isinstance(v, Agg) and v.name == "box":
        return strv(it, st, v.fields[0])
    if not isinstance(v, Opq):
        v = Opq("strof", v)
    return v


# ---------------------------------------------------------------- Vec, Box

@pat(r"alloc::vec::Vec::(new|with_capacity|with_capacity_in|new_in)|<alloc::vec::Vec(<T>)? as core::default::Default>::default")
def m_vec_new(it, st, fn, args, aty, dty, where):
    return one(st, vec(EMPTY))


@model("alloc::vec::from_elem", "<T as alloc::vec::spec_from_elem::SpecFromElem>::from_elem")
def m_from_elem(it, st, fn, args, aty, dty, where):
    n = st.norm(it.as_int(st, args[1]))
    h = it.hooks.get("alloc")
    if h:
        h(it, st, n, where)
    need(it, st, [le0(n - (1 << 63) + 1)], "capacity", "vector larger than the address space", where)
    if n.const is not None and n.const <= 64:
        return one(st, vec(VArr([args[0]] * n.const)))
    return one(st, vec(Fill(args[0], n)))


@model("alloc::vec::Vec::push")
def m_push(it, st, fn, args, aty, dty, where):
    p = as_ptr(it, st, args[0])
    v = it.settle(st, it.load(st, (p.cell, p.path)))
    if not (isinstance(v, Agg) and v.name == "vec"):
        raise Undecided(f"push to {v!r}")
    a = it.settle(st, v.fields[0])
    it.store(st, (p.cell, p.path), vec(cat(it, st, a, VArr([args[1]]))))
    return one(st, UNIT)


@model("alloc::vec::Vec::pop")
def m_pop(it, st, fn, args, aty, dty, where):
    p = as_ptr(it, st, args[0])
    a = seq_val(it, st, p)
    res = []
    for s, b in split(st, eq0(a.len)):
        if b:
            res.append((s, NONE))
        else:
            x = it.arr_get(s, a, a.len - 1)
            it.store(s, (p.cell, p.path), vec(it.arr_slice(s, a, ZERO, a.len - 1)))
            res.append((s, some(x)))
    return res


@model("alloc::vec::Vec::clear")
def m_clear(it, st, fn, args, aty, dty, where):
    p = as_ptr(it, st, args[0])
    it.store(st, (p.cell, p.path), vec(EMPTY))
    return one(st, UNIT)


@model("alloc::vec::Vec::truncate")
def m_truncate(it, st, fn, args, aty, dty, where):
    p = as_ptr(it, st, args[0])
    a = seq_val(it, st, p)
    n = it.as_int(st, args[1])
    res = []
    for s, b in split(st, le0(a.len - n)):
        if not b:
            it.store(s, (p.cell, p.path), vec(it.arr_slice(s, a, ZERO, n)))
        res.append((s, UNIT))
    return res


@model("alloc::vec::Vec::resize")
def m_resize(it, st, fn, args, aty, dty, where):
    p = as_ptr(it, st, args[0])
    a = seq_val(it, st, p)
    n = it.as_int(st, args[1])
    res = []
    for s, b in split(st, le0(n - a.len)):
        if b:
            it.store(s, (p.cell, p.path), vec(it.arr_slice(s, a, ZERO, n)))
        else:
            it.store(s, (p.cell, p.path), vec(cat(it, s, a, Fill(args[2], n - a.len))))
        res.append((s, UNIT))
    return res


@model("alloc::vec::Vec::append")
def m_append(it, st, fn, args, aty, dty, where):
    p, q = as_ptr(it, st, args[0]), as_ptr(it, st, args[1])
    it.store(st, (p.cell, p.path), vec(cat(it, st, seq_val(it, st, p), seq_val(it, st, q))))
    it.store(st, (q.cell, q.path), vec(EMPTY))
    return one(st, UNIT)


@model("alloc::vec::Vec::extend_from_slice")
def m_extend_slice(it, st, fn, args, aty, dty, where):
    p = as_ptr(it, st, args[0])
    it.store(st, (p.cell, p.path), vec(cat(it, st, seq_val(it, st, p), seq_val(it, st, args[1]))))
    return one(st, UNIT)


@pat(r"alloc::vec::Vec::(reserve|reserve_exact|shrink_to_fit|shrink_to)")
def m_reserve(it, st, fn, args, aty, dty, where):
    return one(st, UNIT)


@model("alloc::vec::Vec::capacity")
def m_capacity(it, st, fn, args, aty, dty, where):
    return one(st, P(atom("capacity", snap(it, st, args[0]), lo=0, hi=1 << 62)))


@pat(r"(<alloc::vec::Vec<T,A> as (core::ops::deref::Deref(Mut)?>::deref(_mut)?|core::convert::As(Ref|Mut)<\[T\]>>::as_(ref|mut)|core::borrow::Borrow<\[T\]>>::borrow)|alloc::vec::Vec::as_(mut_)?slice|<\[T(;N)?\] as core::convert::As(Ref|Mut)<\[T\]>>::as_(ref|mut)|core::array::<impl \[T;\s*N\]>::as_(mut_)?slice|<\[T\] as core::borrow::Borrow<\[T\]>>::borrow)")
def m_deref_vec(it, st, fn, args, aty, dty, where):
    c, p, off, ln = seq_of(it, st, args[0])
    return one(st, Ptr(c, p, (off, ln)))


@pat(r"<alloc::boxed::Box<T(,A)?> as (core::convert::As(Ref|Mut)<T>>::as_(ref|mut)|core::ops::deref::Deref(Mut)?>::deref(_mut)?|core::borrow::Borrow<T>>::borrow)")
def m_box_ref(it, st, fn, args, aty, dty, where):
    p = as_ptr(it, st, args[0])
    v = it.settle(st, it.load(st, (p.cell, p.path)))
    if isinstance(v, Agg) and v.name == "box":
        return one(st, Ptr(p.cell, p.path + ("bx",), it.box_meta(v)))
    return one(st, v if isinstance(v, Ptr) else p)


@pat(r"<&(mut )?T as core::(convert::As(Ref|Mut)<U>>::as_(ref|mut)|ops::deref::Deref(Mut)?>::deref(_mut)?)|<&T as core::borrow::Borrow<T>>::borrow")
def m_ref_ref(it, st, fn, args, aty, dty, where):
    v = it.load(st, (args[0].cell, args[0].path)) if isinstance(args[0], Ptr) else args[0]
    if "AsRef" in fn["p"] or "AsMut" in fn["p"]:
        # forwards to the referent's as_ref
        x = it.settle(st, it.load(st, (v.cell, v.path))) if isinstance(v, Ptr) and v.meta is None else v
        if isinstance(x, Agg) and x.name in ("vec", "box") or isinstance(x, ARR) or isinstance(v, Ptr) and v.meta is not None:
            c, p, off, ln = seq_of(it, st, v)
            return one(st, Ptr(c, p, (off, ln)))
        return NotImplemented
    return one(st, v)


@model("alloc::vec::Vec::into_boxed_slice")
def m_into_boxed(it, st, fn, args, aty, dty, where):
    return one(st, Agg("box", "sl", [seq_val(it, st, args[0])]))


@model("alloc::boxed::Box::new", "alloc::boxed::box_new")
def m_box_new(it, st, fn, args, aty, dty, where):
    return one(st, Agg("box", None, [args[0]]))


@model("alloc::boxed::Box::into_raw", "alloc::boxed::Box::leak")
def m_box_into_raw(it, st, fn, args, aty, dty, where):
    v = it.settle(st, args[0])
    c = it.newcell(st, v.fields[0] if isinstance(v, Agg) else v, None, "raw")
    st.events = st.events + (("into_raw", c),)
    return one(st, Ptr(c, (), it.box_meta(v) if isinstance(v, Agg) else None))


@model("alloc::boxed::Box::from_raw")
def m_box_from_raw(it, st, fn, args, aty, dty, where):
    p = it.settle(st, args[0])
    st.events = st.events + (("from_raw", p),)
    if isinstance(p, Ptr):
        return one(st, Agg("box", "sl" if p.meta else None, [it.ptr_load(st, p)]))
    return one(st, Agg("box", None, [Opq("deref", p)]))


@pat(r"<alloc::vec::Vec<T(,A)?> as core::iter::traits::collect::IntoIterator>::into_iter|<alloc::boxed::Box<\[(T|I)\](,A)?> as core::iter::traits::collect::IntoIterator>::into_iter|<\[T;N\] as core::iter::traits::collect::IntoIterator>::into_iter|core::array::iter::.*into_iter|alloc::vec::Vec::drain")
def m_vec_into_iter(it, st, fn, args, aty, dty, where):
    v = it.settle(st, args[0])
    if isinstance(v, Agg) and v.name in ("vec", "box") and isinstance(v.fields[0], Ite):
        return [(s, Agg("vec_iter", None, [x, ZERO, x.len])) for s, x in it.settle_all(st, v.fields[0])] if all(
            isinstance(x, ARR) for s, x in it.settle_all(st.copy(), v.fields[0])) else NotImplemented
    if isinstance(v, Ite):
        return [r for s, x in it.settle_all(st, v) for r in m_vec_into_iter(it, s, fn, [x], aty, dty, where)]
    a = seq_val(it, st, v)
    if fn["p"].endswith("drain"):
        p = as_ptr(it, st, args[0])
        r = range_of(it, st, args[1], a.len)
        if not (st.norm(r[1]).const == 0 and st.norm(r[2] - a.len).const == 0):
            return NotImplemented
        it.store(st, (p.cell, p.path), vec(EMPTY))
    return one(st, Agg("vec_iter", None, [a, ZERO, a.len]))


def vec_iter_next(it, st, ptr, ty, back=False):
    v = it.ptr_load(st, ptr)
    if not (isinstance(v, Agg) and v.name == "vec_iter"):
        raise Undecided(f"iterator state {v!r}")
    a, pos, end = v.fields
    res = []
    for s, b in split(st, le0(pos - end + 1)):
        if b:
            i = end - 1 if back else pos
            x = it.arr_get(s, a, i)
            it.store(s, (ptr.cell, ptr.path), Agg("vec_iter", None, [a, pos, end - 1] if back else [a, pos + 1, end]))
            res.append((s, some(x)))
        else:
            res.append((s, NONE))
    return res


for _k in ("alloc::vec::into_iter::IntoIter", "core::array::iter::IntoIter", "alloc::vec::drain::Drain"):
    NEXT[_k] = vec_iter_next


@pat(r"<(alloc::vec::into_iter::IntoIter<T,A>|core::array::iter::IntoIter<T,N>|alloc::vec::drain::Drain<T,A>) as core::iter::traits::iterator::Iterator>::next")
def m_vec_next(it, st, fn, args, aty, dty, where):
    return vec_iter_next(it, st, as_ptr(it, st, args[0]), None)


@pat(r"<(alloc::vec::into_iter::IntoIter<T,A>|core::array::iter::IntoIter<T,N>) as core::iter::traits::double_ended::DoubleEndedIterator>::next_back")
def m_vec_next_back(it, st, fn, args, aty, dty, where):
    return vec_iter_next(it, st, as_ptr(it, st, args[0]), None, True)


@pat(r"<(alloc::vec::into_iter::IntoIter<T,A>|core::array::iter::IntoIter<T,N>) as core::iter::traits::iterator::Iterator>::size_hint")
def m_vec_hint(it, st, fn, args, aty, dty, where):
    v = it.ptr_load(st, as_ptr(it, st, args[0]))
    n = v.fields[2] - v.fields[1]
    return one(st, tup(n, some(n)))


# ---------------------------------------------------------------- clone, default, conversions

@pat(r".* as core::clone::Clone>::clone|core::clone::Clone::clone|core::clone::impls::.*clone|.* as alloc::borrow::ToOwned>::to_owned|core::option::Option::<?&?T?>?::?cloned")
def m_clone(it, st, fn, args, aty, dty, where):
    if fn.get("inst") in it.bodies:
        return NotImplemented
    p = it.settle(st, args[0])
    if "ToOwned" in fn["p"] and isinstance(p, Ptr):
        return one(st, strv(it, st, p))
    if isinstance(p, Ptr):
        return one(st, it.ptr_load(st, p))
    return one(st, Opq("clone", p))


@pat(r"(<T as core::convert::(TryInto<U>>::try_into|TryFrom<U>>::try_from)|<\[T;\s*N\] as core::convert::TryFrom<.*>>::try_from|<&\[T;\s*N\] as core::convert::TryFrom<.*>>::try_from|<[ui]\w+ as core::convert::TryFrom<[ui]\w+>>::try_from|core::convert::num::.*try_from)")
def m_try(it, st, fn, args, aty, dty, where):
    t = it.T(dty)
    if t.get("n") != RES:
        return NotImplemented
    okt = it.T(t["v"][0][0])
    a = it.settle(st, args[0])
    if okt["k"] == "array" or okt["k"] == "ref" and it.T(okt["t"])["k"] == "array":
        arr = seq_val(it, st, a)
        n = (okt if okt["k"] == "array" else it.T(okt["t"])).get("len")
        if n is None:
            return NotImplemented
        res = []
        for s, b in split(st, eq0(arr.len - n)):
            if not b:
                res.append((s, err(Opq("TryFromSliceError"))))
            elif okt["k"] == "array":
                res.append((s, ok(VArr([it.arr_get(s, arr, P(i)) for i in range(n)]) if n <= 64 else arr)))
            else:
                c, p, off, ln = seq_of(it, s, a)
                res.append((s, ok(Ptr(c, p, None) if st.norm(off).const == 0 else Ptr(c, p + (("sl", off, P(n)),), None))))
        return res
    if okt["k"] == "int" and isinstance(a, Poly) and fn.get("inst") not in it.bodies:
        lo, hi = it.rng(okt)
        res = []
        for s, b in split(st, le0(a - hi) * le0(P(lo) - a)):
            res.append((s, ok(a) if b else err(Opq("TryFromIntError"))))
        return res
    return NotImplemented


@pat(r"<(u8|u16|u32|u64|usize|i8|i16|i32|i64|isize) as num_traits::cast::ToPrimitive>::to_(\w+)|num_traits::cast::ToPrimitive::to_\w+")
def m_toprim(it, st, fn, args, aty, dty, where):
    v = it.settle(st, it.ptr_load(st, args[0]))
    if not isinstance(v, Poly):
        return NotImplemented
    t = it.T(dty)
    okt = it.T(t["v"][1][0])
    if okt["k"] == "float":
        return one(st, some(it.cast(st, "IntToFloat", v, okt, None)))
    lo, hi = it.rng(okt)
    res = []
    for s, b in split(st, le0(v - hi) * le0(P(lo) - v)):
        res.append((s, some(v) if b else NONE))
    return res


@pat(r"<(f32|f64) as core::convert::From<\w+>>::from")
def m_ffrom(it, st, fn, args, aty, dty, where):
    t = it.T(dty)
    a = args[0]
    if isinstance(a, F):
        return one(st, it.cast(st, "FloatToFloat", a, t, None))
    return one(st, it.cast(st, "IntToFloat", it.as_int(st, a), t, None))


@pat(r"<(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize) as core::convert::From<(u8|u16|u32|u64|usize|i8|i16|i32|i64|bool|char)>>::from")
def m_ifrom(it, st, fn, args, aty, dty, where):
    return one(st, it.as_int(st, it.settle(st, args[0])))


@model("<T as core::convert::From<T>>::from", "core::convert::identity")
def m_id(it, st, fn, args, aty, dty, where):
    return one(st, args[0])


# ---------------------------------------------------------------- integers

def ibytes(it, st, a):
    arr = seq_val(it, st, a) if not isinstance(a, ARR) else a
    n = st.norm(arr.len).const
    return [it.as_int(st, it.arr_get(st, arr, P(i))) for i in range(n)]


@pat(r"core::num::<impl (\w+)>::from_(be|le|ne)_bytes")
def m_from_bytes(it, st, fn, args, aty, dty, where):
    bs = ibytes(it, st, it.settle(st, args[0]))
    if "_be_" in fn["p"]:
        bs = bs[::-1]
    r = ZERO
    for i, b in enumerate(bs):
        r = r + b * (1 << (8 * i))
    t = it.T(dty) if dty is not None else dict(k="int", w=8 * len(bs), sg=fn["p"].split("<impl ")[1][0] == "i")
    return one(st, it.wrap(r, t, st))


@pat(r"(core|std)::f(32|64)::<impl f(32|64)>::from_(be|le|ne)_bytes")
def m_ffrom_bytes(it, st, fn, args, aty, dty, where):
    bs = ibytes(it, st, it.settle(st, args[0]))
    if "_be_" in fn["p"]:
        bs = bs[::-1]
    r = ZERO
    for i, b in enumerate(bs):
        r = r + b * (1 << (8 * i))
    return one(st, F("frombits", (r,), 8 * len(bs)))


@pat(r"(core|std)::f(32|64)::<impl f(32|64)>::(from_bits|to_bits)")
def m_fbits(it, st, fn, args, aty, dty, where):
    a = it.settle(st, args[0])
    if fn["p"].endswith("from_bits"):
        return one(st, F("frombits", (it.as_int(st, a),), 32 if "f32" in fn["p"] else 64))
    if isinstance(a, F) and a.op == "frombits":
        return one(st, a.args[0])
    w = 32 if "f32" in fn["p"] else 64
    return one(st, P(atom("f2bits", a, lo=0, hi=(1 << w) - 1, w=w)))


@pat(r"(core|std)::(num::<impl \w+>|f\d\d::<impl f\d\d>)::to_(be|le|ne)_bytes")
def m_to_bytes(it, st, fn, args, aty, dty, where):
    a = it.settle(st, args[0])
    if isinstance(a, F):
        u = a.args[0] if a.op == "frombits" else P(atom("f2bits", a, lo=0, hi=(1 << a.w) - 1, w=a.w))
        w = a.w
    else:
        w = it.T(aty[0])["w"] if aty else 32
        u = it.wrap(it.as_int(st, a), dict(k="int", w=w, sg=False), st)
    r = []
    for i in range(w // 8):
        x = shr_p(u, 8 * i)
        x = mask_p(x, 255) if x is not None else None
        if x is None:
            x = P(atom("byteof", u, i, lo=0, hi=255, w=8))
        r.append(x)
    if "_be_" in fn["p"]:
        r.reverse()
    return one(st, VArr(r))


@model("core::intrinsics::bswap", "core::num::<impl u32>::swap_bytes")
def m_bswap(it, st, fn, args, aty, dty, where):
    a = it.as_int(st, args[0])
    w = it.T(dty)["w"]
    r = ZERO
    for i in range(w // 8):
        x = shr_p(a, 8 * i)
        x = mask_p(x, 255) if x is not None else None
        if x is None:
            return one(st, P(atom("bswap", a, lo=0, hi=(1 << w) - 1, w=w)))
        r = r + x * (1 << (w - 8 - 8 * i))
    return one(st, r)


@pat(r"core::intrinsics::(ctlz|ctlz_nonzero)|core::num::<impl u\w+>::leading_zeros")
def m_ctlz(it, st, fn, args, aty, dty, where):
    a = it.as_int(st, args[0])
    w = it.T(aty[0])["w"] if aty else 32
    if a.const is not None:
        return one(st, P(w - a.const.bit_length()))
    lo, hi = st.bounds(a)
    return one(st, P(atom("clz", a, w, lo=w - (int(hi).bit_length() if hi != INF else w), hi=w)))


@pat(r"core::num::<impl u\w+>::(leading_ones|trailing_zeros|trailing_ones|count_ones|count_zeros)|core::intrinsics::(cttz|ctpop)")
def m_bitcount(it, st, fn, args, aty, dty, where):
    a = it.as_int(st, args[0])
    w = it.T(aty[0])["w"] if aty else 32
    op = fn["p"].split("::")[-1]
    if op in ("count_ones", "ctpop", "count_zeros"):
        ps = [mask_p(shr_p(a, i), 1) if shr_p(a, i) is not None else None for i in range(w)] if pieces(a) is not None else [None]
        if all(x is not None for x in ps):
            s = ZERO
            for x in ps:
                s = s + x
            return one(st, s if op != "count_zeros" else P(w) - s)
    if op == "leading_ones":
        return one(st, P(atom("clz", P((1 << w) - 1) - a, w, lo=0, hi=w)))
    return one(st, P(atom(op, a, lo=0, hi=w)))


def ity(it, fn, aty, args):
    if aty and aty[0] is not None:
        t = it.T(aty[0])
        if t["k"] == "ref":
            t = it.T(t["t"])
        if t["k"] == "int":
            return t
    m = re.search(r"<impl (\w)(\w+)>", fn["p"]) or re.search(r"<(\w)(\w+) as", fn["p"])
    w = 64 if m.group(2) == "size" else int(m.group(2))
    return dict(k="int", w=w, sg=m.group(1) == "i", s=m.group(1) + m.group(2))


def arith(op, x, y):
    return x + y if op == "add" else x - y if op == "sub" else x * y


@pat(r"core::num::<impl [iu]\w+>::checked_(add|sub|mul)(_unsigned|_signed)?")
def m_checked(it, st, fn, args, aty, dty, where):
    t = ity(it, fn, aty, args)
    op = re.search(r"checked_(add|sub|mul)", fn["p"]).group(1)
    r = arith(op, it.as_int(st, args[0]), it.as_int(st, args[1]))
    lo, hi = it.rng(t)
    return [(s, some(r) if b else NONE) for s, b in split(st, le0(r - hi) * le0(P(lo) - r))]


@pat(r"core::num::<impl [iu]\w+>::overflowing_(add|sub|mul)|core::intrinsics::(add|sub|mul)_with_overflow")
def m_overflowing(it, st, fn, args, aty, dty, where):
    t = ity(it, fn, aty, args)
    op = re.search(r"(add|sub|mul)", fn["p"].split("::")[-1]).group(1)
    r = arith(op, it.as_int(st, args[0]), it.as_int(st, args[1]))
    lo, hi = it.rng(t)
    c = le0(r - hi) * le0(P(lo) - r)
    return [(s, tup(r, ZERO) if b else tup(it.wrap(r, t, s), ONE)) for s, b in split(st, c)]


@pat(r"core::num::<impl [iu]\w+>::wrapping_(add|sub|mul)|core::intrinsics::wrapping_(add|sub|mul)")
def m_wrapping(it, st, fn, args, aty, dty, where):
    t = ity(it, fn, aty, args)
    op = re.search(r"wrapping_(add|sub|mul)", fn["p"]).group(1)
    return one(st, it.wrap(arith(op, it.as_int(st, args[0]), it.as_int(st, args[1])), t, st))


@pat(r"core::num::<impl [iu]\w+>::saturating_(add|sub|mul)|core::intrinsics::saturating_(add|sub)")
def m_saturating(it, st, fn, args, aty, dty, where):
    t = ity(it, fn, aty, args)
    op = re.search(r"saturating_(add|sub|mul)", fn["p"]).group(1)
    r = arith(op, it.as_int(st, args[0]), it.as_int(st, args[1]))
    lo, hi = it.rng(t)
    res = []
    for s, b in split(st, le0(r - hi)):
        if not b:
            res.append((s, P(hi)))
            continue
        for s2, b2 in split(s, le0(P(lo) - r)):
            res.append((s2, r if b2 else P(lo)))
    return res


@pat(r"core::num::<impl [iu]\w+>::(checked|wrapping|overflowing)_(shl|shr)")
def m_shifts(it, st, fn, args, aty, dty, where):
    t = ity(it, fn, aty, args)
    k, op = re.search(r"(checked|wrapping|overflowing)_(shl|shr)", fn["p"]).groups()
    x, y = it.as_int(st, args[0]), it.as_int(st, args[1])
    u32 = dict(k="int", w=32, sg=False, s="u32")
    if k == "checked":
        res = []
        for s, b in split(st, le0(y + 1 - t["w"])):
            res.append((s, some(it.binop(s, "Shl" if op == "shl" else "Shr", x, y, t, u32)) if b else NONE))
        return res
    if k == "wrapping":
        return one(st, it.binop(st, "Shl" if op == "shl" else "Shr", x, it.binop(st, "BitAnd", y, P(t["w"] - 1), u32, u32), t, u32))
    return NotImplemented


@pat(r"core::num::<impl [iu]\w+>::checked_(div|rem)(_euclid)?")
def m_checked_div(it, st, fn, args, aty, dty, where):
    t = ity(it, fn, aty, args)
    x, y = it.as_int(st, args[0]), it.as_int(st, args[1])
    if t["sg"]:
        return NotImplemented
    op = "Div" if "div" in fn["p"].split("::")[-1] else "Rem"
    return [(s, NONE if b else some(it.binop(s, op, x, y, t, t))) for s, b in split(st, eq0(y))]


@pat(r"core::num::<impl u\w+>::(div_ceil|rem_euclid|div_euclid)")
def m_div_ceil(it, st, fn, args, aty, dty, where):
    t = ity(it, fn, aty, args)
    x, y = it.as_int(st, args[0]), it.as_int(st, args[1])
    need(it, st, [le0(ONE - y)], "divzero", "division by zero", where)
    op = fn["p"].split("::")[-1]
    if op == "div_ceil":
        return one(st, it.binop(st, "Div", x + y - 1, y, t, t))
    return one(st, it.binop(st, "Div" if op == "div_euclid" else "Rem", x, y, t, t))


@pat(r"core::num::<impl [iu]\w+>::is_multiple_of")
def m_multiple(it, st, fn, args, aty, dty, where):
    t = ity(it, fn, aty, args)
    return one(st, eq0(it.binop(st, "Rem", it.as_int(st, args[0]), it.as_int(st, args[1]), t, t)))


@pat(r"core::num::<impl [iu]\w+>::abs_diff")
def m_abs_diff(it, st, fn, args, aty, dty, where):
    x, y = it.as_int(st, args[0]), it.as_int(st, args[1])
    return one(st, ite(le0(y - x), x - y, y - x))


@pat(r"core::num::<impl i\w+>::(abs|unsigned_abs|wrapping_abs)")
def m_abs(it, st, fn, args, aty, dty, where):
    t = ity(it, fn, aty, args)
    x = it.as_int(st, args[0])
    if fn["p"].endswith("::abs"):
        lo, hi = it.rng(t)
        need(it, st, [le0(P(lo + 1) - x)], "overflow", "arithmetic overflow in abs", where)
    return one(st, ite(le0(x + 1), -x, x))


@pat(r"core::num::<impl i\w+>::(signum|is_negative|is_positive)")
def m_signum(it, st, fn, args, aty, dty, where):
    x = it.as_int(st, args[0])
    n, p = le0(x + 1), le0(ONE - x)
    k = fn["p"].split("::")[-1]
    return one(st, p - n if k == "signum" else n if k == "is_negative" else p)


@pat(r"core::num::<impl [iu]\w+>::(checked_|wrapping_|saturating_)?pow")
def m_pow(it, st, fn, args, aty, dty, where):
    t = ity(it, fn, aty, args)
    x, n = it.as_int(st, args[0]), st.norm(it.as_int(st, args[1]))
    lo, hi = it.rng(t)
    if n.const is not None and n.const <= 64:
        r = ONE
        for _ in range(n.const):
            r = r * x
    elif x.const == 2:
        r = P(atom("pow2", n, lo=1))
    else:
        r = P(atom("pow", x, n, lo=0 if st.bounds(x)[0] >= 0 else -INF))
        if st.bounds(x)[0] >= 1:
            r = P(atom("pow", x, n, lo=1))
    k = fn["p"].split("::")[-1]
    cond = le0(r - hi) * le0(P(lo) - r)
    if k == "checked_pow":
        return [(s, some(r) if b else NONE) for s, b in split(st, cond)]
    if k == "wrapping_pow":
        return one(st, it.wrap(r, t, st))
    if k == "saturating_pow":
        return [(s, r if b else P(hi)) for s, b in split(st, cond)]
    need(it, st, [cond], "overflow", "arithmetic overflow in pow", where)
    return one(st, r)


@pat(r"core::num::<impl [iu]\w+>::(wrapping_|checked_|saturating_)?neg")
def m_neg(it, st, fn, args, aty, dty, where):
    t = ity(it, fn, aty, args)
    x = it.as_int(st, args[0])
    k = fn["p"].split("::")[-1]
    if k == "wrapping_neg":
        return one(st, it.wrap(-x, t, st))
    if k == "checked_neg":
        lo, hi = it.rng(t)
        return [(s, some(-x) if b else NONE) for s, b in split(st, le0(-x - hi) * le0(P(lo) + x))]
    return NotImplemented


@pat(r"(core::cmp::(min|max)|core::cmp::Ord::(min|max)|<\w+ as core::cmp::Ord>::(min|max))")
def m_minmax(it, st, fn, args, aty, dty, where):
    x, y = it.settle(st, args[0]), it.settle(st, args[1])
    if not (isinstance(x, Poly) and isinstance(y, Poly)):
        return NotImplemented
    c = le0(x - y)
    if fn["p"].endswith("min"):
        return [(s, x if b else y) for s, b in split(st, c)]
    return [(s, y if b else x) for s, b in split(st, c)]


@pat(r"core::cmp::Ord::clamp|<\w+ as core::cmp::Ord>::clamp")
def m_clamp(it, st, fn, args, aty, dty, where):
    x, a, b = (it.settle(st, v) for v in args)
    if not isinstance(x, Poly):
        return NotImplemented
    res = []
    for s, c in split(st, le0(x - a)):
        if c:
            res.append((s, a))
        else:
            res += [(s2, b if d else x) for s2, d in split(s, le0(b - x))]
    return res


INTS = r"(u8|u16|u32|u64|usize|i8|i16|i32|i64|isize|bool|char)"


@pat(r"(<" + INTS + r" as core::cmp::PartialEq<?.*>?>::(eq|ne)|core::cmp::impls::<impl core::cmp::PartialEq.* for " + INTS + r">::(eq|ne))")
def m_int_eq(it, st, fn, args, aty, dty, where):
    x, y = (it.ptr_load(st, deep(it, st, a)) for a in args)
    r = val_eq(it, st, it.settle(st, x), it.settle(st, y))
    return one(st, r if fn["p"].endswith("eq") else ONE - r)


@pat(r"(<" + INTS + r" as core::cmp::PartialOrd<?.*>?>::(lt|le|gt|ge)|core::cmp::impls::<impl core::cmp::PartialOrd.* for " + INTS + r">::(lt|le|gt|ge))")
def m_int_ord(it, st, fn, args, aty, dty, where):
    x, y = (it.as_int(st, it.ptr_load(st, deep(it, st, a))) for a in args)
    k = fn["p"].split("::")[-1]
    return one(st, {"lt": le0(x - y + 1), "le": le0(x - y), "gt": le0(y - x + 1), "ge": le0(y - x)}[k])


@pat(r"core::intrinsics::(integer_max|integer_min)")
def m_intmax(it, st, fn, args, aty, dty, where):
    lo, hi = it.rng(it.T(dty))
    return one(st, P(hi if fn["p"].endswith("max") else lo))


@pat(r"core::intrinsics::(cold_path|assert_\w+|assume)|core::hint::(assert_unchecked|spin_loop)|.*::precondition_check")
def m_noop(it, st, fn, args, aty, dty, where):
    return one(st, UNIT)


@model("core::hint::must_use", "core::hint::black_box")
def m_must_use(it, st, fn, args, aty, dty, where):
    return one(st, args[0])


@pat(r"core::mem::(drop|forget)")
def m_drop(it, st, fn, args, aty, dty, where):
    st.events = st.events + ((fn["p"].split("::")[-1], args[0]),) if isinstance(args[0], Opq) else st.events
    return one(st, UNIT)


@pat(r"core::mem::(swap|replace|take)")
def m_mem(it, st, fn, args, aty, dty, where):
    k = fn["p"].split("::")[-1]
    p = as_ptr(it, st, args[0])
    if k == "swap":
        q = as_ptr(it, st, args[1])
        a, b = it.ptr_load(st, p), it.ptr_load(st, q)
        it.store(st, (p.cell, p.path), b)
        it.store(st, (q.cell, q.path), a)
        return one(st, UNIT)
    old = it.ptr_load(st, p)
    if k == "replace":
        it.store(st, (p.cell, p.path), args[1])
        return one(st, old)
    d = default_of(it, st, dty)
    if d is None:
        return NotImplemented
    it.store(st, (p.cell, p.path), d)
    return one(st, old)


def default_of(it, st, ty):
    t = it.T(ty)
    if t["k"] in ("int", "bool"):
        return ZERO
    if t["k"] == "float":
        return fconst(0.0, t["w"])
    n = t.get("n")
    if n == OPT:
        return NONE
    if n == "alloc::vec::Vec":
        return vec(EMPTY)
    if n == "alloc::string::String":
        return Opq("str", "")
    return None


@pat(r"core::mem::(size_of|align_of|size_of_val)")
def m_size_of(it, st, fn, args, aty, dty, where):
    ta = fn.get("ta") or fn.get("ra") or []
    t = None
    for x in (fn.get("a") or []):
        if isinstance(x, int):
            t = it.T(x)
    sz = size_of_type(it, t) if t else None
    if sz is None:
        return NotImplemented
    return one(st, P(sz))


def size_of_type(it, t):
    if t["k"] in ("int", "float"):
        return t["w"] // 8
    if t["k"] == "bool":
        return 1
    if t["k"] == "array" and "len" in t:
        s = size_of_type(it, it.T(t["t"]))
        return s * t["len"] if s is not None else None
    return None


# ---------------------------------------------------------------- floats

@pat(r"(std|core)::f(32|64)::(<impl f(32|64)>::)?(\w+)")
def m_float(it, st, fn, args, aty, dty, where):
    k = fn["p"].split("::")[-1]
    x = args[0] if args else None
    if k in ("powi", "powf", "sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "ln", "log10", "abs", "floor", "ceil", "round",
             "trunc", "to_radians", "to_degrees", "mul_add", "rem_euclid", "max", "min", "signum", "hypot", "exp2", "log2", "fract", "copysign", "recip"):
        w = 32 if "f32" in fn["p"] else 64
        vs = []
        for a in args:
            a = it.settle(st, a)
            vs.append(a)
        if k in ("powi", "powf") and (k == "powf" or isinstance(vs[1], Poly)):
            return one(st, fpow(w, *vs))
        if k == "recip":
            return one(st, fop("div", w, fconst(1.0, w), vs[0]))
        if all(isinstance(v, F) and v.op == "const" for v in vs) and k in FOLD:
            try:
                return one(st, fconst(round_to(FOLD[k](*map(fval, vs)), w), w))
            except (ValueError, OverflowError, ZeroDivisionError):
                pass
        return one(st, F(k, tuple(vs), w))
    if k in ("is_nan", "is_finite", "is_infinite", "is_sign_negative", "is_sign_positive"):
        if isinstance(x, F) and x.op == "nan":
            return one(st, P(int(k == "is_nan")))
        if isinstance(x, F) and x.op == "const":
            return one(st, P(int(k == "is_finite")) if k in ("is_nan", "is_finite", "is_infinite") else P(int((fval(x) < 0) == (k == "is_sign_negative"))))
        return one(st, P(atom("f" + k, x, lo=0, hi=1, w=1)))
    return NotImplemented


FOLD = {"sqrt": math.sqrt, "sin": math.sin, "cos": math.cos, "tan": math.tan, "asin": math.asin, "acos": math.acos, "atan": math.atan,
        "atan2": math.atan2, "exp": math.exp, "ln": math.log, "abs": abs, "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc,
        "to_radians": math.radians, "to_degrees": math.degrees, "max": max, "min": min}


# ---------------------------------------------------------------- ranges

def range_next(it, st, ptr, ty):
    v = it.ptr_load(st, ptr)
    if not isinstance(v, Agg):
        raise Undecided(f"range state {v!r}")
    a, b = (it.as_int(st, x) for x in v.fields[:2])
    res = []
    for s, c in split(st, le0(a - b + 1)):
        if c:
            it.store(s, (ptr.cell, ptr.path), Agg(v.name, v.variant, [a + 1, b], v.ty))
            res.append((s, some(a)))
        else:
            res.append((s, NONE))
    return res


def range_incl_next(it, st, ptr, ty):
    v = it.ptr_load(st, ptr)
    if not isinstance(v, Agg):
        raise Undecided(f"range state {v!r}")
    a, b, ex = (it.as_int(st, x) for x in v.fields[:3])
    res = []
    for s0, e in split(st, ex):
        if e:
            res.append((s0, NONE))
            continue
        for s, c in split(s0, le0(a - b)):
            if not c:
                res.append((s, NONE))
                continue
            for s2, last in split(s, eq0(a - b)):
                it.store(s2, (ptr.cell, ptr.path), Agg(v.name, v.variant, [a, b, ONE] if last else [a + 1, b, ZERO], v.ty))
                res.append((s2, some(a)))
    return res


def range_from_next(it, st, ptr, ty):
    v = it.ptr_load(st, ptr)
    a = it.as_int(st, v.fields[0])
    it.store(st, (ptr.cell, ptr.path), Agg(v.name, v.variant, [a + 1], v.ty))
    return [(st, some(a))]


NEXT["core::ops::range::Range"] = range_next
NEXT["core::ops::range::RangeInclusive"] = range_incl_next
NEXT["core::ops::range::RangeFrom"] = range_from_next


@pat(r"<core::ops::range::(Range|RangeInclusive|RangeFrom)<A> as core::iter::traits::iterator::Iterator>::next|core::iter::range::<impl core::iter::traits::iterator::Iterator for core::ops::range::(Range|RangeInclusive|RangeFrom)<A>>::next")
def m_range_next(it, st, fn, args, aty, dty, where):
    p = as_ptr(it, st, args[0])
    n = (fn.get("rp") or fn["p"])
    v = it.ptr_load(st, p)
    k = len(v.fields) if isinstance(v, Agg) else 0
    return (range_incl_next if k == 3 else range_next if k == 2 else range_from_next)(it, st, p, None)


@pat(r"<core::ops::range::Range<A> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back|core::iter::range::<impl core::iter::traits::double_ended::DoubleEndedIterator for core::ops::range::Range<A>>::next_back")
def m_range_next_back(it, st, fn, args, aty, dty, where):
    ptr = as_ptr(it, st, args[0])
    v = it.ptr_load(st, ptr)
    a, b = (it.as_int(st, x) for x in v.fields[:2])
    res = []
    for s, c in split(st, le0(a - b + 1)):
        if c:
            it.store(s, (ptr.cell, ptr.path), Agg(v.name, v.variant, [a, b - 1], v.ty))
            res.append((s, some(b - 1)))
        else:
            res.append((s, NONE))
    return res


@pat(r"<core::ops::range::Range<A> as core::iter::traits::iterator::Iterator>::size_hint")
def m_range_hint(it, st, fn, args, aty, dty, where):
    v = it.ptr_load(st, as_ptr(it, st, args[0]))
    a, b = (it.as_int(st, x) for x in v.fields[:2])
    return [(s, tup(b - a, some(b - a)) if c else tup(ZERO, some(ZERO))) for s, c in split(st, le0(a - b))]


@pat(r"<core::ops::range::RangeInclusive<A> as core::iter::traits::iterator::Iterator>::size_hint")
def m_rangei_hint(it, st, fn, args, aty, dty, where):
    v = it.ptr_load(st, as_ptr(it, st, args[0]))
    a, b, ex = (it.as_int(st, x) for x in v.fields[:3])
    return [(s, tup(b - a + 1, some(b - a + 1)) if c else tup(ZERO, some(ZERO))) for s, c in split(st, le0(a - b) * (ONE - ex))]


# ---------------------------------------------------------------- iterator protocol

def iter_next(it, st, ptr, ty, where=None):
    """Iterator::next on the iterator of type `ty` behind `ptr`"""
    t = it.T(ty) if ty is not None else None
    v = it.settle(st, it.load(st, (ptr.cell, ptr.path)))
    if isinstance(v, Agg):
        if v.name == "slice_iter":
            return slice_iter_next(it, st, ptr, ty)
        if v.name == "vec_iter":
            return vec_iter_next(it, st, ptr, ty)
        if v.name and v.name.startswith("slice_"):
            return chunks_next(it, st, ptr, ty)
        if v.name == "box":
            return iter_next(it, st, Ptr(ptr.cell, ptr.path + ("bx",)), box_inner(it, t), where)
        if v.name == "zip":
            return zip_next(it, st, ptr, ty, where)
    if isinstance(v, Ptr):
        return iter_next(it, st, v, t["t"] if t and t["k"] in ("ref", "ptr") else None, where)
    h = it.hooks.get("iter_next")
    if h:
        r = h(it, st, ptr, v, t, where)
        if r is not NotImplemented:
            return r
    if t is None:
        t = it.T(v.ty) if isinstance(v, Agg) and isinstance(v.ty, int) else None
        if t is None:
            raise Undecided(f"next on {v!r}")
    f = NEXT.get(t.get("n"))
    if f:
        return f(it, st, ptr, ty)
    k = t.get("next")
    if k in it.bodies:
        path = it.bodies[k]["path"]
        h = it.hooks.get(path)
        if h:
            r = h(it, st, dict(p=path, rp=path, inst=k), [ptr], None, None, where)
            if r is not NotImplemented:
                return r
        return it.call_body(st, k, [ptr], where)
    raise Undecided(f"next on {t['s'][:120]}")


def box_inner(it, t):
    if t and t.get("a"):
        for x in t["a"]:
            if isinstance(x, int):
                return x
    if t and t.get("v"):
        pass
    return None


def fnrec(name, **k):
    return ["k", {"fn": dict(p=name, rp=name, **k)}]


class SynthBuilder:
    def __init__(self, it, name, argc):
        self.it, self.name, self.argc = it, name, argc
        self.blocks = []

    def mk(self, nlocals, blocks):
        u = self.it.find_ty("usize")
        return {"path": self.name, "file": 0, "line": 0, "local": False, "promoted": [],
                "b": {"argc": self.argc, "spread": None, "locals": [[u, None]] * nlocals, "blocks": blocks}}


def L(i, *proj):
    return [i, list(proj), None]


def synth(it, kind, ity):
    """a synthetic MIR loop driving the iterator in local 1"""
    key = f"vp::{kind}<{ity}>"
    if key in it.bodies:
        return key
    u = it.find_ty("usize")
    nxt = fnrec("vp::next", ty=ity)
    N = 0

    def call(f, args, dest, target):
        return ["call", f, args, dest, target, 0, 0]

    mv = lambda p: ["mv", p]
    head = [
        [["=", L(6), ["ref", True, L(1)], 0]],
    ]
    ref1 = ["=", L(6), ["ref", True, L(1)], 0]
    disc = ["=", [4, [], u], ["discr", L(2)], 0]
    payload = ["=", L(3), ["use", mv([2, [["d", 1], ["f", 0, None]], None])], 0]
    sw = lambda a, b: ["switch", mv([4, [], u]), [[0, a]], b, u, 0, 0]
    if kind == "collect":          # local 1 iter -> vec in 0
        bl = [
            [[], call(fnrec("vp::empty"), [], L(0), 1), False],
            [[ref1], call(nxt, [mv(L(6))], L(2), 2), False],
            [[disc], sw(3, 4), False],
            [[], ["ret", 0, 0], False],
            [[payload, ["=", L(7), ["ref", True, L(0)], 0]], call(fnrec("alloc::vec::Vec::push"), [mv(L(7)), mv(L(3))], L(8), 1), False],
        ]
        b = SynthBuilder(it, "Iterator::collect", 1).mk(9, bl)
    elif kind == "extend":         # local 1 iter, local 5 &mut vec (args: iter, vec)
        bl = [
            [[["=", L(5), ["use", mv(L(2))], 0]], ["goto", 1, 0, 0], False],
            [[ref1], call(nxt, [mv(L(6))], L(2), 2), False],
            [[disc], sw(3, 4), False],
            [[["=", L(0), ["agg", ["tuple"], []], 0]], ["ret", 0, 0], False],
            [[payload], call(fnrec("alloc::vec::Vec::push"), [["cp", L(5)], mv(L(3))], L(8), 1), False],
        ]
        b = SynthBuilder(it, "Vec::extend", 2).mk(9, bl)
    elif kind == "fold":           # args: iter, init, f
        bl = [
            [[["=", L(5), ["use", mv(L(3))], 0], ["=", L(7), ["use", mv(L(2))], 0]], ["goto", 1, 0, 0], False],
            [[ref1], call(nxt, [mv(L(6))], L(2), 2), False],
            [[disc], sw(3, 4), False],
            [[["=", L(0), ["use", mv(L(7))], 0]], ["ret", 0, 0], False],
            [[payload, ["=", L(8), ["ref", True, L(5)], 0]], call(fnrec("vp::callref"), [mv(L(8)), mv(L(7)), mv(L(3))], L(7), 1), False],
        ]
        b = SynthBuilder(it, "Iterator::fold", 3).mk(10, bl)
    elif kind == "for_each":       # args: iter, f
        bl = [
            [[["=", L(5), ["use", mv(L(2))], 0]], ["goto", 1, 0, 0], False],
            [[ref1], call(nxt, [mv(L(6))], L(2), 2), False],
            [[disc], sw(3, 4), False],
            [[["=", L(0), ["agg", ["tuple"], []], 0]], ["ret", 0, 0], False],
            [[payload, ["=", L(8), ["ref", True, L(5)], 0]], call(fnrec("vp::callref"), [mv(L(8)), mv(L(3))], L(7), 1), False],
        ]
        b = SynthBuilder(it, "Iterator::for_each", 2).mk(10, bl)
    elif kind in ("any", "all", "find", "find_map", "position"):   # args: &mut iter, f
        ref1 = ["=", L(6), ["use", ["cp", L(1)]], 0]
        none = ["=", L(0), ["use", fnrecval(NONE)], 0]
        exits = {"any": P(0), "all": P(1), "find": NONE, "find_map": NONE, "position": NONE}[kind]
        bl = [
            [[["=", L(5), ["use", mv(L(2))], 0], ["=", L(9), ["use", ["val", ZERO]], 0]], ["goto", 1, 0, 0], False],
            [[ref1], call(nxt, [mv(L(6))], L(2), 2), False],
            [[disc], sw(3, 4), False],
            [[["=", L(0), ["use", ["val", exits]], 0]], ["ret", 0, 0], False],
            [[payload, ["=", L(8), ["ref", True, L(5)], 0], ["=", L(10), ["ref", False, L(3)], 0]],
             call(fnrec("vp::callref"), [mv(L(8)), mv(L(10)) if kind == "find" else mv(L(3))] if kind != "find" else [mv(L(8)), mv(L(10))], [7, [], u], 5), False],
        ]
        if kind == "find_map":
            bl += [[[["=", [4, [], u], ["discr", L(7)], 0]], sw(1, 6), False],
                   [[["=", L(0), ["use", mv(L(7))], 0]], ["ret", 0, 0], False]]
        else:
            stop = {"any": ["val", ONE], "all": ["val", ZERO], "find": None, "position": None}[kind]
            w = ["switch", mv([7, [], u]), [[0, 1 if kind != "all" else 6]], 6 if kind != "all" else 1, u, 0, 0]
            if kind == "position":
                w = ["switch", mv([7, [], u]), [[0, 7]], 6, u, 0, 0]
            bl.append([[], w, False])
            if stop is not None:
                bl.append([[["=", L(0), ["use", stop], 0]], ["ret", 0, 0], False])
            elif kind == "find":
                bl.append([[], call(fnrec("vp::some"), [mv(L(3))], L(0), 7), False])
                bl.append([[], ["ret", 0, 0], False])
            else:
                bl.append([[], call(fnrec("vp::some"), [mv(L(9))], L(0), 8), False])
                bl.append([[], call(fnrec("vp::inc"), [mv(L(9))], L(9), 1), False])
                bl.append([[], ["ret", 0, 0], False])
        b = SynthBuilder(it, "Iterator::" + kind, 2).mk(11, bl)
    elif kind in ("count", "last"):
        bl = [
            [[["=", L(9), ["use", ["val", ZERO if kind == "count" else NONE]], 0]], ["goto", 1, 0, 0], False],
            [[ref1], call(nxt, [mv(L(6))], L(2), 2), False],
            [[disc], sw(3, 4), False],
            [[["=", L(0), ["use", mv(L(9))], 0]], ["ret", 0, 0], False],
            [[payload], call(fnrec("vp::inc" if kind == "count" else "vp::some"), [mv(L(9)) if kind == "count" else mv(L(3))], L(9), 1), False],
        ]
        b = SynthBuilder(it, "Iterator::" + kind, 1).mk(10, bl)
    elif kind in ("sum", "product"):
        bl = [
            [[["=", L(9), ["use", ["val", ZERO if kind == "sum" else ONE]], 0]], ["goto", 1, 0, 0], False],
            [[ref1], call(nxt, [mv(L(6))], L(2), 2), False],
            [[disc], sw(3, 4), False],
            [[["=", L(0), ["use", mv(L(9))], 0]], ["ret", 0, 0], False],
            [[payload], call(fnrec("vp::" + kind), [mv(L(9)), mv(L(3))], L(9), 1), False],
        ]
        b = SynthBuilder(it, "Iterator::" + kind, 1).mk(10, bl)
    elif kind == "try_collect":    # Result<Vec<_>,E> / Option<Vec<_>> from an iterator of Result / Option
        bl = [
            [[], call(fnrec("vp::empty"), [], L(9), 1), False],
            [[ref1], call(nxt, [mv(L(6))], L(2), 2), False],
            [[disc], sw(3, 4), False],
            [[], call(fnrec("vp::wrap_ok"), [mv(L(9)), ["cp", L(5)]], L(0), 7), False],
            [[payload, ["=", L(5), ["use", ["val", UNIT]], 0]], call(fnrec("vp::is_ok"), [["cp", L(3)]], [4, [], u], 5), False],
            [[], ["switch", mv([4, [], u]), [[0, 6]], 8, u, 0, 0], False],
            [[["=", L(0), ["use", mv(L(3))], 0]], ["ret", 0, 0], False],
            [[], ["ret", 0, 0], False],
            [[["=", L(7), ["ref", True, L(9)], 0]], call(fnrec("vp::ok_payload"), [mv(L(3))], L(8), 9), False],
            [[], call(fnrec("alloc::vec::Vec::push"), [mv(L(7)), mv(L(8))], L(8), 1), False],
        ]
        b = SynthBuilder(it, "Iterator::collect", 1).mk(10, bl)
    else:
        raise Undecided("synth " + kind)
    it.bodies[key] = b
    return key


def fnrecval(v):
    return ["val", v]


@model("vp::next")
def vp_next(it, st, fn, args, aty, dty, where):
    return iter_next(it, st, as_ptr(it, st, args[0]), fn.get("ty"), where)


@model("vp::empty")
def vp_empty(it, st, fn, args, aty, dty, where):
    return one(st, vec(EMPTY))


@model("vp::some")
def vp_some(it, st, fn, args, aty, dty, where):
    return one(st, some(args[0]))


@model("vp::inc")
def vp_inc(it, st, fn, args, aty, dty, where):
    return one(st, it.as_int(st, args[0]) + 1)


@model("vp::sum", "vp::product")
def vp_sum(it, st, fn, args, aty, dty, where):
    x = it.settle(st, args[1])
    if isinstance(x, Ptr):
        x = it.ptr_load(st, x)
    a = args[0]
    k = "add" if fn["p"].endswith("sum") else "mul"
    if isinstance(x, F):
        if isinstance(a, Poly):
            a = fconst(float(a.const), x.w)
        return one(st, fop(k, x.w, a, x))
    return one(st, a + x if k == "add" else a * x)


@model("vp::is_ok")
def vp_is_ok(it, st, fn, args, aty, dty, where):
    v = it.settle(st, args[0])
    d = it.discr(st, v)
    isopt = (isinstance(v, Agg) and v.name == OPT) or (isinstance(v, SymEnum) and it.T(v.ty)["n"] == OPT)
    return one(st, d if isopt else ONE - d)


@model("vp::ok_payload")
def vp_ok_payload(it, st, fn, args, aty, dty, where):
    v = it.settle(st, args[0])
    isopt = (isinstance(v, Agg) and v.name == OPT) or (isinstance(v, SymEnum) and it.T(v.ty)["n"] == OPT)
    return one(st, it.as_variant(st, v, 1 if isopt else 0).fields[0])


@model("vp::wrap_ok")
def vp_wrap_ok(it, st, fn, args, aty, dty, where):
    return one(st, Agg("vp::okvec", None, [args[0]]))


@model("vp::callref")
def vp_callref(it, st, fn, args, aty, dty, where):
    return it.call_value(st, args[0], list(args[1:]), where)


def drive(it, st, kind, args, ity, where):
    return it.call_body(st, synth(it, kind, ity), args, where)


def unref_ty(it, ty):
    t = it.T(ty)
    return t["t"] if t["k"] in ("ref", "ptr") else ty


@pat(r"core::iter::traits::iterator::Iterator::collect|.* as core::iter::traits::iterator::Iterator>::collect|<.* as core::iter::traits::collect::FromIterator<.*>>::from_iter|core::iter::traits::collect::FromIterator::from_iter")
def m_collect(it, st, fn, args, aty, dty, where):
    if dty is None or not aty:
        return NotImplemented
    t = it.T(dty)
    n = t.get("n")
    v = args[0]
    ity = aty[0]
    if fn["p"].endswith("from_iter"):
        r = into_iter(it, st, v, ity, where)
        if r is None:
            return NotImplemented
        v, ity = r
    if n == "alloc::vec::Vec":
        fast = fast_collect(it, st, v)
        if fast is not None:
            return one(st, vec(fast))
        return drive(it, st, "collect", [v], ity, where)
    if n == "alloc::boxed::Box" and "[" in t["s"]:
        return [(s, Agg("box", "sl", x.fields)) for s, x in drive(it, st, "collect", [v], ity, where)]
    if n in (RES, OPT):
        inner = it.T(t["v"][0 if n == RES else 1][0])
        if inner.get("n") in ("alloc::vec::Vec",) or inner.get("n") == "alloc::boxed::Box":
            out = []
            for s, x in drive(it, st, "try_collect", [v], ity, where):
                if isinstance(x, Agg) and x.name == "vp::okvec":
                    y = x.fields[0]
                    if inner["n"] != "alloc::vec::Vec":
                        y = Agg("box", "sl", y.fields)
                    out.append((s, Agg(n, 0 if n == RES else 1, [y])))
                else:
                    x = it.settle(s, x)
                    if n == RES:
                        e = it.as_variant(s, x, 1).fields[0]
                        out.append((s, err(e)))
                    else:
                        out.append((s, NONE))
            return out
        return NotImplemented
    if n and (n.startswith("std::collections") or n.startswith("alloc::collections")):
        out = []
        for s, x in drive(it, st, "collect", [v], ity, where):
            out.append((s, Opq("coll", n.split("::")[-1], x)))
        return out
    if n == "alloc::string::String":
        out = []
        for s, x in drive(it, st, "collect", [v], ity, where):
            out.append((s, Opq("strcat", x.fields[0])))
        return out
    return NotImplemented


def fast_collect(it, st, v):
    if isinstance(v, Agg) and v.name == "vec_iter":
        return it.arr_slice(st, v.fields[0], v.fields[1], v.fields[2] - v.fields[1])
    return None


def into_iter(it, st, v, ty, where):
    """value and type of v.into_iter()"""
    t = it.T(ty)
    if t.get("next") or t.get("n") in NEXT:
        return v, ty
    if t.get("n") == "alloc::vec::Vec":
        a = seq_val(it, st, v)
        return Agg("vec_iter", None, [a, ZERO, a.len]), ty
    if t.get("n") == OPT:
        return None
    if t["k"] == "ref":
        u = it.T(t["t"])
        if u["k"] in ("slice", "array") or u.get("n") == "alloc::vec::Vec":
            c, p, off, ln = seq_of(it, st, v)
            return Agg("slice_iter", None, [Ptr(c, p), off, off + ln]), ty
    if t["k"] == "array":
        a = seq_val(it, st, v)
        return Agg("vec_iter", None, [a, ZERO, a.len]), ty
    return None


@pat(r"<alloc::vec::Vec<T,A> as (core::iter::traits::collect::Extend<.*>>::extend|alloc::vec::spec_extend::SpecExtend<.*>>::spec_extend)|alloc::vec::Vec::extend_(desugared|trusted)")
def m_extend(it, st, fn, args, aty, dty, where):
    r = into_iter(it, st, args[1], aty[1], where)
    if r is None:
        return NotImplemented
    return drive(it, st, "extend", [r[0], args[0]], r[1], where)


@pat(r"(core::iter::traits::iterator::Iterator::|.* as core::iter::traits::iterator::Iterator>::)(fold|for_each|any|all|find|find_map|position|count|last|sum|product)")
def m_consume(it, st, fn, args, aty, dty, where):
    k = (fn.get("rp") or fn["p"]).split("::")[-1]
    if not aty:
        return NotImplemented
    ty = aty[0]
    if k in ("any", "all", "find", "find_map", "position"):
        ty = unref_ty(it, ty)
    if k in ("sum", "product"):
        t = it.T(dty)
        if t["k"] not in ("int", "float"):
            return NotImplemented
        outs = drive(it, st, k, args, ty, where)
        res = []
        for s, v in outs:
            if isinstance(v, Poly) and t["k"] == "float":
                v = fconst(float(v.const or 0), t["w"]) if v.const is not None else v
            elif isinstance(v, Poly):
                lo, hi = it.rng(t)
                need(it, s, [le0(v - hi) * le0(P(lo) - v)], "overflow", f"arithmetic overflow in {k}", where)
            res.append((s, v))
        return res
    if k == "for_each" and fn.get("inst") is None:
        pass
    return drive(it, st, k, list(args), ty, where)


@pat(r"core::iter::traits::iterator::Iterator::nth|.* as core::iter::traits::iterator::Iterator>::nth")
def m_nth(it, st, fn, args, aty, dty, where):
    p = as_ptr(it, st, args[0])
    v = it.settle(st, it.load(st, (p.cell, p.path)))
    n = it.as_int(st, args[1])
    if isinstance(v, Agg) and v.name in ("slice_iter", "vec_iter"):
        a, pos, end = v.fields
        res = []
        for s, b in split(st, le0(pos + n + 1 - end)):
            it.store(s, (p.cell, p.path), Agg(v.name, None, [a, pos + n + 1 if b else end, end]))
            if b:
                x = Ptr(a.cell, a.path + (("i", pos + n),)) if v.name == "slice_iter" else it.arr_get(s, a, pos + n)
                res.append((s, some(x)))
            else:
                res.append((s, NONE))
        return res
    k = st.norm(n).const
    if (fn.get("rp") or fn["p"]) == "core::iter::traits::iterator::Iterator::nth" and k is not None and k <= 32 and aty:
        # the default: one item after the other
        t = it.T(aty[0])
        ty = t["t"] if t["k"] in ("ref", "ptr") else None
        todo, done = [(st, None, 0)], []
        while todo:
            s, x, i = todo.pop()
            if i == k + 1:
                done.append((s, x))
                continue
            for s2, y in iter_next(it, s, p, ty, where):
                for s3, e in split(s2, it.discr(s2, it.settle(s2, y))):
                    if e:
                        todo.append((s3, y, i + 1))
                    else:
                        done.append((s3, NONE))
        return done
    return NotImplemented


@pat(r"core::iter::traits::iterator::Iterator::(zip)|core::iter::adapters::zip::zip")
def m_zip(it, st, fn, args, aty, dty, where):
    r = into_iter(it, st, args[1], aty[1], where)
    if r is None:
        return NotImplemented
    z = Agg("zip", None, [args[0], r[0]], ("z", aty[0], r[1]))
    return one(st, z)


def zip_next(it, st, ptr, ty, where):
    v = it.ptr_load(st, ptr)
    _, ta, tb = v.ty
    res = []
    for s, x in iter_next(it, st, Ptr(ptr.cell, ptr.path + (0,)), ta, where):
        x = it.settle(s, x)
        d = s.decide(it.discr(s, x))
        if d is None:
            raise Fork(it.discr(s, x))
        if not d:
            res.append((s, NONE))
            continue
        a = it.as_variant(s, x, 1).fields[0]
        for s2, y in iter_next(it, s, Ptr(ptr.cell, ptr.path + (1,)), tb, where):
            y = it.settle(s2, y)
            for s3, e in split(s2, it.discr(s2, y)):
                res.append((s3, some(tup(a, it.as_variant(s3, y, 1).fields[0])) if e else NONE))
    return res


@pat(r"<core::iter::adapters::zip::Zip<A,B> as core::iter::traits::iterator::Iterator>::next")
def m_zip_next(it, st, fn, args, aty, dty, where):
    return zip_next(it, st, as_ptr(it, st, args[0]), None, where)


@pat(r"core::iter::traits::iterator::Iterator::(cloned|copied)")
def m_cloned(it, st, fn, args, aty, dty, where):
    v = args[0]
    if isinstance(v, Agg) and v.name == "slice_iter":
        b, pos, end = v.fields
        a = it.load(st, (b.cell, b.path))
        return one(st, Agg("vec_iter", None, [a, pos, end]))
    return NotImplemented


# (adaptors over `cloned` slices are the owning iterator above)
for _k in ("core::iter::adapters::cloned::Cloned", "core::iter::adapters::copied::Copied"):
    NEXT[_k] = None


@pat(r"<core::iter::adapters::(cloned::Cloned|copied::Copied)<I> as core::iter::traits::iterator::Iterator>::(next|size_hint)")
def m_cloned_next(it, st, fn, args, aty, dty, where):
    p = as_ptr(it, st, args[0])
    v = it.ptr_load(st, p)
    if isinstance(v, Agg) and v.name == "vec_iter":
        return (vec_iter_next(it, st, p, None)) if "size_hint" not in (fn.get("rp") or fn["p"]) else m_vec_hint(it, st, fn, args, aty, dty, where)
    return NotImplemented


NEXT = {k: v for k, v in NEXT.items() if v}


@pat(r"core::iter::traits::collect::IntoIterator::into_iter|<I as core::iter::traits::collect::IntoIterator>::into_iter")
def m_into_iter(it, st, fn, args, aty, dty, where):
    if not aty:
        return NotImplemented
    if (fn.get("rp") or "").startswith("<I as"):
        return one(st, args[0])
    r = into_iter(it, st, args[0], aty[0], where)
    if r is None:
        return NotImplemented
    return one(st, r[0])


# ---------------------------------------------------------------- strings, formatting, errors

@pat(r"core::fmt::Arguments::(new|new_const|new_v1|new_v1_formatted|from_str|from_str_nonconst)")
def m_args(it, st, fn, args, aty, dty, where):
    return one(st, Opq("fmtargs", *[snap(it, st, a) for a in args]))


@pat(r"core::fmt::rt::Argument::new_(\w+)|core::fmt::rt::<impl .*>::new_\w+")
def m_arg(it, st, fn, args, aty, dty, where):
    return one(st, Opq("arg", fn["p"].split("new_")[-1], snap(it, st, args[0])))


@model("alloc::fmt::format")
def m_format(it, st, fn, args, aty, dty, where):
    return one(st, Opq("format", snap(it, st, args[0])))


@pat(r"<(T|str|alloc::string::String|\w+) as alloc::string::(ToString|SpecToString)>::(to_string|spec_to_string)|alloc::string::ToString::to_string")
def m_to_string(it, st, fn, args, aty, dty, where):
    v = snap(it, st, args[0])
    if isinstance(v, Opq) and v.tag in ("str", "format", "fmt", "to_string", "strcat"):
        return one(st, v)
    return one(st, Opq("to_string", v))


@pat(r"(<str as alloc::borrow::ToOwned>::to_owned|<alloc::string::String as core::convert::From<.*>>::from|<str as core::convert::AsRef<.*>>::as_ref|<alloc::string::String as core::clone::Clone>::clone|alloc::str::<impl str>::(to_owned|into_string)|alloc::string::String::from_str|<&str as core::convert::Into<.*>>::into)")
def m_str_id(it, st, fn, args, aty, dty, where):
    if "as_ref" in fn["p"]:
        return one(st, args[0])
    return one(st, strv(it, st, args[0]))


@pat(r"alloc::string::String::(new|with_capacity)|<alloc::string::String as core::default::Default>::default")
def m_str_new(it, st, fn, args, aty, dty, where):
    return one(st, Opq("str", ""))


@pat(r"(<alloc::string::String as core::ops::deref::Deref>::deref|alloc::string::String::(as_str|as_ref|borrow)|<alloc::string::String as core::convert::AsRef<str>>::as_ref|<alloc::string::String as core::borrow::Borrow<str>>::borrow)")
def m_str_deref(it, st, fn, args, aty, dty, where):
    return one(st, args[0])


@pat(r"core::str::<impl str>::len|alloc::string::String::len")
def m_str_len(it, st, fn, args, aty, dty, where):
    s = strv(it, st, args[0])
    if s.tag == "str":
        return one(st, P(len(s.args[0].encode())))
    return one(st, text_len(it, s))


def text_len(it, s):
    """octets of a string: those of its pieces"""
    if s.tag != "toks":
        return it.lensym(repr(s))
    n = ZERO
    for p in s.args:
        if isinstance(p, str):
            n = n + len(p.encode())
        elif p.tag == "num":
            n = n + 1 + it.lensym("rest of " + repr(p))
        else:
            n = n + it.lensym(repr(p))
    return n


@pat(r"core::str::<impl str>::is_empty|alloc::string::String::is_empty")
def m_str_empty(it, st, fn, args, aty, dty, where):
    s = strv(it, st, args[0])
    if s.tag == "str":
        return one(st, P(int(not s.args[0])))
    n = text_len(it, s)
    if n.m.get((), 0) > 0:
        return one(st, ZERO)
    return one(st, eq0(n))


@pat(r"core::fmt::Formatter::(write_fmt|write_str|write_char|pad)|core::fmt::Write::write_fmt|.* as core::fmt::Write>::write_(fmt|str)")
def m_fmt_write(it, st, fn, args, aty, dty, where):
    st.events = st.events + (("fmt", snap(it, st, args[1])),)
    return one(st, ok(UNIT))


@pat(r"std::io::stdio::_(eprint|print)")
def m_print(it, st, fn, args, aty, dty, where):
    st.events = st.events + (("print" if fn["p"].endswith("_print") else "eprint", snap(it, st, args[0])),)
    return one(st, UNIT)


@pat(r"(core|std|alloc)::io::error::Error::(new|other|from)")
def m_io_error(it, st, fn, args, aty, dty, where):
    return one(st, Opq("ioerror", *[snap(it, st, a) for a in args]))


@pat(r"num_enum::TryFromPrimitiveError::new|<num_enum::TryFromPrimitiveError<.*>::new")
def m_tfpe(it, st, fn, args, aty, dty, where):
    return one(st, Agg("num_enum::TryFromPrimitiveError", None, [it.settle(st, args[0])]))


# ---------------------------------------------------------------- cells and I/O

@model("core::cell::RefCell::new", "core::cell::Cell::new", "core::cell::UnsafeCell::new")
def m_refcell(it, st, fn, args, aty, dty, where):
    return one(st, Agg("cell", None, [args[0]]))


@pat(r"core::cell::RefCell::(borrow|borrow_mut|try_borrow|try_borrow_mut)|core::cell::RefCell::get_mut")
def m_borrow(it, st, fn, args, aty, dty, where):
    p = as_ptr(it, st, args[0])
    v = it.load(st, (p.cell, p.path))
    k = fn["p"].split("::")[-1]
    st.events = st.events + ((k, p),)
    tgt = Ptr(p.cell, p.path + ((0,) if isinstance(v, Agg) and v.name == "cell" else ()))
    r = Agg("cellref", None, [tgt])
    return one(st, ok(r) if k.startswith("try") else tgt if k == "get_mut" else r)


@pat(r"<core::cell::Ref(Mut)?<T> as core::ops::deref::Deref(Mut)?>::deref(_mut)?")
def m_ref_deref(it, st, fn, args, aty, dty, where):
    p = as_ptr(it, st, args[0])
    v = it.settle(st, it.load(st, (p.cell, p.path)))
    if isinstance(v, Agg) and v.name == "cellref":
        return one(st, v.fields[0])
    return one(st, Ptr(p.cell, p.path))


@pat(r"core::panicking::(unimplemented_default_msg|unreachable_default_msg)|core::fmt::.*")
def m_msg(it, st, fn, args, aty, dty, where):
    return one(st, opq_call(it, st, fn, args, dty, where))


# ---------------------------------------------------------------- fallback

def generic_call(it, st, fn, args, argtys, dty, where):
    name = fn.get("rp") or fn["p"]
    if name.startswith("core::ops::function::Fn") or re.search(r" as core::ops::function::Fn(Once|Mut)?<", name):
        f = args[0]
        if isinstance(f, Ptr):
            # &mut &mut F
            x = it.settle(st, it.load(st, (f.cell, f.path)))
            if isinstance(x, Ptr):
                f = x
        a = args[1]
        a = it.settle(st, a)
        if isinstance(a, Agg) and a.name == "tuple":
            return it.call_value(st, f, list(a.fields), where)
        return it.call_value(st, f, [a], where)
    # unknown function: an uninterpreted function of its arguments; whatever it may write through `&mut` is unknown afterwards
    it.unmodelled.add(name)
    if argtys:
        for a, ti in zip(args, argtys):
            if ti is None:
                continue
            t = it.T(ti)
            if t["k"] in ("ref", "ptr") and t.get("m") and isinstance(a, Ptr):
                old = it.load(st, (a.cell, a.path))
                if isinstance(old, ARR) and it.T(t["t"])["k"] in ("slice", "array"):
                    # same length, unknown elements
                    it.nsym += 1
                    it.store(st, (a.cell, a.path), SArr(f"after:{name}#{it.nsym}", old.len, it.T(t["t"])["t"]))
                    continue
                it.store(st, (a.cell, a.path), Opq("after:" + name, snap(it, st, old)))
    r = opq_call(it, st, fn, args, dty, where)
    h = it.hooks.get("unknown_call")
    if h:
        h(it, st, name, args, r, where)
    return [(st, r)]


# ---------------------------------------------------------------- fresh values of library types

def fresh_box(it, st, ti, t, name, depth):
    a = [x for x in (t.get("a") or []) if isinstance(x, int)]
    inner = it.T(a[0]) if a else None
    if inner is None:
        return None
    if inner["k"] == "slice":
        return Agg("box", "sl", [SArr(name, it.lensym(name), inner["t"])])
    return Agg("box", None, [it.fresh(st, a[0], "*" + name, depth + 1)])


def fresh_vec(it, st, ti, t, name, depth):
    a = [x for x in (t.get("a") or []) if isinstance(x, int)]
    return vec(SArr(name, it.lensym(name), a[0])) if a else None


FRESH["alloc::boxed::Box"] = fresh_box
FRESH["alloc::vec::Vec"] = fresh_vec
FRESH["alloc::string::String"] = lambda it, st, ti, t, name, depth: Opq("strsym", name)


def fresh_slice_iter(it, st, ti, t, name, depth):
    a = [x for x in (t.get("a") or []) if isinstance(x, int)]
    if not a:
        return None
    c = ("h", name)
    n = it.lensym(name)
    st.mem.setdefault(c, SArr(name, n, a[-1]))
    return Agg("slice_iter", None, [Ptr(c), sym(name + ".pos", 63), sym(name + ".end", 63)])


FRESH["core::slice::iter::Iter"] = fresh_slice_iter


def fresh_vec_iter(it, st, ti, t, name, depth):
    a = [x for x in (t.get("a") or []) if isinstance(x, int)]
    if not a:
        return None
    n = it.lensym(name)
    return Agg("vec_iter", None, [SArr(name, n, a[0]), sym(name + ".pos", 62), n])


FRESH["alloc::vec::into_iter::IntoIter"] = fresh_vec_iter


def fresh_refcell(it, st, ti, t, name, depth):
    a = [x for x in (t.get("a") or []) if isinstance(x, int)]
    return Agg("cell", None, [it.fresh(st, a[0], name, depth + 1)]) if a else None


FRESH["core::cell::RefCell"] = fresh_refcell


def fresh_refmut(it, st, ti, t, name, depth):
    a = [x for x in (t.get("a") or []) if isinstance(x, int)]
    if not a:
        return None
    c = ("h", name)
    if c not in st.mem:
        st.mem[c] = it.fresh(st, a[0], "*" + name, depth + 1)
    return Agg("cellref", None, [Ptr(c)])


FRESH["core::cell::RefMut"] = fresh_refmut
FRESH["core::cell::Ref"] = fresh_refmut


@pat(r"proj::Proj::project_array")
def m_project_array(it, st, fn, args, aty, dty, where):
    """in-place projection of every point: Err, or Ok of the same slice with element i replaced by its projection"""
    v = it.settle(st, args[1])
    arr = seq_val(it, st, v)
    me = snap(it, st, args[0])
    inv = snap(it, st, args[2])
    it.nsym += 1
    good = P(atom("call", "proj::Proj::project_array.ok", (me, inv, it.nsym), lo=0, hi=1, w=1))
    outs = []
    for s, c in split(st, good):
        if not c:
            outs.append((s, err(Opq("call:proj::Proj::project_array.error", me, it.nsym))))
            continue
        it.nsym += 1
        a = atom("sym", f"v@{it.nsym}", lo=0, hi=(1 << 62))
        try:
            el = it.settle(s, it.arr_get(s, arr, P(a)))
            x, y = el.fields
            body = tup(*(F("call", (f"proj::Proj::project_array.{i}", me, inv, x, y), 64) for i in (0, 1)))
            new = Comp(a.id, body, arr_len(it, s, arr) if "arr_len" in globals() else arr.len)
        except (Undecided, Fork, AttributeError):
            new = SArr(f"projected#{it.nsym}", arr.len, getattr(arr, "ty", None))
        c0, p0, off, ln = seq_of(it, s, v)
        it.store(s, (c0, p0), it.arr_write(s, it.load(s, (c0, p0)), off, new))
        outs.append((s, ok(v)))
    return outs


# ---- calendar (chrono): a combination of numbers is an instant exactly when it is valid in the proleptic Gregorian calendar
LR = "chrono::offset::LocalResult"


def fdivp(x, n):
    return P(atom("div", P(x), n, lo=-INF, hi=INF)) if P(x).const is None else P(int(P(x).const) // n)


def le_p(a, b):
    return le0(P(a) - P(b))


def date_valid(y, m, d):
    y, m, d = P(y), P(m), P(d)
    def mult(n):
        return eq0(y - n * fdivp(y, n))
    leap = mult(4) - mult(100) + mult(400)
    dim = P(31) - eq0(m - 4) - eq0(m - 6) - eq0(m - 9) - eq0(m - 11) - eq0(m - 2) * (P(3) - leap)
    return [le_p(1, m), le_p(m, 12), le_p(1, d), le_p(d, dim)]


def time_valid(h, mi, s):
    return [le_p(0, h), le_p(h, 23), le_p(0, mi), le_p(mi, 59), le_p(0, s), le_p(s, 59)]


def all_of(cs):
    r = ONE
    for c in cs:
        r = r * P(c)
    return r


def ints(it, st, xs):
    return [it.as_int(st, it.settle(st, x)) for x in xs]


@pat(r".*TimeZone::with_ymd_and_hms")
def m_ymd_hms(it, st, fn, args, aty, dty, where):
    y, m, d, h, mi, s = ints(it, st, args[1:7])
    outs = []
    good = st.copy()
    ok_ = True
    for c in date_valid(y, m, d) + time_valid(h, mi, s):
        nxt = None
        for s1, v in split(good, c):
            if v:
                nxt = s1
            else:
                outs.append((s1, Agg(LR, 2, [])))
        if nxt is None:
            ok_ = False
            break
        good = nxt
    if ok_:
        outs.append((good, Agg(LR, 0, [Opq("instant", y, m, d, h, mi, s)])))
    return outs


@pat(r"chrono::(naive::)?(date::)?NaiveDate::from_ymd_opt")
def m_from_ymd(it, st, fn, args, aty, dty, where):
    y, m, d = ints(it, st, args)
    outs, good = [], st.copy()
    for c in date_valid(y, m, d):
        nxt = None
        for s1, v in split(good, c):
            if v:
                nxt = s1
            else:
                outs.append((s1, NONE))
        if nxt is None:
            return outs
        good = nxt
    return outs + [(good, some(Opq("date", y, m, d)))]


@pat(r"chrono::(naive::)?(date::)?NaiveDate::and_hms_opt")
def m_and_hms(it, st, fn, args, aty, dty, where):
    dt = it.settle(st, args[0])
    if isinstance(dt, Ptr):
        dt = it.settle(st, it.load(st, (dt.cell, dt.path)))
    if not (isinstance(dt, Opq) and dt.tag == "date"):
        return NotImplemented
    h, mi, s = ints(it, st, args[1:4])
    outs, good = [], st.copy()
    for c in time_valid(h, mi, s):
        nxt = None
        for s1, v in split(good, c):
            if v:
                nxt = s1
            else:
                outs.append((s1, NONE))
        if nxt is None:
            return outs
        good = nxt
    return outs + [(good, some(Opq("instant", *dt.args, h, mi, s)))]


@pat(r"chrono::.*(NaiveDateTime::and_utc|TimeZone::from_utc_datetime)")
def m_and_utc(it, st, fn, args, aty, dty, where):
    v = it.settle(st, args[-1])
    if isinstance(v, Ptr):
        v = it.settle(st, it.load(st, (v.cell, v.path)))
    return [(st, v)] if isinstance(v, Opq) and v.tag == "instant" else NotImplemented


@pat(r"chrono::offset::LocalResult::(unwrap|single|earliest|latest)")
def m_lr(it, st, fn, args, aty, dty, where):
    v = it.settle(st, args[0])
    if not (isinstance(v, Agg) and v.name == LR):
        return NotImplemented
    what = fn["p"].rsplit("::", 1)[1]
    if what == "unwrap":
        good = v.variant == 0
        it.oblige(st, good, "unwrap", "LocalResult::unwrap on a value that is not an instant", where, ZERO)
        return [(st, v.fields[0])] if good else []
    return [(st, some(v.fields[0]) if v.variant == 0 else NONE)]


@pat(r"core::(option::Option|result::Result)(<.*>)?::unwrap_or_default")
def m_unwrap_or_default(it, st, fn, args, aty, dty, where):
    t = it.tn(dty)
    d = vec(EMPTY) if re.match(r"(alloc|std)::vec::Vec<", t) else ZERO if it.is_int(it.T(dty)) else None
    if d is None:
        return NotImplemented
    good = "Some" if "Option" in fn["p"] else "Ok"
    r = []
    for s, x in it.settle_all(st, args[0]):
        if not isinstance(x, Agg) or x.variant is None:
            return NotImplemented
        n = it.adts[x.name]["variants"][x.variant]["name"] if x.name in it.adts else None
        if n not in ("Some", "None", "Ok", "Err"):
            return NotImplemented
        r.append((s, x.fields[0] if n == good else d))
    return r


import strmodels  # registers its models
