"""The JPEG 2000 decoder and the C library: ownership of what the library hands out, extents of its memory, the read callback.

The library's functions are typed resources: creators return null or a fresh object, destructors end it, every other function
is a use of what it is given.  Rust destructors run where the compiled MIR drops a value (and, for what the decoder returns,
when the caller drops that)."""
from common import *

KINDS = {"stream": "stream", "codec": "codec", "image": "image"}
NULL = Opq("null")
PP = "core::ptr::const_ptr::<impl *const T>::"
PM = "core::ptr::mut_ptr::<impl *mut T>::"
NN = "core::ptr::non_null::NonNull::"


class Rec(dict):
    def __hash__(self):
        return hash(tuple(sorted(map(str, self))))


def ev(st, *e):
    st.events = st.events + (e,)


def elem0(p):
    """pointer to a sequence -> pointer to its first element"""
    c, path, off, _ = p
    return Ptr(c, path + (("i", off),))


class Library:
    def __init__(self, an, comps=(1, 3)):
        self.an, self.it, self.comps = an, an.it, comps
        it = an.it
        self.n = 0
        h = it.hooks
        ours = {"opj_stream_default_create": self.create("stream"), "opj_stream_create": self.create("stream"),
                "opj_stream_set_read_function": self.set_read, "opj_stream_set_user_data": self.set_data,
                "opj_stream_set_user_data_length": self.use_only, "opj_stream_set_skip_function": self.use_only, "opj_stream_set_seek_function": self.use_only,
                "opj_stream_destroy": self.destroy("stream"), "opj_create_decompress": self.create("codec"), "opj_destroy_codec": self.destroy("codec"),
                "opj_set_default_decoder_parameters": self.use_only, "opj_setup_decoder": self.status, "opj_end_decompress": self.status,
                "opj_codec_set_threads": self.status, "opj_decoder_set_strict_mode": self.status, "opj_set_info_handler": self.status,
                "opj_set_warning_handler": self.status, "opj_set_error_handler": self.status,
                "opj_read_header": self.read_header, "opj_decode": self.decode, "opj_image_destroy": self.destroy("image")}
        self.funs = {}
        for t in an.d["types"]:
            if t.get("k") == "fndef":
                p = t["c"].get("rp") or t["c"]["p"]
                if p.startswith("openjpeg_sys::"):
                    b = p.rsplit("::", 1)[1]
                    self.funs[p] = b
                    h[p] = ours.get(b) or self.other(b)
        for q in (PP, PM):
            h[q + "is_null"] = self.is_null
            for f, sg in (("add", 1), ("sub", -1), ("offset", 1)):
                h[q + f] = self.shift(sg)
            h[q + "cast"] = h[q + "cast_mut"] = h[q + "cast_const"] = self.same
            h[q + "as_ref"] = h[q + "as_mut"] = self.opt
        h["core::ptr::null_mut"] = h["core::ptr::null"] = lambda it, st, *a: [(st, NULL)]
        h[NN + "new"] = self.nn_new
        h[NN + "new_unchecked"] = h[NN + "from"] = lambda it, st, fn, args, *a: [(st, Agg("core::ptr::non_null::NonNull", None, [args[0]]))]
        h[NN + "as_ptr"] = self.nn_ptr
        h[NN + "as_ref"] = h[NN + "as_mut"] = lambda it, st, fn, args, *a: self.nn_ptr(it, st, fn, [it.settle(st, it.ptr_load(st, args[0])) if isinstance(args[0], Ptr) else args[0]])
        h["core::slice::<impl [T]>::as_ptr"] = h["core::slice::<impl [T]>::as_mut_ptr"] = h["alloc::vec::Vec::as_ptr"] = h["alloc::vec::Vec::as_mut_ptr"] = \
            lambda it, st, fn, args, *a: [(st, elem0(models.seq_of(it, st, args[0])))]
        h["core::slice::raw::from_raw_parts"] = h["core::slice::raw::from_raw_parts_mut"] = self.raw_parts
        h["core::ptr::slice_from_raw_parts"] = h["core::ptr::slice_from_raw_parts_mut"] = self.raw_parts
        h["core::ptr::copy_nonoverlapping"] = h["core::ptr::copy"] = h["core::intrinsics::copy_nonoverlapping"] = self.copy
        for f in ("copy_to_nonoverlapping", "copy_to"):
            h[PP + f] = h[PM + f] = self.copy
        for f in ("copy_from_nonoverlapping", "copy_from"):
            h[PM + f] = lambda it, st, fn, args, *a: self.copy(it, st, fn, [args[1], args[0], args[2]])
        h["core::mem::forget"] = lambda it, st, fn, args, *a: [(st, models.UNIT)]
        for f in ("cloned", "copied"):
            h["core::iter::traits::iterator::Iterator::" + f] = self.view
        h["core::mem::drop"] = self.mem_drop
        h["drop"] = self.drop_hook
        h["unknown_call"] = self.unknown
        load = it.load

        def guarded(st, addr):
            self.access(st, addr)
            return load(st, addr)
        it.load = guarded
        store = it.store

        def gstore(st, addr, v):
            self.access(st, addr)
            return store(st, addr, v)
        it.store = gstore

    # ---- memory of the library
    def access(self, st, addr):
        c = addr[0]
        if c[0] == "o" and c[1] == NULL:
            ev(st, "null", "dereference of a null pointer")
        m = st.ghost.get("lib")
        if m and c in m:
            d = m[c]
            if d.get("freed"):
                ev(st, "stale", f"access to the memory of the {d['what']} after its release")
            if d.get("cap") is not None and len(addr[1]) and isinstance(addr[1][0], tuple) and addr[1][0][0] == "i":
                ev(st, "extent", d["what"], P(addr[1][0][1]) + 1, d["cap"])

    def reg(self, st, cell, **d):
        m = Rec(st.ghost.get("lib", {}))
        m[cell] = Rec(d)
        st.ghost = dict(st.ghost, lib=m)

    def info(self, st, v):
        """registered object behind a pointer value: (cell, record) | None for null | False when unknown"""
        if isinstance(v, Ite):
            d = st.decide(v.c)
            if d is None:
                raise Fork(v.c)
            return self.info(st, v.a if d else v.b)
        if isinstance(v, Agg) and v.name and "NonNull" in v.name:
            return self.info(st, v.fields[0])
        if v == NULL:
            return None
        if isinstance(v, Ptr):
            d = st.ghost.get("lib", {}).get(v.cell)
            return (v.cell, d) if d else False
        return False

    def use(self, st, v, how):
        r = self.info(st, v)
        if r:
            if r[1].get("freed"):
                ev(st, "stale", f"the {r[1]['what']} is given to {how} after its release")
        elif r is False and isinstance(v, Opq):
            ev(st, "unknown", f"{how} of {v!r:.60}")
        return r

    def update(self, st, cell, **kw):
        m = Rec(st.ghost["lib"])
        m[cell] = Rec(m[cell], **kw)
        st.ghost = dict(st.ghost, lib=m)

    # ---- library functions
    def create(self, what):
        def f(it, st, fn, args, aty, dty, where):
            s0 = st.copy()
            outs = [(s0, NULL)]
            self.n += 1
            c = it.newcell(st, Opq("opj", what, self.n), None, what)
            self.reg(st, c, what=what, kind=what, id=self.n)
            ev(st, "create", what, c)
            outs.append((st, Ptr(c)))
            return outs
        return f

    def destroy(self, what):
        def f(it, st, fn, args, aty, dty, where):
            v = it.settle(st, args[0])
            r = self.info(st, v)
            if r is None:
                return [(st, models.UNIT)]
            if r is False:
                ev(st, "unknown", f"release of {v!r:.60}")
                return [(st, models.UNIT)]
            c, d = r
            if d["kind"] != what:
                ev(st, "wrong", f"a {d['kind']} is released as a {what}")
            ev(st, "release", d["kind"], c)
            self.update(st, c, freed=True)
            if what == "image":
                for x in d.get("parts", ()):
                    self.update(st, x, freed=True)
            outs = [(st, models.UNIT)]
            if what == "stream" and d.get("data") is not None and not d.get("freed"):
                p, free = d["data"]
                if isinstance(free, FnV):
                    outs = [(s, models.UNIT) for s, _ in it.call_value(st, free, [p], where)]
            return outs
        return f

    def set_read(self, it, st, fn, args, aty, dty, where):
        r = self.use(st, it.settle(st, args[0]), "opj_stream_set_read_function")
        f = self.callback(it, st, args[1])
        if r:
            self.update(st, r[0], read=f)
            ev(st, "callback", f)
        return [(st, models.UNIT)]

    def set_data(self, it, st, fn, args, aty, dty, where):
        r = self.use(st, it.settle(st, args[0]), "opj_stream_set_user_data")
        if r:
            p = it.settle(st, args[1])
            self.update(st, r[0], data=(p, self.callback(it, st, args[2])))
            ev(st, "data", r[0], p)
        return [(st, models.UNIT)]

    def callback(self, it, st, v):
        v = it.settle(st, v)
        if isinstance(v, Agg) and v.variant is not None:
            return it.settle(st, v.fields[0]) if v.fields else None
        return v

    def use_only(self, it, st, fn, args, aty, dty, where):
        for a in args:
            a = it.settle(st, a)
            if self.info(st, a):
                self.use(st, a, fn["p"].rsplit("::", 1)[1])
        return [(st, models.UNIT)]

    def status(self, it, st, fn, args, aty, dty, where):
        self.use_only(it, st, fn, args, aty, dty, where)
        return [(st.copy(), ZERO), (st, ONE)]

    def other(self, name):
        def f(it, st, fn, args, aty, dty, where):
            ev(st, "unknown", f"library function {name}")
            return NotImplemented
        return f

    def feeds(self, it, st, v, how):
        """the library reads from the stream: its data must be alive"""
        r = self.use(st, it.settle(st, v), how)
        if not r:
            return None
        d = r[1].get("data")
        if d is None:
            return r
        seen = set()
        drops = [e[1:] for e in st.events if e[0] == "dropped"]

        def walk(x):
            if isinstance(x, Ptr):
                for c, path in drops:
                    if x.cell == c and x.path[:len(path)] == path:
                        ev(st, "stale", f"{how} reads from data that have been dropped")
                if x.cell in seen:
                    return
                seen.add(x.cell)
                walk(st.mem.get(x.cell))
            elif isinstance(x, Agg):
                for y in x.fields:
                    walk(y)
        for e in st.events:
            if e[0] == "from_raw" and isinstance(d[0], Ptr) and e[1] == d[0]:
                ev(st, "stale", f"{how} uses stream data that have been freed")
        walk(d[0])
        return r

    def read_header(self, it, st, fn, args, aty, dty, where):
        s = self.feeds(it, st, args[0], "opj_read_header")
        k = self.use(st, it.settle(st, args[1]), "opj_read_header")
        out = it.settle(st, args[2])
        outs = []
        f = st.copy()
        outs.append((f, ZERO))
        if not s or not k:
            return outs
        f2 = st.copy()
        self.image(f2, out, 1, True)
        outs.append((f2, ZERO))
        for n in self.comps:
            for plain in (True, False):
                g = st.copy()
                self.image(g, out, n, plain)
                outs.append((g, ONE))
        return outs

    def image(self, st, out, ncomp, plain):
        it = self.it
        self.n += 1
        u = f"img{self.n}"
        sy = lambda n, lo=0, hi=(1 << 32) - 1: P(atom("sym", f"{u}.{n}", lo=lo, hi=hi))
        x0, y0, x1, y1 = (sy(n) for n in ("x0", "y0", "x1", "y1"))
        st.add_le0(x0 + 1 - x1)
        st.add_le0(y0 + 1 - y1)
        parts, cs = [], []
        an = self.an
        ctys = [f[1] for f in an.d["adts"]["openjpeg_sys::ffi::opj_image_comp"]["variants"][0]["fields"]]
        cn = [f[0] for f in an.d["adts"]["openjpeg_sys::ffi::opj_image_comp"]["variants"][0]["fields"]]
        for i in range(ncomp):
            if plain:
                w, h, dx, dy = x1 - x0, y1 - y0, ONE, ONE
            else:
                w, h, dx, dy = sy(f"w{i}", 1), sy(f"h{i}", 1), sy(f"dx{i}", 1, 255), sy(f"dy{i}", 1, 255)
                st.add_le0(w + x0 - x1)
                st.add_le0(h + y0 - y1)
                # sub-sampled at least one way: not all sizes of the image
                st.add_le0(w + h - (x1 - x0) - (y1 - y0) + 1)
            vals = dict(dx=dx, dy=dy, w=w, h=h, factor=ZERO, data=NULL)
            cs.append(Agg("openjpeg_sys::ffi::opj_image_comp", 0, [vals.get(n, sy(f"{n}{i}", *((0, 65535) if t == "u16" else ()))) for n, t in zip(cn, ctys)]))
        cc = it.newcell(st, VArr(cs), None, "comps")
        self.reg(st, cc, what="components of the image", kind="part", cap=P(ncomp))
        parts.append(cc)
        vals = dict(x0=x0, y0=y0, x1=x1, y1=y1, numcomps=P(ncomp), comps=Ptr(cc, (("i", ZERO),)))
        fs = an.d["adts"]["openjpeg_sys::ffi::opj_image"]["variants"][0]["fields"]
        ic = it.newcell(st, Agg("openjpeg_sys::ffi::opj_image", 0, [vals.get(n, NULL if t.startswith("*") else Opq("field", u, n)) for n, t, _ in fs]), None, "image")
        self.reg(st, ic, what="image", kind="image", id=u, parts=tuple(parts), comps=cc, n=ncomp, names=tuple(cn), dims=tuple((c.fields[cn.index("w")], c.fields[cn.index("h")]) for c in cs), plain=plain)
        ev(st, "create", "image", ic)
        it.store(st, (out.cell, out.path), Ptr(ic))

    def decode(self, it, st, fn, args, aty, dty, where):
        k = self.use(st, it.settle(st, args[0]), "opj_decode")
        s = self.feeds(it, st, args[1], "opj_decode")
        im = self.use(st, it.settle(st, args[2]), "opj_decode")
        outs = [(st.copy(), ZERO)]
        if not (k and s and im) or im[1].get("freed") or im[1]["kind"] != "image":
            return outs
        cc = im[1]["comps"]
        el = []
        parts = list(im[1]["parts"])
        names = im[1]["names"]
        for i, c in enumerate(st.mem[cc].el):
            w, h = im[1]["dims"][i]
            pc = it.newcell(st, SArr(f"pixels{i}.{im[1]['id']}", w * h, it.find_ty("i32")), None, "pixels")
            self.reg(st, pc, what="pixels of a single-component image" if im[1]["n"] == 1 else "pixels of a multi-component image", kind="pixels", cap=w * h, comp=i, ncomp=im[1]["n"])
            parts.append(pc)
            f = list(c.fields)
            f[names.index("data")] = Ptr(pc, (("i", ZERO),))
            el.append(Agg(c.name, c.variant, f, c.ty))
        st.mem[cc] = VArr(el)
        self.update(st, im[0], parts=tuple(parts), decoded=True)
        outs.append((st, ONE))
        return outs

    # ---- raw pointers
    def is_null(self, it, st, fn, args, *a):
        v = it.settle(st, args[0])
        if isinstance(v, Ite):
            raise Fork(v.c)
        if v == NULL:
            return [(st, ONE)]
        if isinstance(v, Ptr):
            return [(st, ZERO)]
        return NotImplemented

    def same(self, it, st, fn, args, *a):
        return [(st, args[0])]

    def opt(self, it, st, fn, args, aty, dty, where):
        v = it.settle(st, args[0])
        if v == NULL:
            return [(st, models.NONE)]
        return [(st, models.some(v))]

    def nn_new(self, it, st, fn, args, *a):
        v = it.settle(st, args[0])
        if isinstance(v, Ite):
            raise Fork(v.c)
        if v == NULL:
            return [(st, models.NONE)]
        return [(st, models.some(Agg("core::ptr::non_null::NonNull", None, [v])))]

    def nn_ptr(self, it, st, fn, args, *a):
        v = it.settle(st, args[0])
        if isinstance(v, Agg) and v.name and "NonNull" in v.name:
            v = v.fields[0]
        return [(st, v)]

    def shift(self, sg):
        def f(it, st, fn, args, *a):
            v = it.settle(st, args[0])
            if isinstance(v, Ptr) and v.path and isinstance(v.path[-1], tuple) and v.path[-1][0] == "i":
                return [(st, Ptr(v.cell, v.path[:-1] + (("i", P(v.path[-1][1]) + it.as_int(st, args[1]) * sg),), v.meta))]
            return NotImplemented
        return f

    def extent(self, st, p, n):
        """(base cell/path, offset) of a raw pointer to elements; records the access to n elements"""
        if p == NULL:
            ev(st, "null", "a null pointer is read")
            c = self.it.newcell(st, SArr("null", n, self.it.find_ty("i32")), None, "null")
            return c, (), ZERO
        if not (isinstance(p, Ptr) and p.path and isinstance(p.path[-1], tuple) and p.path[-1][0] == "i"):
            raise Undecided(f"extent of {p!r:.60}")
        off = P(p.path[-1][1])
        d = st.ghost.get("lib", {}).get(p.cell)
        if d:
            if d.get("freed"):
                ev(st, "stale", f"access to the {d['what']} after their release")
            if d.get("kind") == "pixels" and d["ncomp"] != 1:
                ev(st, "wrong", "pixels of a multi-component image are read")
            cap = d["cap"]
            what = d["what"]
        else:
            cap, what = self.it.arrlen(self.it.load(st, (p.cell, p.path[:-1]))), "buffer"
        ev(st, "extent", what, off + n, cap)
        return p.cell, p.path[:-1], off

    def raw_parts(self, it, st, fn, args, *a):
        n = it.as_int(st, args[1])
        c, path, off = self.extent(st, it.settle(st, args[0]), n)
        return [(st, Ptr(c, path, (off, n)))]

    def copy(self, it, st, fn, args, *a):
        n = it.as_int(st, args[2])
        c, path, off = self.extent(st, it.settle(st, args[0]), n)
        c2, path2, off2 = self.extent(st, it.settle(st, args[1]), n)
        src = it.arr_slice(st, it.load(st, (c, path)), off, n)
        it.store(st, (c2, path2), it.arr_write(st, it.load(st, (c2, path2)), off2, src))
        ev(st, "copied", c2, off2, c, off, n)
        return [(st, models.UNIT)]

    def view(self, it, st, fn, args, *a):
        v = it.settle(st, args[0])
        if isinstance(v, Agg) and v.name == "slice_iter" and isinstance(v.fields[0], Ptr) and v.fields[0].cell in st.ghost.get("lib", {}):
            ev(st, "view", v.fields[0].cell, it.load(st, (v.fields[0].cell, ())))
        return NotImplemented

    def unknown(self, it, st, name, args, r, where):
        def has(x, depth=0):
            if depth > 8:
                return False
            if isinstance(x, Ptr):
                if x.cell in st.ghost.get("lib", {}):
                    return True
                return has(st.mem.get(x.cell), depth + 1)
            return isinstance(x, Agg) and any(has(y, depth + 1) for y in x.fields)
        if any(has(x) for x in args):
            ev(st, "unknown", f"call of {name} with an object of the library")

    # ---- destructors
    def holds(self, ti, depth=0, seen=None):
        """may a value of the type own something with a destructor of this crate"""
        m = self.__dict__.setdefault("_holds", {})
        if ti in m:
            return m[ti]
        if depth > 12 or not isinstance(ti, int):
            return False
        m[ti] = False
        t = self.it.T(ti)
        r = False
        if t.get("dropk"):
            r = True
        elif t["k"] == "adt" and t["n"] != "core::mem::manually_drop::ManuallyDrop":
            r = any(self.holds(x, depth + 1) for v in t.get("v") or [] for x in v if isinstance(x, int)) or (
                t["n"].startswith("alloc::") and any(self.holds(x, depth + 1) for x in t.get("a") or [] if isinstance(x, int)))
        elif t["k"] == "tuple":
            r = any(self.holds(x, depth + 1) for x in t["a"])
        elif t["k"] == "closure":
            r = any(self.holds(x, depth + 1) for x in t.get("up") or [])
        elif t["k"] == "array":
            r = self.holds(t["t"], depth + 1)
        elif t["k"] == "dyn":
            r = True
        m[ti] = r
        return r

    def drop_hook(self, it, st, fr, term):
        place = term[1]
        cell, path, _ = it.addr(st, fr, place)
        t = it.T(place[2])
        if t["k"] == "adt" and t["n"].startswith("alloc::"):
            ev(st, "dropped", cell, path)
        if not self.holds(place[2]):
            return None
        return [s for s in self.dropv(st, cell, path, place[2])]

    def mem_drop(self, it, st, fn, args, aty, dty, where):
        ti = aty[0] if aty else None
        if not isinstance(ti, int):
            ev(st, "unknown", "drop of a value of unknown type")
            return [(st, models.UNIT)]
        c = it.newcell(st, args[0], ti, "dropped")
        return [(s, models.UNIT) for s in self.dropv(st, c, (), ti)]

    def dropv(self, st, cell, path, ti):
        it = self.it
        if not self.holds(ti):
            return [st]
        t = it.T(ti)
        states = [st]
        if t.get("dropk"):
            if t["dropk"] not in it.bodies:
                ev(st, "unknown", f"destructor of {t['s']}")
            else:
                states = [s for s, _ in it.call_body(st, t["dropk"], [Ptr(cell, path)])]
        out = []
        for s in states:
            if t["k"] == "dyn":
                v = it.load(s, (cell, path))
                if isinstance(v, Agg) and v.ty is not None and it.T(v.ty)["k"] != "dyn":
                    out += self.dropv(s, cell, path, v.ty)
                else:
                    out.append(s)
                continue
            if t["k"] == "adt" and t["n"] == "alloc::boxed::Box":
                out += self.dropv(s, cell, path + ("bx",), t["a"][0])
                continue
            if t["k"] == "adt" and t["n"].startswith("alloc::"):
                ev(s, "unknown", f"drop of a {t['s']}")
                out.append(s)
                continue
            if t["k"] == "adt" and t.get("v"):
                if len(t["v"]) == 1:
                    cases = [(s, t["v"][0])]
                else:
                    cases = []
                    for s1, v in it.settle_all(s, it.load(s, (cell, path))):
                        if isinstance(v, Agg) and v.variant is not None:
                            it.store(s1, (cell, path), v)
                            cases.append((s1, t["v"][v.variant]))
                        else:
                            ev(s1, "unknown", f"drop of {v!r:.50}")
                            cases.append((s1, []))
                subs = cases
            elif t["k"] == "tuple":
                subs = [(s, t["a"])]
            elif t["k"] == "closure":
                subs = [(s, t.get("up") or [])]
            elif t["k"] == "array":
                ev(s, "unknown", "drop of an array")
                subs = [(s, [])]
            else:
                subs = [(s, [])]
            for s1, fs in subs:
                cur = [s1]
                for i, ft in enumerate(fs):
                    if isinstance(ft, int) and self.holds(ft):
                        cur = [z for y in cur for z in self.dropv(y, cell, path + (i,), ft)]
                out += cur
        return out


def pointers(st, v, seen=None, depth=0):
    """pointers reachable from a value"""
    seen = set() if seen is None else seen
    if depth > 30:
        return
    if isinstance(v, Ptr):
        yield v
        if v.cell not in seen:
            seen.add(v.cell)
            yield from pointers(st, st.mem.get(v.cell), seen, depth + 1)
    elif isinstance(v, Agg):
        for x in v.fields:
            yield from pointers(st, x, seen, depth + 1)
    elif isinstance(v, Ite):
        yield from pointers(st, v.a, seen, depth + 1)
        yield from pointers(st, v.b, seen, depth + 1)
    elif isinstance(v, PView):
        for x in v.__slots__:
            yield from pointers(st, getattr(v, x), seen, depth + 1)


def leaves(v):
    if isinstance(v, Agg):
        return [y for x in v.fields for y in leaves(x)]
    if isinstance(v, Ite):
        return leaves(v.a) + leaves(v.b)
    return [v]


def borrows(it, ti, seen=None):
    """does a value of the type hold an iterator over borrowed 32-bit integers"""
    seen = set() if seen is None else seen
    if not isinstance(ti, int) or ti in seen:
        return False
    seen.add(ti)
    t = it.T(ti)
    if t["k"] == "adt" and t["n"].startswith("core::slice::iter::Iter"):
        return any(it.T(x).get("k") == "int" and it.T(x).get("w") == 32 for x in t.get("a") or [] if isinstance(x, int))
    sub = list(t.get("a") or []) + [x for v in t.get("v") or [] for x in v] + list(t.get("up") or [])
    return any(borrows(it, x, seen) for x in sub)


def verdict(C, an, s, calls):
    """the discipline on one finished path"""
    unk = [e[1] for e in s.events if e[0] == "unknown"]
    for e in s.events:
        if e[0] == "null":
            C.record(("unk", unk[0]) if unk else C.reach(an, s, e[1]), "null results are not used", key="null results are not used")
        elif e[0] in ("stale", "wrong"):
            name = "released objects are not used" if e[0] == "stale" else "only pixels of single-component images are read" if "multi" in e[1] else "objects are released as what they are"
            C.record(("unk", unk[0]) if unk else C.reach(an, s, e[1]), name, key=name)
        elif e[0] == "extent":
            require(C, an, s, le0(P(e[2]) - e[3]), f"{e[1]}: within the extent", f"{P(e[2])!r:.80} elements of {P(e[3])!r:.60} are accessed", key=f"extent: {e[1]}")
    made = [(e[1], e[2]) for e in s.events if e[0] == "create"]
    gone = [e[2] for e in s.events if e[0] == "release"]
    for what, c in made:
        n = gone.count(c)
        name = f"every {what} is released exactly once"
        if n == 1:
            C.ok(name)
        elif unk:
            C.und(name, unk[0])
        else:
            C.record(C.reach(an, s, f"the {what} is released {n} times"), name, key=name)
    # data of the stream
    for e in s.events:
        if e[0] == "data" and isinstance(e[2], Ptr):
            n = sum(1 for x in s.events if x[0] == "from_raw" and x[1] == e[2])
            name = "the stream's data are freed exactly once"
            if n == 1 or not any(x[0] == "into_raw" and x[1] == e[2].cell for x in s.events):
                C.ok(name)
            elif unk:
                C.und(name, unk[0])
            else:
                C.record(C.reach(an, s, f"the data given to the stream are freed {n} times"), name, key=name)
    return unk


def read_callback(C, an, s, f, data, rec):
    """three calls of the read callback with any counts: together they copy the data in order, never more than asked or left"""
    it = an.it
    # the data: the byte sequence reachable from the user data
    seqs = {}
    for q in pointers(s, data):
        try:
            v = it.ptr_load(s, q)
        except (Undecided, Fork):
            continue
        while isinstance(v, Agg) and v.name in ("vec", "box", "sl") and v.fields:
            v = v.fields[0]
        if isinstance(v, ARR):
            c, path, off, n = models.seq_of(it, s, q)
            seqs[(c, path, off, n)] = v
    if len(seqs) != 1:
        C.und("read callback", f"{len(seqs)} byte sequences reachable from the user data")
        return
    (sc, sp, so, total), = seqs
    states = [(s, ZERO, 0)]
    for k in range(3):
        nxt = []
        for st, done, _ in states:
            st = st.copy()
            nb = P(atom("sym", f"nb{k}", lo=1, hi=(1 << 62)))
            buf = it.newcell(st, SArr(f"out{k}", nb, it.find_ty("u8")), None, "out")
            n0 = len(st.events)
            for s1, r in it.call_value(st, f, [Ptr(buf, (("i", ZERO),)), nb, data], None):
                r = it.as_int(s1, r)
                new = s1.events[n0:]
                unk = [e[1] for e in new if e[0] == "unknown"]
                for e in new:
                    if e[0] == "extent":
                        require(C, an, s1, le0(P(e[2]) - e[3]), "the callback stays within the library's buffer and its data", f"{P(e[2])!r:.80} bytes of {P(e[3])!r:.60} are accessed", key="callback extent")
                    elif e[0] in ("null", "stale", "wrong"):
                        C.record(C.reach(an, s1, e[1]), "callback: " + e[1], key="callback: " + e[1])
                left = total - done
                # end of data
                for se, z in models.split(s1.copy(), eq0(left)):
                    rr = se.norm(r)
                    if z:
                        require(C, an, se, eq0(r - ((1 << 64) - 1)), "end of data is reported as such", f"the callback returns {rr!r:.60} at the end of the data", key="end of data")
                        continue
                    require(C, an, se, le0(ONE - r), "bytes are left: some are delivered", f"the callback returns {rr!r:.60} although bytes are left", key="callback count")
                    require(C, an, se, le0(r - nb), "no more than asked for", f"the callback returns {rr!r:.60} for {nb!r}", key="callback count")
                    require(C, an, se, le0(r - left), "no more than are left", f"the callback returns {rr!r:.60} of {left!r:.60}", key="callback count")
                    # what the buffer holds
                    it.nsym += 1
                    i = P(atom("sym", f"i@{it.nsym}", lo=0, hi=1 << 60))
                    sv = se.copy()
                    if sv.add_le0(i + 1 - r) and sv.add_le0(r - nb):
                        try:
                            got = sv.norm(it.as_int(sv, it.arr_get(sv, it.load(sv, (buf, ())), i)))
                            want = sv.norm(it.as_int(sv, it.arr_get(sv, it.arr_slice(sv, seqs[(sc, sp, so, total)], ZERO, total) if False else it.load(sv, (sc, sp)), so + done + i)))
                            C.record(C.cmp(an, sv, got, want), "the bytes delivered are the next ones of the data", key="callback bytes")
                        except (Undecided, Fork) as x:
                            C.und("the bytes delivered are the next ones of the data", str(x)[:80])
                    sn = se.copy()
                    if sn.add_le0(r - left) and sn.add_le0(ONE - r):
                        nxt.append((sn, done + r, k))
                if unk:
                    C.und("read callback", unk[0])
        states = nxt[:8]
    # a null buffer
    st = s.copy()
    for s1, r in it.call_value(st, f, [NULL, P(atom("sym", "nbz", lo=1, hi=(1 << 62))), data], None):
        for e in s1.events[len(s.events):]:
            if e[0] == "null":
                C.record(C.reach(an, s1, e[1]), "a null buffer is not written", key="a null buffer is not written")
    C.ok("a null buffer is not written")


def run(C):
    with C.part("decoding"):
        an = C.an = An("roots", dict(stream.EXT))
        lib = Library(an)
        n = dec = 0
        called = None
        for s, sub, p in decoder_of(C, an, 40):
            for so, v in an.run("dispatch", [p], s):
                n += 1
                cell = an.it.newcell(so, v, None, "result")
                # what the caller gets must not refer to memory that is gone
                freed = {c for c, d in so.ghost.get("lib", {}).items() if d.get("freed")}
                for q in pointers(so, v):
                    if q.cell in freed:
                        C.record(C.reach(an, so, f"the result refers to the {so.ghost['lib'][q.cell]['what']} after their release"), "results do not refer to released memory", key="results do not refer to released memory")
                for e in so.events:
                    if e[0] == "view" and e[1] in freed and e[2] in leaves(v) and borrows(an.it, an.ret_ty("dispatch")):
                        C.record(C.reach(an, so, f"the result iterates over the {so.ghost['lib'][e[1]]['what']} after their release"), "results do not refer to released memory", key="results do not refer to released memory")
                for s1, x in an.it.settle_all(so, v):
                    if an_name(an, x) == "Ok":
                        dec += 1
                for s2 in lib.dropv(so, cell, (), an.ret_ty("dispatch")):
                    verdict(C, an, s2, None)
                    for e in s2.events:
                        if e[0] == "data" and called is None:
                            for c, d in s2.ghost["lib"].items():
                                if c == e[1] and d.get("read") is not None:
                                    called = d["read"], e[2]
        C.sample(f"{n} paths through the decoder, {dec} successful; library functions used: {sorted(set(lib.funs.values()))}")
        if not n or not dec:
            C.und("decoding", "no successful path")
        C.used(an)
    with C.part("read callback"):
        an = C.an = An("roots", dict(stream.EXT))
        lib = Library(an, comps=(1,))
        found = []
        base = lib.read_header

        def stop(it, st, fn, args, aty, dty, where):
            r = lib.info(st, it.settle(st, args[0]))
            if r and r[1].get("read") is not None and r[1].get("data") is not None:
                found.append((st.copy(), r[1]["read"], r[1]["data"][0]))
            return [(st, ZERO)]
        for f, b in lib.funs.items():
            if b == "opj_read_header":
                an.it.hooks[f] = stop
        for s, sub, p in decoder_of(C, an, 40):
            an.run("dispatch", [p], s)
        if not found:
            C.und("read callback", "no stream with a read callback reaches the library")
        an.it.obl.clear()
        for st, f, data in found[:2]:
            read_callback(C, an, st, f, data, None)
        C.no_panic(an, "the callback does not panic", classes=lambda k, o: "panic in the callback")
        C.used(an)
