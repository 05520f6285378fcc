"""Projected grids: what the projection library is asked, and how its answers become coordinates.

The projection library is a stand-in: forward (x, y) -> (x + 3, y + 5), backward (x, y) -> (2x, 3y); any of its calls may fail.
The grid's index iterator is a stand-in handing out arbitrary pairs: the k-th point is (I[k], J[k])."""
import strmodels as T
from common import *
from models import ok, err, some, NONE, tup, split, seq_of

GRIDS = [("polar stereographic", "grib::grid::polar_stereographic::PolarStereographicGridDefinition"), ("Lambert", "grib::grid::lambert::LambertGridDefinition")]
RAD = (F("sym", ("a",), 64), F("sym", ("b",), 64))


class Lib:
    def __init__(self, C, an, n):
        self.C, self.an, self.n = C, an, P(n)
        h = an.it.hooks
        for m in ("project", "convert", "project_array", "convert_array", "new", "new_known_crs"):
            h[f"proj::Proj::{m}"] = h[f"proj::proj::Proj::{m}"] = getattr(self, m, self.other)
        h["grib::grid::earth::EarthShapeDefinition::radii"] = self.radii
        h["grib::grid::GridPointIndexIterator::new"] = self.indices
        h["<grib::grid::GridPointIndexIterator as core::iter::traits::iterator::Iterator>::next"] = self.next
        h["<grib::grid::GridPointIndexIterator as core::iter::traits::iterator::Iterator>::size_hint"] = self.hint
        h["iter_next"] = self.iter_next

    def other(self, it, st, fn, args, argtys, dty, where):
        raise Undecided(f"{fn['p']}")

    def fails(self, st, what, good):
        s = st.copy()
        s.events = s.events + (("failed", what),)
        return [(st, good), (s, err(Opq("projerror", what)))]

    def radii(self, it, st, fn, args, argtys, dty, where):
        s = st.copy()
        s.events = s.events + (("failed", "radii"),)
        return [(st, some(tup(*RAD))), (s, NONE)]

    def new(self, it, st, fn, args, argtys, dty, where):
        t = T.text_of(it, st, args[-1])
        st.events = st.events + (("definition", t),)
        return self.fails(st, "definition", ok(Agg("vp::proj", None, [])))

    def flag(self, it, st, v):
        c = st.norm(it.as_int(st, v)).const
        if c is None:
            raise Undecided("direction of a projection")
        return c

    def project(self, it, st, fn, args, argtys, dty, where):
        inv = self.flag(it, st, args[2])
        x, y = it.settle(st, args[1]).fields
        st.events = st.events + (("projected", inv, x, y),)
        return self.fails(st, "projection of the first point", ok(self.forward(x, y) if not inv else self.back(x, y)))

    def forward(self, x, y):
        return tup(fadd(x, fc(3.0)), fadd(y, fc(5.0)))

    def back(self, x, y):
        return tup(fmul(x, fc(2.0)), fmul(y, fc(3.0)))

    def project_array(self, it, st, fn, args, argtys, dty, where):
        inv = self.flag(it, st, args[2])
        c, path, off, ln = seq_of(it, st, args[1])
        arr = it.load(st, (c, path))
        n = st.norm(ln).const
        if n is None:
            raise Undecided("number of points projected")
        el = []
        for i in range(n):
            x, y = it.settle(st, it.arr_get(st, arr, off + i)).fields
            el.append(self.back(x, y) if inv else self.forward(x, y))
        r = self.fails(st, "projection of the points", ok(args[1]))
        it.store(st, (c, path), it.arr_write(st, arr, off, VArr(el)))
        return r

    # -- indices
    def indices(self, it, st, fn, args, argtys, dty, where):
        st.events = st.events + (("indices",) + tuple(it.settle(st, a) for a in args),)
        return [(st, Agg("vp::ij", None, [ZERO]))]

    def iter_next(self, it, st, ptr, v, t, where):
        if not (isinstance(v, Agg) and v.name == "vp::ij"):
            return NotImplemented
        k = v.fields[0]
        r = []
        for s, more in split(st, le0(k + 1 - self.n)):
            if more:
                it.store(s, (ptr.cell, ptr.path), Agg(v.name, None, [k + 1]))
                r.append((s, some(tup(index("I", k), index("J", k)))))
            else:
                r.append((s, NONE))
        return r

    def next(self, it, st, fn, args, argtys, dty, where):
        return self.iter_next(it, st, args[0], it.settle(st, it.ptr_load(st, args[0])), None, where)

    def hint(self, it, st, fn, args, argtys, dty, where):
        v = it.settle(st, it.ptr_load(st, args[0]))
        n = self.n - v.fields[0]
        return [(st, tup(n, some(n)))]


def index(w, k):
    return P(atom("elem", w, P(k), lo=0, hi=(1 << 32) - 1, w=32))


def definition_text(t):
    """the parameters of a definition: name -> value, or None if the text is not plain"""
    r, cur = {}, None
    name, vals = None, []
    words = []
    for p in t.args:
        if isinstance(p, str):
            parts = p.split(" ")
            for i, w in enumerate(parts):
                if i:
                    words.append([])
                elif not words:
                    words.append([])
                if w:
                    words[-1].append(w)
        else:
            if not words:
                words.append([])
            words[-1].append(p)
    for w in words:
        if not w:
            continue
        if not isinstance(w[0], str) or not w[0].startswith("+"):
            return None
        k, eq, rest = w[0][1:].partition("=")
        v = ([rest] if rest else []) + w[1:]
        if len(v) > 1 or k in r:
            return None
        r[k] = v[0] if v else ""
    return r


def point(k, rad, dx, dy):
    X = fadd(fadd(rad("first_point_lon"), fc(3.0)), fmul(dx, i2f(index("I", k))))
    Y = fadd(fadd(rad("first_point_lat"), fc(5.0)), fmul(dy, i2f(index("J", k))))
    cast = lambda v: F("fcast", (v,), 32)
    return Tup(cast(F("to_degrees", (fmul(Y, fc(3.0)),), 64)), cast(F("to_degrees", (fmul(X, fc(2.0)),), 64)))


def number(v):
    if isinstance(v, str):
        try:
            return fc(float(v))
        except ValueError:
            return None
    if isinstance(v, Opq) and v.tag == "shown":
        return v.args[0]
    return v


def run(C):
    for grid, path in GRIDS:
        for n in (0, 1, 3):
            name = f"{grid} grid of {n} points"
            with C.part(name):
                an = C.an = An("grib")
                Lib(C, an, n)
                st0 = St()
                p, = an.fresh_args(st0, path + "::latlons")
                obj = an.it.load(st0, (p.cell, p.path))
                g = lambda f, o=obj: P(an.it.as_int(st0, C.fld(an, o, f)))
                flags = lambda f: P(an.it.as_int(st0, an.it.settle(st0, C.fld(an, obj, f)).fields[0]))
                mode = A([k for k in flags("scanning_mode").m][0][0])
                neg_i, pos_j = bits(mode, 7, 1), bits(mode, 6, 1)
                deg = lambda f: fmul(i2f(g(f)), fc(1e-6))
                want = {"a": RAD[0], "b": RAD[1], "lon_0": deg("lov")}
                polar = grid != "Lambert"
                if polar:
                    want.update(proj="stere", lat_ts=deg("lad"))
                    pc = A([k for k in flags("projection_centre").m][0][0])
                    south = bits(pc, 7, 1)
                else:
                    want.update(proj="lcc", lat_0=deg("lad"), lat_1=deg("latin1"), lat_2=deg("latin2"))
                seen = set()
                for s, v in an.run(path + "::latlons", [p], st0):
                    for st, r in an.it.settle_all(s, v):
                        failed = [e[1] for e in st.events if e[0] == "failed"]
                        if failed:
                            seen.add(failed[0])
                            if r.variant == 1:
                                C.ok(f"{grid}: {failed[0]} failing is an error")
                            else:
                                C.bad(f"{grid}: {failed[0]} failing is an error", f"{name}: coordinates are returned although {failed[0]} failed", key=f"{grid}: {failed[0]}")
                            continue
                        if r.variant == 1:
                            # the grid's own refusals
                            low = bits(mode, 0, 4)
                            cond = ONE - eq0(low)
                            if polar:
                                cond = ONE - eq0(low) * eq0(bits(pc, 0, 6))
                            en = an_name(an, an.it.settle(st, r.fields[0]))
                            require(C, an, st, cond, f"{grid}: refused only for unsupported flags", f"{name}: {en}", key=f"{grid}: refusals")
                            seen.add("refused")
                            continue
                        seen.add("ok")
                        ev = {}
                        for e in st.events:
                            if e[0] in ("definition", "projected", "indices"):
                                ev.setdefault(e[0], []).append(e[1:])
                        if len(ev.get("definition", [])) != 1 or len(ev.get("projected", [])) != 1 or len(ev.get("indices", [])) != 1:
                            C.und(name, f"calls of the library: { {k: len(x) for k, x in ev.items()} }")
                            continue
                        d = definition_text(ev["definition"][0][0])
                        if d is None:
                            C.und(f"{grid}: definition", f"{ev['definition'][0][0]!r:.200}")
                            continue
                        w = dict(want)
                        cases = [(ONE, w)]
                        if polar:
                            cases = [(south, dict(w, lat_0=fc(-90.0))), (ONE - south, dict(w, lat_0=fc(90.0)))]
                        for cond, w in cases:
                            s2 = st.copy()
                            if s2.decide(cond) is None:
                                s2.conds += ((cond, 1),)
                            if not s2.assume(cond, 1):
                                continue
                            for k in sorted(set(w) | set(d)):
                                nm = f"{grid}: parameter {k} of the definition"
                                if k not in w:
                                    C.und(nm, f"extra parameter {d[k]!r:.60}")
                                elif k not in d:
                                    C.record(C.reach(C.an, s2, f"{name}: no +{k}"), nm, key=nm)
                                elif isinstance(w[k], str):
                                    C.record("eq" if d[k] == w[k] else C.reach(C.an, s2, f"{d[k]!r} instead of {w[k]}"), nm, key=nm)
                                else:
                                    x = number(d[k])
                                    C.record(C.cmp(an, s2, x, w[k]) if x is not None else ("unk", f"{d[k]!r:.60}"), nm, key=nm)
                        inv, x, y = ev["projected"][0]
                        nm = f"{grid}: first grid point projected"
                        C.record("eq" if not inv else C.reach(C.an, st, f"{name}: projected backwards"), nm, key=nm)
                        rad = lambda f: F("to_radians", (deg(f),), 64)
                        C.record(C.cmp(an, st, tup(x, y), Tup(rad("first_point_lon"), rad("first_point_lat"))), nm, key=nm)
                        nm = f"{grid}: indices of the grid"
                        ni, nj, md = ev["indices"][0]
                        C.record(C.cmp(an, st, tup(ni, nj), Tup(g("ni"), g("nj"))), nm, key=nm)
                        C.record(C.cmp(an, st, an.it.settle(st, md).fields[0], flags("scanning_mode")), nm, key=nm)
                        # points
                        it = an.it.settle(st, r.fields[0])
                        if not (isinstance(it, Agg) and it.name == "vec_iter"):
                            C.und(name, f"returned {it!r:.100}")
                            continue
                        arr, pos, end = it.fields
                        C.record(C.cmp(an, st, end - pos, P(n)), f"{grid}: one pair per point", key=f"{grid}: number of pairs")
                        step = lambda f: fmul(i2f(g(f)), fc(1e-3))
                        signed = lambda neg, f: ((neg * (ONE - eq0(g(f))), fop("neg", 64, step(f))), ((ONE - neg) * (ONE - eq0(g(f))), step(f)), (eq0(g(f)), None))
                        for ci, dx in signed(neg_i, "dx"):
                            for cj, dy in signed(ONE - pos_j, "dy"):
                                s2 = st.copy()
                                dead = False
                                for c in (ci, cj):
                                    if s2.decide(c) is None:
                                        s2.conds += ((c, 1),)
                                    dead = dead or not s2.assume(c, 1)
                                if dead:
                                    continue
                                m = st.norm(end - pos).const
                                # a step of nothing has either sign
                                alts = [(x, y) for x in ([dx] if dx is not None else [step("dx"), fop("neg", 64, step("dx"))])
                                        for y in ([dy] if dy is not None else [step("dy"), fop("neg", 64, step("dy"))])]
                                for k in range(n if m is None else min(n, m)):
                                    got = an.it.settle(s2, an.it.arr_get(s2, arr, pos + k))
                                    rs = [C.cmp(an, s2, got, point(k, rad, x, y)) for x, y in alts]
                                    r = "eq" if "eq" in rs else rs[0]
                                    C.record(r, f"{grid}: coordinates of point {k} of {n}", key=f"{grid}: coordinates")
                for w in ("radii", "definition", "projection of the first point", "projection of the points", "refused", "ok"):
                    if w not in seen:
                        C.und(name, f"{w}: not reached")
                C.no_panic(an, name)
                C.used(an)
