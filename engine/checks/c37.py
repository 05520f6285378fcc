"""Text export: rows of latitude, longitude and value of the same grid point, in grid order."""
import strmodels as T
from c36 import *


class Rows:
    """what the text shows: the numbers written, in order, and what separates them"""

    def __init__(self, an, row):
        self.an, self.row = an, row
        h = an.it.hooks
        for p in ("core::fmt::Formatter::", "core::fmt::Write::", "<core::fmt::Formatter as core::fmt::Write>::", "<core::fmt::Formatter<'_> as core::fmt::Write>::"):
            for m in ("write_fmt", "write_str", "write_char"):
                h[p + m] = self.write

        h["core::clone::Clone::clone"] = self.clone
        h["core::iter::traits::iterator::Iterator::next"] = self.next

    def clone(self, it, st, fn, args, argtys, dty, where):
        v = it.settle(st, args[0])
        while isinstance(v, Ptr):
            v = it.settle(st, it.ptr_load(st, v))
        return [(st, v)] if isinstance(v, Agg) and not fn.get("rp") else NotImplemented

    def next(self, it, st, fn, args, argtys, dty, where):
        return models.iter_next(it, st, args[0], None, where) if not fn.get("rp") and isinstance(args[0], Ptr) else NotImplemented

    def write(self, it, st, fn, args, argtys, dty, where):
        for p in T.pieces(it, st, args[1]):
            if isinstance(p, str):
                ws = 2 if "\n" in p else 1 if any(c.isspace() for c in p) else 0
                if ws:
                    st.ghost = dict(st.ghost, sep=P(max(ws, st.norm(st.ghost["sep"]).const or 0)))
                continue
            v = p.args[-1] if isinstance(p, Opq) and p.args else p
            v = it.settle(st, v)
            while isinstance(v, Ptr):
                v = it.settle(st, it.ptr_load(st, v))
            if isinstance(v, Opq) and v.tag == "trimmed":
                pass
            elif isinstance(v, F):
                self.number(it, st, v, p)
            elif isinstance(v, (Opq, Agg)) or "console::" in repr(p):
                # text (the heading): ends no row
                st.ghost = dict(st.ghost, sep=ZERO)
            else:
                raise Undecided(f"written {type(v)} {type(p)} {p!r:.80}")
        s = st.copy()
        s.events = s.events + (("failed", "print"),)
        return [(st, models.ok(models.UNIT)), (s, models.err(Opq("fmterror")))]

    def number(self, it, st, v, p):
        g = st.ghost
        k, c, sep = st.norm(g["k"]), st.norm(g["c"]).const, st.norm(g["sep"]).const
        if c is None or sep is None:
            raise Undecided("column of a number")
        want = self.row(st, k)[c]
        wrong = P(g["wrong"])
        same = it.settle(st, v) == want or repr(v) == repr(want)
        if not same and isinstance(v, F) and isinstance(want, F) and v.op == "frombits" and want.op == "frombits":
            same = st.decide(eq0(P(v.args[0]) - P(want.args[0]))) is True or st.norm(P(v.args[0]) - P(want.args[0])).const == 0
        if not same:
            wrong = ONE
            st.events = st.events + (("wrong", f"column {c} of row {k!r}: {v!r:.60} instead of {want!r:.60}"),)
        if sep < (2 if c == 0 else 1) or (c and sep == 2):
            wrong = ONE
            st.events = st.events + (("wrong", f"column {c} of row {k!r} is not set apart"),)
        if c == 2 and isinstance(p, Opq) and p.tag == "fmt" and p.args[1][2] is not None:
            wrong = ONE
            st.events = st.events + (("wrong", "values are rounded"),)
        st.ghost = dict(g, k=k + (c + 1) // 3, c=P((c + 1) % 3), sep=ZERO, wrong=wrong)


def coords(k, nan):
    if nan:
        return [F("nan", (), 32)] * 2
    return [F("frombits", (datum(w, ZERO, k),), 32) for w in ("lat", "lon")]


def printed(an, s):
    """the values handed to print!, with the type that displays them"""
    r = []
    for e in s.events:
        if e[0] != "print":
            continue

        def walk(x, d=0):
            if d > 6:
                return
            if isinstance(x, Opq) and x.tag == "arg":
                r.append(x.args[1])
            elif isinstance(x, Opq):
                for y in x.args:
                    walk(y, d + 1)
            elif isinstance(x, (tuple, list)):
                for y in x:
                    walk(y, d + 1)
            elif isinstance(x, VArr):
                for y in x.el:
                    walk(y, d + 1)
        walk(e[1])
    return r


def run(C):
    for n in (0, 1, 3, None):
        name = f"text of {n if n is not None else 'any number of'} values"
        with C.part(name):
            N = P(n) if n is not None else P(atom("sym", "N", lo=0, hi=1 << 40))
            an, W, ends = sessions(C, "decode", (), 1, N)
            done = set()
            for s, code, how in ends:
                failed = [e[1] for e in s.events if e[0] == "failed"]
                coord = [e[1] for e in s.events if e[0] == "coordinates"]
                if failed or not coord:
                    continue
                done.add(coord[0])
                shown = printed(an, s)
                if coord[0] == "failed":
                    if not shown and s.decide(eq0(code)) is False:
                        C.ok("another coordinate error fails the command")
                    else:
                        C.bad("another coordinate error fails the command", f"{name}: {how} with status {code!r} after a coordinate error other than not supported", key="coordinate errors")
                    continue
                nan = coord[0] == "unsupported"
                require(C, an, s, eq0(code), "unsupported coordinates do not fail the command" if nan else "success", f"{name}: {how} with status {code!r}", key=f"status, {coord[0]}")
                if s.decide(eq0(code)) is not True:
                    continue
                show = [x for x in shown if isinstance(x, Agg)]
                if len(show) != 1:
                    if not shown:
                        C.bad("values are printed", f"{name}: nothing printed", key="nothing printed")
                    else:
                        C.und("values are printed", f"{name}: {shown!r:.100}")
                    continue
                v = show[0]
                ks = [k for k, b in an.d["bodies"].items() if re.match(r"<" + re.escape(v.name) + r"(<.*>)? as core::fmt::Display>::fmt$", b["path"])]
                if len(ks) != 1:
                    C.und(name, f"display of {v.name}")
                    continue
                st = s.copy()
                st.events = ()
                st.ghost = dict(st.ghost, k=ZERO, c=ZERO, sep=P(2), wrong=ZERO)
                R = Rows(an, lambda st, k: coords(k, nan) + [F("frombits", (datum("values", ZERO, k),), 32)])
                f = Ptr(an.it.newcell(st, Opq("formatter"), None, "fmt"))
                good = 0
                an.it.unroll_limit = 24 if n is not None else 0
                for s1, r in an.run_key(ks[0], [Ptr(an.it.newcell(st, v, None, "view")), f], st):
                    for s2, x in an.it.settle_all(s1, r):
                        wrong = [e[1] for e in s2.events if e[0] == "wrong"]
                        if x.variant == 1:
                            continue
                        good += 1
                        w = "with NaN for unsupported coordinates" if nan else "with coordinates"
                        require(C, an, s2, eq0(s2.ghost["wrong"]), f"rows {w}", f"{name}: {wrong[0] if wrong else 'other numbers'}", key=f"rows {w}")
                        require(C, an, s2, eq0(P(s2.ghost["k"]) - N) * eq0(s2.ghost["c"]), f"every value has a row {w}", f"{name}: {s2.ghost['k']!r} rows", key=f"number of rows {w}")
                if not good:
                    C.und(name, "never printed completely")
            for w in ("ok", "unsupported", "failed"):
                if w not in done:
                    C.und(name, f"coordinates {w}: not reached")
            C.no_panic(an, name)
            C.used(an)
