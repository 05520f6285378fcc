"""Definition files to named tables: keys, names, rows, and failures."""
import itertools
from common import *
import strmodels as T
from c38 import exported

G2COLS = ["Title_en", "SubTitle_en", "CodeFlag", "Value", "MeaningParameterDescription_en", "Note_en", "UnitComments_en", "Status"]
C00COLS = ["GRIB version number", "BUFR version number", "CREX version number", "Effective date", "Status"]
C11COLS = ["CREX2", "GRIB2_BUFR4", "OriginatingGeneratingCentre_en", "Status"]


class Csv:
    """the CSV reader: the rows of each file by path; any open and any row may fail"""

    def __init__(self, C, an):
        self.C, self.an, self.files, self.maps = C, an, {}, {}
        h = an.it.hooks
        h["std::fs::File::open"] = self.open
        h["csv::reader::Reader::from_reader"] = h["csv::reader::ReaderBuilder::from_reader"] = self.reader
        h["csv::reader::Reader::from_path"] = self.open
        h["csv::reader::Reader::deserialize"] = h["csv::reader::Reader::into_deserialize"] = self.rows
        for n in ("DeserializeRecordsIter", "DeserializeRecordsIntoIter"):
            h[f"<csv::reader::{n}<R,D> as core::iter::traits::iterator::Iterator>::next"] = self.next
        h["serde_core::de::MapAccess::next_key"] = self.next_key
        h["serde_core::de::MapAccess::next_value"] = self.next_value
        h["iter_next"] = self.iter_next
        self.cols = None

    def open(self, it, st, fn, args, argtys, dty, where):
        p = T.text_of(it, st, strv_(it, st, args[0]))
        s = st.copy()
        s.events = s.events + (("failed", "open"),)
        return [(st, models.ok(Opq("file", p))), (s, models.err(Opq("ioerror", "open")))]

    def reader(self, it, st, fn, args, argtys, dty, where):
        return [(st, args[-1])]

    def rows(self, it, st, fn, args, argtys, dty, where):
        v = it.settle(st, args[0])
        if isinstance(v, Ptr):
            v = it.settle(st, it.ptr_load(st, v))
        return [(st, Agg("csv_rows", None, [v, ZERO, Opq("str", self.record_of(fn.get("inst") or ""))]))]

    def record_of(self, inst):
        import re
        r = re.findall(r"grib_build::\w+::\w*Record\w*", inst)
        return r[-1] if r else ""

    def iter_next(self, it, st, ptr, v, t, where):
        if isinstance(v, Agg) and v.name == "csv_rows":
            return self.next(it, st, dict(p="next", inst=t["s"] if t else ""), [ptr], None, None, where)
        return NotImplemented

    def next(self, it, st, fn, args, argtys, dty, where):
        p = args[0]
        v = it.settle(st, it.load(st, (p.cell, p.path)))
        if not (isinstance(v, Agg) and v.name == "csv_rows"):
            raise Undecided(f"rows of {v!r}")
        f, pos, rec = v.fields
        rows = self.files.get(repr(f))
        if rows is None:
            raise Undecided(f"rows of unknown file {f!r}")
        i = st.norm(pos).const
        if i >= len(rows):
            return [(st, models.NONE)]
        ty = self.record_of(fn.get("inst") or "") or rec.args[0]
        bad = st.copy()
        it.store(bad, (p.cell, p.path), Agg("csv_rows", None, [f, pos + 1, rec]))
        bad.events = bad.events + (("failed", "row"),)
        it.store(st, (p.cell, p.path), Agg("csv_rows", None, [f, pos + 1, rec]))
        v = self.record(ty, rows[i])
        return [(st, models.some(models.ok(v))), (bad, models.some(models.err(Opq("csverror", i))))]

    def record(self, ty, row):
        m = self.mapping(ty, list(row))
        name, rty, fs = m
        return Agg(name, None, [row[f.args[0].args[0]] if isinstance(f, Opq) and f.tag == "toks" else f for f in fs], rty)

    def mapping(self, ty, cols):
        """which column each field of the record type takes, from its deserializer"""
        k = (ty, tuple(cols))
        if k not in self.maps:
            an = self.an
            stack = an.it.stack
            try:
                self.derive(k, an, ty, cols)
            finally:
                an.it.stack = stack
        return self.maps[k]

    def derive(self, k, an, ty, cols):
        if True:
            vs = [x for x in an.d["bodies"] if ty in x and "visit_str<" in x]
            vm = [x for x in an.d["bodies"] if x.startswith("<<" + ty) and "visit_map<" in x]
            if len(vs) != 1 or len(vm) != 1:
                raise Undecided(f"deserializer of {ty}")
            fields = []
            for c in cols:
                st = St()
                (s, v), = an.run_key(vs[0], [Opq("visitor"), Ptr(an.it.newcell(st, Opq("str", c), None, "col"))], st)
                fields.append(an.it.settle(s, v).fields[0])
            self.cols = list(zip(cols, fields))
            st = St()
            st.ghost = dict(st.ghost, col=ZERO)
            c = an.it.newcell(st, Opq("map"), None, "map")
            outs = [(s, an.it.settle(s, v)) for s, v in an.run_key(vm[0], [Opq("visitor"), Opq("map")], st)]
            good = [v for s, v in outs if isinstance(v, Agg) and v.variant == 0]
            if len(good) != 1:
                raise Undecided(f"deserializer of {ty}: {len(outs)} results")
            r = good[0].fields[0]
            self.maps[k] = (r.name, r.ty, r.fields)

    def next_key(self, it, st, fn, args, argtys, dty, where):
        i = st.norm(st.ghost["col"]).const
        if i >= len(self.cols):
            return [(st, models.ok(models.NONE))]
        return [(st, models.ok(models.some(self.cols[i][1])))]

    def next_value(self, it, st, fn, args, argtys, dty, where):
        i = st.norm(st.ghost["col"]).const
        st.ghost = dict(st.ghost, col=P(i + 1))
        return [(st, models.ok(T.text(self.cols[i][0])))]


def strv_(it, st, v):
    return models.strv(it, st, v)


def sub(kind, d, c):
    """a subtitle naming nothing, a discipline, or a discipline and a category; the name of the table without its prefix"""
    if kind == 0:
        return Opq("str", ""), ()
    w = T.Opq("text", "name", " ,:")
    if kind == 1:
        return T.toks("Product discipline ", T.num(d), " - ", w), (d,)
    return T.toks("Product discipline ", T.num(d), " - ", w, ", parameter category ", T.num(c), ": ", w), (d, c)


def g2row(title, subtitle, code, desc):
    return {"Title_en": title, "SubTitle_en": subtitle, "CodeFlag": Opq("str", code), "Value": T.text("value"), "MeaningParameterDescription_en": desc,
            "Note_en": T.text("note"), "UnitComments_en": T.text("unit"), "Status": T.text("status")}


def octet_sym(n):
    return P(atom("sym", n, lo=0, hi=255))


def failed(s):
    return any(e[0] == "failed" for e in s.events)


def consts(C, an, s, events):
    """[(name pieces, [texts])] of the constants shown"""
    lines = []
    for e in events:
        if e[0] == "fmt":
            lines += T.pieces(an.it, s, e[1])
    cur, out, buf = [], [], []
    for p in lines:
        if isinstance(p, str):
            bits = p.split("\n")
            for i, b in enumerate(bits):
                if i:
                    out.append(cur)
                    cur = []
                if b:
                    cur.append(b)
        else:
            cur.append(p)
    out.append(cur)
    res = []
    for l in out:
        if not l or not isinstance(l[0], str) or not l[0].startswith("const "):
            continue
        head = []
        rows = None
        l = [l[0][6:]] + l[1:]
        for p in l:
            if isinstance(p, str) and ":" in p:
                head.append(p.split(":")[0])
                break
            head.append(p)
        for p in l:
            if isinstance(p, Opq) and p.tag == "fmt" and p.args[0] == "debug":
                rows = an.it.settle(s, p.args[2])
                rows = an.it.settle(s, rows.fields[0]) if isinstance(rows, Agg) and rows.name == "vec" else rows
        res.append((T.toks(*head), rows))
    return res


def same_row(C, an, name, s, cs, wanted, key):
    """wanted: [(name, [(code, text)])]; every constant shown is one of these with all its rows"""
    for nm, rows in cs:
        n = s.norm(rows.len).const if isinstance(rows, ARR) else None
        if n is None:
            C.und(name, f"rows {rows!r:.100}")
            continue
        got = [T.text_of(an.it, s, an.it.arr_get(s, rows, P(i))) for i in range(n)]
        hit = [w for w in wanted if s.decide(an.it.settle(s, T.text_eq(an.it, s, nm, w[0]))) is True]
        maybe = [w for w in wanted if s.decide(an.it.settle(s, T.text_eq(an.it, s, nm, w[0]))) is None]
        if not hit:
            if maybe:
                C.und(name, f"name {nm!r:.120}")
            else:
                C.record(C.reach(an, s, f"a table named {show(nm)}, where the files define {', '.join(show(w[0]) for w in wanted) or 'none'}"), name, "", key=key)
            continue
        want = [(code, t) for w in hit for code, t in w[1]]
        full = [Opq("str", "")] * (max(c for c, _ in want) + 1) if want else []
        for code, t in want:
            full[code] = t
        if got == full:
            C.ok(name)
        else:
            C.record(C.reach(an, s, f"table {show(nm)} holds {[show(g) for g in got]}, its rows are {[show(g) for g in full]}"), name, "", key=key)
    for w in wanted:
        ds = [s.decide(an.it.settle(s, T.text_eq(an.it, s, nm, w[0]))) for nm, _ in cs]
        if True not in ds and None not in ds:
            C.record(C.reach(an, s, f"no table named {show(w[0])}"), name, "", key=key)


def show(v):
    if isinstance(v, Opq) and v.tag in ("toks", "str"):
        return "".join(p if isinstance(p, str) else "{" + (short(p.args[0]) if p.tag == "num" else str(p.args[0])) + "}" for p in v.args)
    return repr(v)[:80]


def load(C, an, s, load_key, db, path):
    return an.run_key(load_key, [Ptr(db), Ptr(an.it.newcell(s, path, None, "path"))], s)


def variant(an, s, v):
    v = an.it.settle(s, v)
    return v.variant if isinstance(v, Agg) else None


def module(an, m):
    f = lambda n: an.find(r"^" + n)[0]
    base = "grib_build::" + m + "::CodeDB"
    return (f(base + "::new$"), f(base + "::load"), f("<" + base + " as core::fmt::Display>::fmt$"), f(base + "::export$"))


def run(C):
    an = An("gen")
    an.it.unroll_limit = 24
    csv = Csv(C, an)
    new, ld, disp, exp = module(an, "grib2_codeflag_csv")
    title = T.text("title", "\n")
    # one file: row groups by subtitle
    shapes = [[(0,)], [(1,)], [(2,)], [(0,), (0,)], [(1,), (1,)], [(2,), (2,)], [(1,), (2,)], [(1, "a"), (1, "b"), (1, "a")], [(2, "a"), (2, "b"), (2, "a")],
              [(2, "a"), (2, "a"), (2, "b")], [(2, "a"), (2, "b", "a"), (2, "a")], [(2, "a"), (2, "b"), (2, "b"), (2, "a"), (2, "c")]]
    S, N = octet_sym("section"), octet_sym("number")
    path = T.toks("def/GRIB2/GRIB2_CodeFlag_", T.num(S), "_", T.num(N), "_CodeTable_en.csv")
    for shape in shapes:
        name = "rows of " + " ".join("none discipline category".split()[x[0]] + "".join(f" {y}" for y in x[1:]) for x in shape)
        with C.part(name):
            an.it.havoc.clear()
            rows, groups = [], []
            for i, x in enumerate(shape):
                d = octet_sym("discipline " + (x[1] if len(x) > 1 else str(i)))
                c = octet_sym("category " + (x[2] if len(x) > 2 else x[1] if len(x) > 1 else str(i)))
                subtitle, id_ = sub(x[0], d, c)
                groups.append(id_)
                rows.append((subtitle, id_))
            # the code of a row counts within its own group; rows whose numbers may agree are told apart by the path
            for part in partitions(groups):
                st = St()
                feasible = True
                for a, b in itertools.combinations(range(len(rows)), 2):
                    ga, gb = groups[a], groups[b]
                    if len(ga) != len(gb):
                        continue
                    e = ONE
                    for u, w in zip(ga, gb):
                        e = e * eq0(u - w)
                    if not st.assume(e, int(part[a] == part[b])):
                        feasible = False
                if not feasible:
                    continue
                count, recs, want = {}, [], {}
                for i, (subtitle, id_) in enumerate(rows):
                    code = count.get(part[i], 0)
                    count[part[i]] = code + 1
                    d = T.toks("T", Opq("text", f"meaning {i}", ""))
                    recs.append(g2row(title, subtitle, str(code), d))
                    w = T.toks("CODE_TABLE_", T.num(S), "_", T.num(N), *[y for z in id_ for y in ("_", T.num(z))])
                    want.setdefault(part[i], (w, []))[1].append((code, d))
                csv.files = {repr(Opq("file", T.text_of(an.it, st, path))): recs}
                one_file(C, an, name, st, new, ld, disp, path, list(want.values()))
    with C.part("two files"):
        S2, N2 = octet_sym("section 2"), octet_sym("number 2")
        p2 = T.toks("GRIB2_CodeFlag_", T.num(S2), "_", T.num(N2), "_CodeTable_en.csv")
        D, E = octet_sym("discipline"), octet_sym("discipline 2")
        sa, ia = sub(1, D, None)
        sb, ib = sub(1, E, None)
        ta, tb = T.toks("T", Opq("text", "first", "")), T.toks("T", Opq("text", "second", ""))
        csv.files = {repr(Opq("file", path)): [g2row(title, sa, "0", ta)], repr(Opq("file", p2)): [g2row(title, sb, "0", tb)]}
        an.it.havoc.clear()
        for s0, v in an.run_key(new, [], St()):
            db = an.it.newcell(s0, v, None, "db")
            same = eq0(S - S2) * eq0(N - N2)
            s0.assume(same, 0)
            for s1, r1 in load(C, an, s0, ld, db, path):
                if variant(an, s1, r1) != 0:
                    continue
                for s2, r2 in load(C, an, s1, ld, db, p2):
                    if variant(an, s2, r2) != 0 or s2.decide(eq0(S - S2)) is True and s2.decide(eq0(N - N2)) is True:
                        continue
                    w = [(T.toks("CODE_TABLE_", T.num(S), "_", T.num(N), "_", T.num(D)), [(0, ta)]),
                         (T.toks("CODE_TABLE_", T.num(S2), "_", T.num(N2), "_", T.num(E)), [(0, tb)])]
                    displayed(C, an, "two files", s2, disp, db, w)
    with C.part("refused subtitles"):
        D = P(atom("sym", "wide discipline", lo=0, hi=100000))
        K = P(atom("sym", "wide category", lo=0, hi=100000))
        wide = sub(2, D, K)[0]
        for what, subtitle, ok in (("no number", Opq("str", "Product discipline"), None), ("other text", Opq("str", "Meteorological products"), None),
                                   ("a category that is no number", T.toks("Product discipline ", T.num(D), " - x, parameter category x: y"), None),
                                   ("text after the discipline", T.toks("Product discipline ", T.num(D), " - x, other 3: y"), None),
                                   ("numbers beyond an octet", wide, le0(D - 255) * le0(K - 255))):
            an.it.havoc.clear()
            st = St()
            csv.files = {repr(Opq("file", path)): [g2row(title, subtitle, "0", T.text("meaning"))]}
            for s0, v in an.run_key(new, [], st):
                db = an.it.newcell(s0, v, None, "db")
                for s1, r1 in load(C, an, s0, ld, db, path):
                    if variant(an, s1, r1) == 0:
                        require(C, an, s1, ok if ok is not None else ZERO, "refused subtitles", f"a row with a subtitle that is not understood ({what}) is an error", key="refused")
                    else:
                        C.ok("refused subtitles")
    with C.part("numbers of the file name"):
        S3, N3 = P(atom("sym", "wide section", lo=0, hi=100000)), P(atom("sym", "wide number", lo=0, hi=100000))
        p3 = T.toks("GRIB2_CodeFlag_", T.num(S3), "_", T.num(N3), "_CodeTable_en.csv")
        csv.files = {repr(Opq("file", p3)): [g2row(title, Opq("str", ""), "0", T.text("meaning"))]}
        an.it.havoc.clear()
        for s0, v in an.run_key(new, [], St()):
            db = an.it.newcell(s0, v, None, "db")
            for s1, r1 in load(C, an, s0, ld, db, p3):
                if variant(an, s1, r1) == 0:
                    require(C, an, s1, le0(S3 - 255) * le0(N3 - 255), "numbers of the file name", "a section or table number beyond an octet is an error", key="refused")
    with C.part("one table asked for"):
        for kind in (0, 1, 2):
            an.it.havoc.clear()
            D, K = octet_sym("discipline"), octet_sym("category")
            subtitle, id_ = sub(kind, D, K)
            t = T.toks("T", Opq("text", "meaning", ""))
            csv.files = {repr(Opq("file", path)): [g2row(title, subtitle, "0", t)]}
            oa = next(n for n in an.d["adts"] if n.endswith("OptArg"))
            vs = [x["name"] for x in an.d["adts"][oa]["variants"]]
            if vs != ["None", "L1", "L2"]:
                raise Undecided(f"variants {vs}")
            for s0, v in an.run_key(new, [], St()):
                db = an.it.newcell(s0, v, None, "db")
                for s1, r1 in load(C, an, s0, ld, db, path):
                    if variant(an, s1, r1) != 0:
                        continue
                    for s2, x in an.run_key(exp, [Ptr(db), Agg("tuple", None, [S, N, Agg(oa, kind, list(id_))])], s1.copy()):
                        s2.events = ()
                        cs = consts(C, an, s2, (("fmt", x),))
                        same_row(C, an, "one table asked for", s2, cs, [(T.toks("CODE_TABLE_", T.num(S), "_", T.num(N), *[y for z in id_ for y in ("_", T.num(z))]), [(0, t)])], "name")
    common_tables(C, an, csv)
    no_silent(C, an)
    C.used(an)


def one_file(C, an, name, st, new, ld, disp, path, want):
    for s0, v in an.run_key(new, [], st):
        db = an.it.newcell(s0, v, None, "db")
        s0.events = ()
        for s1, r in load(C, an, s0, ld, db, path):
            ok = variant(an, s1, r)
            if failed(s1):
                if ok == 0:
                    C.bad("failures", f"loading succeeds although {'a file cannot be opened' if ('failed', 'open') in s1.events else 'a record cannot be read'}", key="failures")
                else:
                    C.ok("failures")
                continue
            if ok != 0:
                C.bad(name, "a file whose records can all be read is refused", key="refused")
                continue
            displayed(C, an, name, s1, disp, db, want)


def displayed(C, an, name, s, disp, db, want):
    s = s.copy()
    s.events = ()
    c = an.it.newcell(s, Opq("formatter"), None, "fmt")
    for s2, r in an.run_key(disp, [Ptr(db), Ptr(c)], s):
        if variant(an, s2, r) != 0:
            continue
        same_row(C, an, name, s2, consts(C, an, s2, s2.events), want, "name")


def partitions(groups):
    """ways in which the row groups may coincide: equal labels for equal numbers"""
    n = len(groups)
    out = []
    for lab in itertools.product(range(n), repeat=n):
        if all(lab[i] <= max(lab[:i], default=-1) + 1 for i in range(n)) and all(
                (lab[i] == lab[j]) <= (len(groups[i]) == len(groups[j])) and ((groups[i] == groups[j]) <= (lab[i] == lab[j])) for i in range(n) for j in range(i)):
            out.append(lab)
    return out


def common_tables(C, an, csv):
    new, ld, disp, exp = module(an, "cct_csv")
    t = [T.toks("T", Opq("text", f"entry {i}", "")) for i in range(3)]
    other = [T.text(f"status {i}") for i in range(3)]

    def c00(i):
        return {"GRIB version number": Opq("str", str(i)), "BUFR version number": Opq("str", str(i + 7)), "CREX version number": Opq("str", str(i + 8)),
                "Effective date": t[i], "Status": other[i]}

    def c11(i):
        return {"CREX2": Opq("str", str(i + 7)), "GRIB2_BUFR4": Opq("str", str(i)), "OriginatingGeneratingCentre_en": t[i], "Status": other[i]}
    p0, p11 = Opq("str", "def/CCT/C00.csv"), Opq("str", "def/CCT/C11.csv")
    f0, f11 = repr(Opq("file", p0)), repr(Opq("file", p11))
    w0 = (Opq("str", "COMMON_CODE_TABLE_00"), [(i, t[i]) for i in range(2)])
    w11 = (Opq("str", "COMMON_CODE_TABLE_11"), [(i, t[i]) for i in range(3)])
    for seq in ([p0], [p11], [p0, p11], [p11, p0]):
        name = "common tables " + " ".join(p.args[0][8:11] for p in seq)
        with C.part(name):
            an.it.havoc.clear()
            csv.files = {f0: [c00(0), c00(1)], f11: [c11(0), c11(1), c11(2)]}
            work = [(s, an.it.newcell(s, v, None, "db")) for s, v in an.run_key(new, [], St())]
            for p in seq:
                nxt = []
                for s, db in work:
                    s.events = ()
                    for s1, r in load(C, an, s, ld, db, p):
                        ok = variant(an, s1, r)
                        if failed(s1):
                            if ok == 0:
                                C.bad("failures", "loading a common code table succeeds although a file cannot be opened or a record cannot be read", key="failures common")
                            else:
                                C.ok("failures")
                        elif ok != 0:
                            C.bad(name, "a file whose records can all be read is refused", key="refused common")
                        else:
                            nxt.append((s1, db))
                work = nxt
            for s, db in work:
                displayed(C, an, name, s, disp, db, [w0 if p is p0 else w11 for p in seq])
                for p, i, w in ((p0, 0, w0), (p11, 11, w11)):
                    if p not in seq:
                        continue
                    for s2, x in an.run_key(exp, [Ptr(db), P(i)], s.copy()):
                        same_row(C, an, name, s2, consts(C, an, s2, (("fmt", x),)), [w], "name common")


def no_silent(C, an):
    C.no_panic(an, "loading definition files")
    with C.part("build script"):
        build_script(C)


def build_script(C):
    """the build script loads every file before it writes the tables, and any failure of either is its own"""
    an = An("buildrs")
    an.it.unroll_limit = 40

    def fallible(name):
        def h(it, st, fn, args, argtys, dty, where):
            s = st.copy()
            s.events = s.events + (("failed", name),)
            st.events = st.events + ((name,) + tuple(models.snap(it, st, a) for a in args),)
            return [(st, models.ok(models.UNIT)), (s, models.err(Opq("error", name)))]
        return h
    h = an.it.hooks
    for m in ("cct_csv", "grib2_codeflag_csv"):
        h[f"grib_build::{m}::CodeDB::load"] = fallible("load")
        h[f"grib_build::{m}::CodeDB::new"] = h[f"<grib_build::{m}::CodeDB as core::default::Default>::default"] = lambda it, st, fn, args, a, d, w, m=m: [(st, Opq("db", m))]
    h["std::fs::write"] = fallible("write")
    k = an.find(r"^vp_buildrs::main$")[0]
    good = 0
    for s, v in an.run_key(k, [], St()):
        ok = variant(an, s, v)
        if failed(s):
            what = ", ".join(e[1] for e in s.events if e[0] == "failed")
            if ok == 0:
                C.bad("build script", f"the build goes on although it failed to {what}", key="build")
            else:
                C.ok("build script")
            continue
        if ok != 0:
            continue
        good += 1
        loads = [e for e in s.events if e[0] == "load"]
        writes = [e for e in s.events if e[0] == "write"]
        for m, out in (("cct_csv", "cct.rs"), ("grib2_codeflag_csv", "grib2_codeflag.rs")):
            ws = [e for e in writes if m in repr(e[2])]
            if len(ws) != 1 or f"'{out}'" not in repr(ws[0][1]) and f"/{out}'" not in repr(ws[0][1]):
                C.und("build script", f"{m} is written by {len(ws)} writes")
                continue
            ls = [e for e in loads if m in repr(e[1])]
            late = [e for e in ls if s.events.index(e) > s.events.index(ws[0])]
            if late:
                C.bad("build script", f"{late[0][2]!r} is loaded after the tables are written", key="build order")
            else:
                C.ok("build script")
    if not good:
        C.und("build script", "no successful run found")
