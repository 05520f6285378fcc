"""Listings of the command line tool: one line per submessage, in order, showing that submessage's own properties."""
import re
import strmodels as T
from c36 import *
from c37 import Rows, printed
from models import some, NONE, ok, err

LOOK = re.compile(r"<?grib::(codetables::)?.*Lookup.*::lookup$")


def sym(what, k, bits=8):
    return P(atom("sym", f"{what} of submessage {k}", lo=0, hi=(1 << bits) - 1))


class Lists:
    """the accessors of submessages, and the lines written"""

    def __init__(self, an, absent, W, cmd):
        self.an, self.absent, self.W, self.cmd = an, absent, W, cmd
        W.real = cmd == "inspect"
        h = an.it.hooks
        S, PD, GD, RD = ("grib::context::SubMessage::", "grib::datatypes::sections::ProdDefinition::", "grib::datatypes::sections::GridDefinition::", "grib::datatypes::sections::ReprDefinition::")
        for n in ("prod_def", "grid_def", "repr_def", "indicator", "describe"):
            h[S + n] = self.part(n)
        for n in ("parameter_category", "parameter_number", "generating_process"):
            h[PD + n] = self.optional(n, lambda k, n=n: sym(n, k))
        h[PD + "forecast_time"] = self.optional("forecast time", lambda k: Agg("vp::text", None, ["forecast time", k]))
        h[PD + "fixed_surfaces"] = self.optional("surfaces", lambda k: tup(self.fixed("first", k), self.fixed("second", k)))
        h[GD + "num_points"] = self.value("grid points", 32)
        h[GD + "grid_tmpl_num"] = self.value("grid template", 16)
        h[RD + "num_points"] = self.value("values", 32)
        h["<&grib::context::SubmessageIterator<R> as core::iter::traits::collect::IntoIterator>::into_iter"] = lambda it, st, fn, args, argtys, dty, where: [(st, dig(it, st, args[0]))]
        FS = "grib::datatypes::product_attributes::FixedSurface::"
        h[FS + "value"] = self.surface(lambda st, w, k: [(st, F("sym", (f"value of the {w} surface of submessage {k}",), 64))])
        h[FS + "unit"] = self.surface(self.unit)
        h["<T as grib::codetables::old::Lookup>::lookup"] = self.lookup
        G = "grib::datatypes::sections::GridDefinitionTemplateValues"
        h[f"<{G} as core::convert::TryFrom<&grib::datatypes::sections::GridDefinition>>::try_from"] = self.grid
        h[G + "::short_name"] = lambda it, st, fn, args, argtys, dty, where: [(st, Ptr(it.newcell(st, Opq("grid name", dig(it, st, args[0]).fields[0]), None, "name")))]
        h["grib::context::SubMessageSection::template_code"] = self.template
        h["grib::context::TemplateInfo::describe"] = self.tdescribe
        h["grib::context::Grib2::list_templates"] = lambda it, st, fn, args, argtys, dty, where: [(st, models.vec(VArr([self.tinfo(i) for i in range(2)])))]
        h["grib::context::Grib2::sections"] = self.sections
        h["std::io::stdio::_print"] = self.print
        h["grib::datatypes::sections::Identification::ref_time"] = self.ref_time
        for n in ("centre_id", "subcentre_id", "master_table_version", "local_table_version", "ref_time_significance", "prod_status", "data_type"):
            h["grib::datatypes::sections::Identification::" + n] = lambda it, st, fn, args, argtys, dty, where, n=n: [(st, sym(n, repr(dig(it, st, args[0])), 16 if "centre" in n else 8))]
        for n in ("display", "debug", "lower_hex", "upper_hex", "lower_exp", "upper_exp", "octal", "binary"):
            h["core::fmt::rt::Argument::new_" + n] = lambda it, st, fn, args, argtys, dty, where, n=n: [(st, Opq("arg", n, dig(it, st, args[0])))]
        R = Rows(an, None)
        h["core::clone::Clone::clone"], h["core::iter::traits::iterator::Iterator::next"] = R.clone, R.next
        for t in ("&str", "alloc::string::String"):
            h[f"<alloc::borrow::Cow<str> as core::convert::From<{t}>>::from"] = lambda it, st, fn, args, argtys, dty, where: [(st, Agg("vp::Cow", 0, [args[0]]))]
        for p in ("::write_fmt", "::write_str", "::write_char"):
            for w in ("core::fmt::Formatter", "core::fmt::Write", "<core::fmt::Formatter as core::fmt::Write>", "<core::fmt::Formatter<'_> as core::fmt::Write>"):
                h[w + p] = self.write

    def k(self, it, st, v, name):
        v = dig(it, st, v)
        if isinstance(v, Agg) and v.name == name:
            return v.fields[-1]
        raise Undecided(f"{name} expected, got {v!r:.60}")

    def part(self, n):
        def h(it, st, fn, args, argtys, dty, where):
            k = self.k(it, st, args[0], "vp::sub")
            v = Agg("vp::" + n, None, [k])
            if n == "indicator":
                a = next(x for x in self.an.d["adts"] if x.endswith("::Indicator"))
                v = Agg(a, None, [sym("discipline" if f[0] == "discipline" else f[0], st.norm(k).const) for f in self.an.d["adts"][a]["variants"][0]["fields"]])
            if n == "describe":
                return [(st, Opq("description", st.norm(P(k))))]
            t = it.T(dty)
            return [(st, Ptr(it.newcell(st, v, None, n)) if t["k"] in ("ref", "ptr") else v)]
        return h

    def optional(self, n, mk):
        def h(it, st, fn, args, argtys, dty, where):
            k = st.norm(self.k(it, st, args[0], "vp::prod_def")).const
            return [(st, NONE if (n, k) in self.absent else some(mk(k)))]
        return h

    def value(self, n, bits):
        def h(it, st, fn, args, argtys, dty, where):
            v = dig(it, st, args[0])
            return [(st, sym(n, st.norm(v.fields[0]).const, bits))]
        return h

    def print(self, it, st, fn, args, argtys, dty, where):
        st.events = st.events + (("print", args[0], st.copy()),)
        return [(st, models.UNIT)]

    def ref_time(self, it, st, fn, args, argtys, dty, where):
        return self.W.fails(st, "ref_time", ok(Opq("time", repr(dig(it, st, args[0])))))

    def tinfo(self, i):
        a = next(x for x in self.an.d["adts"] if x.endswith("context::TemplateInfo"))
        return Agg(a, None, [sym("section of template", i), sym("number of template", i, 16)])

    def template(self, it, st, fn, args, argtys, dty, where):
        v = dig(it, st, args[0])
        i = self.an_index(v)
        return [(st, NONE if ("template", repr(i)) in self.absent else some(self.tinfo(repr(i))))]

    def an_index(self, sect):
        a = next(x for x in self.an.d["adts"] if x.endswith("context::SubMessageSection"))
        names = [f[0] for f in self.an.d["adts"][a]["variants"][0]["fields"]]
        return sect.fields[names.index("index")]

    def tdescribe(self, it, st, fn, args, argtys, dty, where):
        v = dig(it, st, args[0])
        for i in range(2):
            if repr(v.fields[0]) == repr(self.tinfo(i).fields[0]):
                return [(st, NONE if ("describe", i) in self.absent else some(Opq("description", P(i))))]
        raise Undecided(f"template {v!r:.80}")

    def sections(self, it, st, fn, args, argtys, dty, where):
        ty = next(i for i, t in enumerate(self.an.d["types"]) if t["s"] == "grib::context::SectionInfo")
        self.sects = SArr("section", P(3), ty)
        for i in range(3):
            x = it.arr_get(st, self.sects, P(i))
            st.add_le0(field(self.an, x, "offset") + field(self.an, x, "size") - (1 << 62))
        return [(st, Agg("slice_iter", None, [Ptr(it.newcell(st, self.sects, None, "sections"), ()), ZERO, P(3)]))]

    def fixed(self, w, k):
        """a surface with fields of its own, by which it is known again"""
        a = next(x for x in self.an.d["adts"] if x.endswith("::FixedSurface"))
        r = {"scale_factor": (-127, 127), "scaled_value": (-(1 << 31) + 1, (1 << 31) - 1)}
        return Agg(a, None, [P(atom("sym", f"{f[0]} of the {w} surface of submessage {k}", lo=r.get(f[0], (0, 255))[0], hi=r.get(f[0], (0, 255))[1]))
                             for f in self.an.d["adts"][a]["variants"][0]["fields"]])

    def surface(self, mk):
        def h(it, st, fn, args, argtys, dty, where):
            v = dig(it, st, args[0])
            m = re.findall(r"of the (\w+) surface of submessage (\d+)", repr(v.fields))
            if len(set(m)) != 1 or len(m) != len(v.fields):
                raise Undecided(f"surface {v!r:.80}")
            return mk(st, m[0][0], int(m[0][1]))
        return h

    def unit(self, st, w, k):
        return [(st, NONE if (f"{w} unit", k) in self.absent else some(Ptr(self.an.it.newcell(st, Opq("unit", w, k), None, "unit"))))]

    def lookup(self, it, st, fn, args, argtys, dty, where):
        t = dig(it, st, args[0])
        k = st.norm(it.as_int(st, args[1]))
        return [(st, Opq("entry", t.name.split("::")[-1], tuple(st.norm(P(f)) for f in t.fields), k))]

    def grid(self, it, st, fn, args, argtys, dty, where):
        v = dig(it, st, args[0])
        k = st.norm(v.fields[0]).const
        return [(st, err(Opq("error", "grid")) if ("grid type", k) in self.absent else ok(Agg("vp::grid", None, [P(k)])))]

    def write(self, it, st, fn, args, argtys, dty, where):
        st.events = st.events + (("write", tuple(flat(it, st, args[1]))),)
        return [(st, models.ok(models.UNIT))]


def flat(it, st, v, d=0):
    """the text written: literal pieces and shown values, padding as a space"""
    r = []
    for p in T.pieces(it, st, v):
        if isinstance(p, Opq) and p.tag == "fmt" and d < 8:
            kind, (fl, w, pr), x = p.args
            r += [" "] if w else []
            if kind == "display" and pr is None:
                r += flat(it, st, x, d + 1)
            elif isinstance(dig(it, st, x), Poly):
                r.append(Opq("number", kind, pr, dig(it, st, x)))
            else:
                r.append(Opq("as", kind, pr, *flat(it, st, x, d + 1)))
        else:
            r.append(p)
    return r


def split_numbers(p):
    return [num(int(x)) if x.isdigit() else x for x in re.split(r"(\d+)", p)]


def lines(ps):
    """[[str | value]]: whitespace and column separators collapsed"""
    r, cur = [], []
    for p in ps:
        if not isinstance(p, str):
            cur.append(p)
            continue
        for i, x in enumerate(p.split("\n")):
            if i:
                r.append(cur)
                cur = []
            cur.append(x)
    r.append(cur)
    out = []
    for l in r:
        m = []
        for p in l:
            if isinstance(p, str) and m and isinstance(m[-1], str):
                m[-1] += p
            else:
                m.append(p)
        m = [re.sub(r"[\s│|]+", " ", p) if isinstance(p, str) else p for p in m]
        if m and isinstance(m[0], str):
            m[0] = m[0].lstrip()
        if m and isinstance(m[-1], str):
            m[-1] = m[-1].rstrip()
        out.append([q for p in m for q in (split_numbers(p) if isinstance(p, str) else [p]) if q != ""])
    return [l for l in out if l]


KNOWN = ("time", "entry", "unit", "grid name", "description", "template text")


def known(p):
    if isinstance(p, str) or (isinstance(p, Opq) and p.tag in KNOWN + ("num", "number")):
        return True
    if isinstance(p, Opq) and p.tag == "as":
        return all(known(x) for x in p.args[2:])
    return isinstance(p, Opq) and p.tag == "shown" and (isinstance(p.args[0], F) and p.args[0].op == "sym" or isinstance(p.args[0], Agg) and p.args[0].name.startswith("vp::"))


def compare(C, an, st, got, want):
    """one line"""
    if len(got) != len(want):
        return C.reach(an, st, f"{got!r:.200} instead of {want!r:.200}") if all(known(p) for p in got) else ("unk", f"line {got!r:.200}")
    for g, w in zip(got, want):
        if isinstance(w, Opq) and w.tag == "missing":
            if not (isinstance(g, Opq) and g.tag == "num"):
                return ("unk", f"number of missing values: {g!r:.100}")
            total, vals = w.args
            few = le0(total - vals)
            for c in (0, 1):
                s2 = st.copy()
                if s2.decide(few) == (not c) or not s2.assume(few, c):
                    continue
                s2.conds += ((few, c),)
                r = C.cmp(an, s2, P(g.args[0]), ZERO if c else total - vals)
                if r != "eq":
                    return r
            continue
        if isinstance(g, Opq) and isinstance(w, Opq) and g.tag == w.tag and g.tag in ("num", "number"):
            if g.args[:-1] != w.args[:-1]:
                return C.reach(an, st, f"{g!r:.100} instead of {w!r:.100}")
            r = C.cmp(an, st, P(g.args[-1]), P(w.args[-1]))
            if r != "eq":
                return r
            continue
        if repr(g) == repr(w):
            continue
        return C.reach(an, st, f"{g!r:.100} instead of {w!r:.100} in {got!r:.200}") if known(g) else ("unk", f"{g!r:.100} in a line")
    return "eq"


def num(p):
    return Opq("num", P(p))


def show(C, name, cmd, opts, items, want, absent=(), head=0, key=None):
    """want(W, L, state): the lines expected"""
    box = []
    an, W, ends = sessions(C, cmd, opts, items, prep=lambda an, W: box.append(Lists(an, set(absent), W, cmd)))
    L = box[0]
    got = 0
    for s, code, how in ends:
        if any(e[0] == "failed" for e in s.events):
            continue
        ps = [e for e in s.events if e[0] == "print"]
        for s1, ws, text in [(s2, ws, text) for s1, text in displayed(C, an, L, s, ps, name) for s2, ws in expected(W, L, s1, want)]:
            got += 1
            ls = [l for l in lines(text) if not all(isinstance(p, str) or "console::" in repr(p) for p in l)]
            if len(ls) != len(ws):
                C.record(C.reach(an, s1, f"{len(ls)} lines instead of {len(ws)}: {ls!r:.200}"), f"{key}: number of lines", name, key=f"{key}: number of lines")
                continue
            for g, w in zip(ls, ws):
                C.record(compare(C, an, s1, g, w), f"{key}: a line", name, key=f"{key}: line")
    if not got:
        C.und(name, "nothing displayed")
    C.no_panic(an, name)
    C.used(an)


def displayed(C, an, L, s, ps, name):
    """[(state, pieces)] of everything printed, in order"""
    work = [(s.copy(), [])]
    for e in ps:
        r = shown(C, an, L, e[2].copy(), e[1], name)
        # a display that does not branch leaves the path as it ended
        work = [(s1 if len(r) == 1 else s2, acc + t) for s1, acc in work for s2, t in r]
    return work


def shown(C, an, L, s, v, name):
    return expand(C, an, L, s, flat(an.it, s, v), name)


def expand(C, an, L, s, ps, name):
    """the values with a display of their own written out"""
    work = [(s, [])]
    for p in ps:
        view = p.args[0] if isinstance(p, Opq) and p.tag == "shown" else None
        if isinstance(view, Agg) and not view.name.startswith("vp::") and view.name.startswith("grib"):
            nxt = []
            for s1, acc in work:
                for s2, t in render(C, an, L, s1, view, name):
                    nxt.append((s2, acc + t))
            work = nxt
        else:
            work = [(s1, acc + [p]) for s1, acc in work]
    return work


def render(C, an, L, s, view, name):
    ks = [k for k, b in an.d["bodies"].items() if re.match(r"<" + re.escape(view.name) + r"(<.*>)? as core::fmt::Display>::fmt$", b["path"])]
    if view.name.endswith("::TemplateInfo") and not ks:
        return [(s, tmpl(view))]
    if len(ks) != 1:
        C.und(name, f"display of {view.name}")
        return []
    st = s.copy()
    st.events = ()
    f = Ptr(an.it.newcell(st, Opq("formatter"), None, "fmt"))
    an.it.unroll_limit = 24
    r = []
    for s1, x in an.run_key(ks[0], [Ptr(an.it.newcell(st, view, None, "view")), f], st):
        for s2, y in an.it.settle_all(s1, x):
            if isinstance(y, Agg) and y.variant == 0:
                r += expand(C, an, L, s2, [p for e in s2.events if e[0] == "write" for p in e[1]], name)
            else:
                C.record(C.reach(an, s2, "display fails"), f"{name}: displayed", key="display fails")
    return r


def tmpl(v):
    return [num(v.fields[0]), ".", num(v.fields[1])]


def row(k, L):
    """the line of `list` for submessage k"""
    def has(n):
        return (n, k) not in L.absent
    w = ["{id} "]
    r = [("id",), " "]
    if has("parameter_category") and has("parameter_number"):
        r += [Opq("entry", "CodeTable4_2", (sym("discipline", k), sym("parameter_category", k)), sym("parameter_number", k)), " "]
    if has("generating_process"):
        r += [Opq("entry", "CodeTable4_3", (), sym("generating_process", k)), " "]
    if has("forecast time"):
        r += [Opq("shown", Agg("vp::text", None, ["forecast time", k])), " "]
    if has("surfaces"):
        for w in ("first", "second"):
            r.append(Opq("shown", F("sym", (f"value of the {w} surface of submessage {k}",), 64)))
            r += [" [", Opq("unit", w, k), "] "] if has(f"{w} unit") else [" "]
    total = sym("grid points", k, 32)
    r += [Opq("missing", total, sym("values", k, 32)), "/ ", num(total), " "]
    r += [Opq("grid name", P(k))] if has("grid type") else ["unknown (template ", num(sym("grid template", k, 16)), ")"]
    return r


def ident(W, k):
    p = W.pair(k)
    return [num(p.fields[0]), ".", num(p.fields[1])]


def rows(n):
    return lambda W, L, st: [ident(W, k) + row(k, L)[1:] for k in range(n)]


def field(an, v, n):
    fs = [f[0] for f in an.d["adts"][v.name]["variants"][v.variant or 0]["fields"]]
    return v.fields[fs.index(n)]


class Split(Exception):
    """the expectation depends on a condition that the state leaves open"""


def holds(st, c):
    d = st.decide(c)
    if d is None:
        raise Split(c)
    return d


def expected(W, L, st, want):
    """[(state, the lines expected)]: the state split on what the expectation depends on"""
    try:
        return [(st, [lines(w)[0] for w in want(W, L, st)])]
    except Split as e:
        r = []
        for v in (True, False):
            s = st.copy()
            if s.assume(e.args[0], v):
                r += expected(W, L, s, want)
        return r


def only(an, st, x, kind=None):
    if isinstance(x, SymEnum) and kind is not None:
        vs = an.d["adts"][an.it.T(x.ty)["n"]]["variants"]
        i = [v["name"] for v in vs].index(kind)
        return an.it.as_variant(st, x, i) if holds(st, eq0(x.discr - vs[i]["discr"])) else None
    r = [v for _, v in an.it.settle_all(st.copy(), x)]
    if len(r) == 1 and isinstance(r[0], SymEnum):
        v = r[0]
        ad = an.d["adts"][an.it.T(v.ty)["n"]]
        r = [an.it.as_variant(st, v, i) for i, x in enumerate(ad["variants"]) if st.decide(eq0(v.discr - x["discr"])) is not False]
    if len(r) != 1:
        raise Undecided(f"{x!r:.80} on the path")
    return r[0]


def body(an, st, W, k, i, kind):
    """the content of section i of submessage k when it is of the kind, else None"""
    sect = dig(an.it, st, field(an, W.made[k].fields[i], "body"))
    b = only(an, st, field(an, sect, "body"), "Some")
    if not (isinstance(b, Agg) and b.variant == 1):
        return None
    b = only(an, st, b.fields[0], kind)
    if not isinstance(b, Agg) or an.d["adts"][b.name]["variants"][b.variant]["name"] != kind:
        return None
    return only(an, st, b.fields[0])


def info(n):
    """every message once: what its Sections 0 and 1 say"""
    def want(W, L, st):
        an, r = L.an, []
        for k in range(n):
            p = W.pair(k)
            first = holds(st, eq0(p.fields[1]))
            a = body(an, st, W, k, 0, "Section0") if first else None
            b = body(an, st, W, k, 1, "Section1") if a else None
            if not b:
                continue

            def of(m):
                return sym(m, repr(b), 16 if "centre" in m else 8)

            def entry(t, x):
                return Opq("entry", t, (), st.norm(P(x)))
            disc = field(an, a, "discipline")
            r += [["Message ", num(p.fields[0])], ["Discipline: ", entry("CodeTable0_0", disc)], ["Total Length: ", num(field(an, a, "total_length"))],
                  ["Originating/generating centre: ", entry("CommonCodeTable11", of("centre_id"))],
                  ["Originating/generating sub-centre: ", num(of("subcentre_id"))],
                  ["GRIB Master Tables Version Number: ", num(of("master_table_version")), " (", entry("CommonCodeTable00", of("master_table_version")), ")"],
                  ["GRIB Local Tables Version Number: ", num(of("local_table_version")), " (", entry("CodeTable1_1", of("local_table_version")), ")"],
                  ["Significance of Reference Time: ", entry("CodeTable1_2", of("ref_time_significance"))],
                  ["Reference time of data: ", Opq("time", repr(b))],
                  ["Production status of processed data: ", entry("CodeTable1_3", of("prod_status"))],
                  ["Type of processed data: ", entry("CodeTable1_4", of("data_type"))]]
        return r
    return want


def structure(W, L, st, n):
    """the lines of inspect --submessages"""
    r = []
    for k in range(n):
        sub = W.made[k]
        l = ident(W, k)
        for i in range(2, 8):
            x = only(L.an, st, sub.fields[i])
            if i == 2:
                x = only(L.an, st, x.fields[0]) if x.variant == 1 else None
            l += [" ", num(L.an_index(x)) if x else "-"]
        for i in (3, 4, 5):
            ix = repr(L.an_index(sub.fields[i]))
            l += [" "] + (["-"] if ("template", ix) in L.absent else tmpl(L.tinfo(ix)))
        r.append(l)
    return r


def sectlines(W, L, st):
    r = []
    for i in range(3):
        x = L.an.it.settle(st, L.an.it.arr_get(st, L.sects, P(i)))
        o, z = field(L.an, x, "offset"), field(L.an, x, "size")
        r.append([num(i), " ", Opq("number", "lower_hex", None, o), " - ", Opq("number", "lower_hex", None, o + z), " Section ", num(field(L.an, x, "num"))])
    return r


def templates(W, L, st):
    return [tmpl(L.tinfo(i)) + ([] if ("describe", i) in L.absent else [" - ", Opq("description", P(i))]) for i in range(2)]


FEATURES = ("parameter_category", "parameter_number", "generating_process", "forecast time", "surfaces", "first unit", "second unit", "grid type")


def run(C):
    for n in (1, 3):
        with C.part(f"list of {n}"):
            show(C, f"list of {n} submessages", "list", (), n, rows(n), key="list")
    for x in FEATURES:
        with C.part(f"list without {x}"):
            for k in (0, 1):
                show(C, f"list of 2 submessages, the {'first' if k == 0 else 'second'} without {x}", "list", (), 2, rows(2), [(x, k)], key="list")
    with C.part("list without anything"):
        show(C, "list of 2 submessages without anything", "list", (), 2, rows(2), [(x, k) for x in FEATURES for k in (0, 1)], key="list")
    for n in (1, 2):
        with C.part(f"dump of {n}"):
            show(C, f"dump of {n} submessages", "list", ("dump",), n, lambda W, L, st: [l for k in range(n) for l in (ident(W, k), [Opq("description", P(k))])], key="dump")
    for n in (1, 2):
        with C.part(f"info of {n}"):
            show(C, f"info of {n} submessages", "info", (), n, info(n), key="info")
    for n in (1, 2):
        with C.part(f"structure of {n}"):
            show(C, f"structure of {n} submessages", "inspect", ("submessages",), n, lambda W, L, st: structure(W, L, st, n), key="structure")
    for i in (3, 4, 5):
        with C.part(f"structure without template of section {i}"):
            show(C, f"structure without a template of section {i}", "inspect", ("submessages",), 1, lambda W, L, st: structure(W, L, st, 1), [("template", f"submessage0.{i}.index")], key="structure")
    with C.part("sections"):
        show(C, "sections", "inspect", ("sections",), 1, sectlines, key="sections")
    for k in (0, 1, 2):
        with C.part(f"templates {k}"):
            show(C, "templates", "inspect", ("templates",), 1, templates, [("describe", k)], key="templates")
    for o in ((), ("sections", "submessages", "templates"), ("sections", "templates")):
        with C.part("inspect " + " ".join(o)):
            show(C, "inspect " + " ".join(o), "inspect", o, 1,
                 lambda W, L, st: sectlines(W, L, st) + (structure(W, L, st, 1) if o != ("sections", "templates") else []) + templates(W, L, st), key="inspect")
