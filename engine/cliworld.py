"""The command line tool over abstract surroundings: parsed arguments, the file system, the decoded submessages.

Every outside operation that can fail does fail on one of the paths, and leaves a `failed` event there.  The index argument is
any text; whether it matches is decided by the regular expression in the source, compared as a language with the expected one."""
import re
from common import *
import strmodels as T
from models import ok, err, some, NONE, tup, split, seq_of, UNIT

REQ = (P(atom("sym", "M", lo=0, hi=(1 << 64) - 1)), P(atom("sym", "S", lo=0, hi=(1 << 64) - 1)))


def datum(what, sub, k):
    """the bits of a number that belongs to a submessage"""
    return P(atom("elem", f"{what} of submessage {P(sub)!r}", P(k), lo=0, hi=(1 << 32) - 1, w=32))


class World:
    """opts: the options given (id -> True); items: number of submessages; n: number of decoded values (a number or a term)"""

    def __init__(self, C, an, opts=(), items=2, n=2):
        self.C, self.an, self.opts, self.items, self.n = C, an, set(opts), items, P(n)
        self.seen_ids = set()
        self.command = None
        h = an.it.hooks
        for k, b in an.d["bodies"].items():
            if b.get("local", True) and "gribber" in b["path"] and re.match(r"(alloc::vec::Vec<)?clap_builder::builder::command::Command", an.it.T(b["b"]["locals"][0][0])["s"]):
                h[b["path"]] = lambda it, st, fn, args, argtys, dty, where: [(st, Opq("command"))]
        h["clap_builder::builder::command::Command::get_matches"] = lambda it, st, fn, args, argtys, dty, where: [(st, Opq("matches"))]
        h["clap_builder::parser::matches::arg_matches::ArgMatches::get_one"] = self.get_one
        h["clap_builder::parser::matches::arg_matches::ArgMatches::contains_id"] = self.contains
        h["clap_builder::parser::matches::arg_matches::ArgMatches::get_flag"] = self.contains

    def ident(self, it, st, v):
        t = T.text_of(it, st, v)
        if len(t.args) == 1 and isinstance(t.args[0], str):
            self.seen_ids.add(t.args[0])
            return t.args[0]
        raise Undecided(f"argument id {t!r:.80}")

    def get_one(self, it, st, fn, args, argtys, dty, where):
        i = self.ident(it, st, args[1])
        if i in ("FILE", "INDEX") or i in self.opts:
            return [(st, some(Ptr(it.newcell(st, T.toks(T.text(i)), None, i))))]
        return [(st, NONE)]

    def contains(self, it, st, fn, args, argtys, dty, where):
        i = self.ident(it, st, args[1])
        return [(st, P(int(i in ("FILE", "INDEX") or i in self.opts)))]


def dig(it, st, v):
    v = it.settle(st, v)
    while isinstance(v, Ptr):
        v = it.settle(st, it.ptr_load(st, v))
    return v


def surroundings(an):
    """the terminal and the pager: anything"""
    h = an.it.hooks
    sym = lambda n, hi: P(atom("sym", n, lo=0, hi=hi))
    h["console::term::user_attended"] = lambda it, st, fn, args, argtys, dty, where: [(st, sym("attended", 1))]
    h["console::term::Term::size"] = lambda it, st, fn, args, argtys, dty, where: [(st, tup(sym("rows", 65535), sym("columns", 65535)))]
    h["which::which"] = lambda it, st, fn, args, argtys, dty, where: [(st, ok(Opq("path"))), (st.copy(), err(Opq("nopath")))]
    for n in ("trim_end", "trim", "trim_start"):
        h[f"core::str::<impl str>::{n}"] = lambda it, st, fn, args, argtys, dty, where: [(st, Ptr(it.newcell(st, Opq("trimmed"), None, "trimmed")))]


class Flow(World):
    """the operations of the decode command and of opening a file"""

    def __init__(self, C, an, opts=(), items=2, n=2, opening=False, buf=True):
        World.__init__(self, C, an, opts, items, n)
        self.real, self.made = False, {}
        surroundings(an)
        h = an.it.hooks
        H = dict(
            [("std::fs::File::open", self.fopen), ("std::fs::File::create", self.create),
             ("grib::context::from_reader", self.from_reader), ("grib::context::Grib2::is_empty", self.is_empty),
             ("grib::context::Grib2::len", self.length),
             ("grib::context::Grib2::iter", self.iter), ("grib::context::Grib2::submessages", self.iter),
             ("<grib::context::SubmessageIterator<R> as core::iter::traits::iterator::Iterator>::next", self.sub_next),
             ("<grib::context::SubmessageIterator<R> as core::iter::traits::iterator::Iterator>::nth", self.sub_nth),
             ("grib::context::SubMessage::latlons", self.latlons),
             ("grib::decoder::Grib2SubmessageDecoder::from", self.decoder),
             ("grib::decoder::Grib2SubmessageDecoder::dispatch", self.dispatch),
             ("<grib::decoder::Grib2DecodedValues<I> as core::iter::traits::iterator::Iterator>::next", self.seq_next),
             ("<grib::decoder::Grib2DecodedValues<I> as core::iter::traits::iterator::Iterator>::size_hint", self.seq_hint),
             ("<grib::grid::GridPointIterator as core::iter::traits::iterator::Iterator>::next", self.seq_next),
             ("<grib::grid::GridPointIterator as core::iter::traits::iterator::Iterator>::size_hint", self.seq_hint),
             ("<grib::context::SubmessageIterator<R> as core::iter::traits::iterator::Iterator>::size_hint", self.sub_hint),
             ("grib::context::Grib2::sections", self.sections), ("grib::context::Grib2::list_templates", self.templates),
             ("clap_builder::parser::matches::arg_matches::ArgMatches::subcommand", self.subcommand),
             ("grib::datatypes::sections::Identification::ref_time", self.ref_time),
             ("once_cell::sync::Lazy::new", self.lazy_new), ("<once_cell::sync::Lazy<T,F> as core::ops::deref::Deref>::deref", self.lazy),
             ("regex::regex::string::Regex::new", self.re_new), ("regex::regex::string::Regex::captures", self.captures),
             ("regex::regex::string::Regex::is_match", self.is_match),
             ("regex::regex::string::Captures::get", self.group),
             ("<regex::regex::string::Captures as core::ops::index::Index<usize>>::index", self.index_group), ("regex::regex::string::Match::as_str", self.as_str),
             ])
        for n in ("core::str::traits::FromStr::from_str", "<usize as core::str::traits::FromStr>::from_str", "core::str::<impl str>::parse"):
            old = h.get(n)
            H[n] = self.num_parse
        W = "<alloc::io::buffered::bufwriter::BufWriter<W> as core::io::write::Write>::"
        H["alloc::io::buffered::bufwriter::BufWriter::new"] = self.buf_new
        H["alloc::io::buffered::bufwriter::BufWriter::with_capacity"] = self.buf_new
        H["alloc::io::buffered::bufwriter::BufWriter::into_inner"] = self.into_inner
        for w in (W, "<std::fs::File as core::io::write::Write>::", "<&std::fs::File as core::io::write::Write>::", "core::io::write::Write::",
                  "std::io::Write::", "std::fs::File::"):
            H[w + "write_all"] = self.write_all
            H[w + "write"] = self.write
            H[w + "flush"] = self.flush
            H[w + "sync_all"] = H[w + "sync_data"] = self.flush
        H["std::fs::write"] = self.fs_write
        h.update(H)
        h["iter_next"] = self.iter_next

    # -- failures
    def fails(self, st, what, good):
        s = st.copy()
        s.events = s.events + (("failed", what),)
        return [(st, good), (s, err(Opq("error", what)))]

    def fopen(self, it, st, fn, args, argtys, dty, where):
        p = T.text_of(it, st, args[0])
        st.events = st.events + (("opened", p),)
        return self.fails(st, "open", ok(Opq("file", p)))

    def from_reader(self, it, st, fn, args, argtys, dty, where):
        return self.fails(st, "read", ok(Agg("vp::grib", None, [dig(it, st, args[0])])))

    def is_empty(self, it, st, fn, args, argtys, dty, where):
        return [(st, P(int(not self.items)))]

    def length(self, it, st, fn, args, argtys, dty, where):
        return [(st, tup(P(0), P(self.items)))]

    def sub_hint(self, it, st, fn, args, argtys, dty, where):
        return [(st, tup(P(self.items), some(P(self.items))))]

    def ref_time(self, it, st, fn, args, argtys, dty, where):
        return self.fails(st, "ref_time", ok(Opq("time")))

    def sections(self, it, st, fn, args, argtys, dty, where):
        n = P(atom("sym", "nsections", lo=0, hi=1 << 58))
        ty = next(i for i, t in enumerate(self.an.d["types"]) if t["s"] == "grib::context::SectionInfo")
        a = SArr("sections", n, ty)
        return [(st, Agg("slice_iter", None, [Ptr(it.newcell(st, a, None, "sections"), ()), ZERO, n]))]

    def templates(self, it, st, fn, args, argtys, dty, where):
        n = P(atom("sym", "ntemplates", lo=0, hi=1 << 58))
        ty = next(i for i, t in enumerate(self.an.d["types"]) if t["s"] == "grib::context::TemplateInfo")
        return [(st, models.vec(SArr("templates", n, ty)))]

    def opaque(self, it, st, fn, args, argtys, dty, where):
        return [(st, it.fresh(st, dty, fn["p"].split("::")[-1]))]

    def subcommand(self, it, st, fn, args, argtys, dty, where):
        return [(st, some(tup(Ptr(it.newcell(st, Opq("str", self.command), None, "cmd")), Ptr(it.newcell(st, Opq("args"), None, "args")))))]

    # -- submessages
    def iter(self, it, st, fn, args, argtys, dty, where):
        return [(st, Agg("vp::subs", None, [ZERO]))]

    def pair(self, k):
        return tup(P(atom("sym", f"m{k}", lo=0, hi=(1 << 64) - 1)), P(atom("sym", f"s{k}", lo=0, hi=(1 << 64) - 1)))

    def sub_next(self, it, st, fn, args, argtys, dty, where):
        return self.iter_next(it, st, args[0], it.settle(st, it.ptr_load(st, args[0])), None, where)

    def sub_nth(self, it, st, fn, args, argtys, dty, where):
        v = it.settle(st, it.ptr_load(st, args[0]))
        n = st.norm(it.as_int(st, args[1])).const
        if n is None or not (isinstance(v, Agg) and v.name == "vp::subs"):
            raise Undecided("any submessage ahead")
        it.store(st, (args[0].cell, args[0].path), Agg(v.name, None, [v.fields[0] + n]))
        return self.sub_next(it, st, fn, args, argtys, dty, where)

    def iter_next(self, it, st, ptr, v, t, where):
        if isinstance(v, Agg) and v.name == "vp::subs":
            k = st.norm(v.fields[0]).const
            if k is None:
                raise Undecided("position among the submessages")
            if k >= self.items:
                return [(st, NONE)]
            it.store(st, (ptr.cell, ptr.path), Agg(v.name, None, [P(k + 1)]))
            sub = Agg("vp::sub", None, [P(k)])
            if self.command == "info" or self.real:
                ty = next(t for t in self.an.d["types"] if t["s"].startswith("grib::context::SubMessage<grib::reader"))
                sub = it.fresh(st, self.an.d["types"].index(ty), f"submessage{k}")
                self.made[k] = sub
            return [(st, some(tup(self.pair(k), sub)))]
        if isinstance(v, Agg) and v.name in ("vp::values", "vp::latlons"):
            i = v.fields[1]
            r = []
            for s, more in split(st, le0(i + 1 - self.n)):
                if not more:
                    r.append((s, NONE))
                    continue
                it.store(s, (ptr.cell, ptr.path), Agg(v.name, None, [v.fields[0], i + 1]))
                r.append((s, some(self.elem(v, i))))
            return r
        return NotImplemented

    def elem(self, v, i):
        if v.name == "vp::values":
            return F("frombits", (datum("values", v.fields[0], i),), 32)
        return tup(*[F("frombits", (datum(w, v.fields[0], i),), 32) for w in ("lat", "lon")])

    def seq_next(self, it, st, fn, args, argtys, dty, where):
        v = it.settle(st, it.ptr_load(st, args[0]))
        return self.iter_next(it, st, args[0], v, None, where)

    def seq_hint(self, it, st, fn, args, argtys, dty, where):
        v = dig(it, st, args[0])
        if isinstance(v, Agg) and v.name in ("vp::values", "vp::latlons"):
            n = self.n - v.fields[1]
            return [(st, tup(n, some(n)))]
        return NotImplemented

    def which(self, it, st, v):
        v = dig(it, st, v)
        if isinstance(v, Agg) and v.name == "vp::sub":
            return v.fields[0]
        raise Undecided(f"submessage {v!r:.80}")

    def latlons(self, it, st, fn, args, argtys, dty, where):
        k = self.which(it, st, args[0])
        a, b = st.copy(), st.copy()
        a.events = a.events + (("coordinates", "unsupported"),)
        b.events = b.events + (("coordinates", "failed"),)
        ge = next(x for x in self.an.d["adts"] if x == "grib::error::GribError")
        vs = [x["name"] for x in self.an.d["adts"][ge]["variants"]]
        mk = lambda n, *f: Agg(ge, vs.index(n), list(f))
        st.events = st.events + (("coordinates", "ok"),)
        r = [(st, ok(Agg("vp::latlons", None, [k, ZERO]))), (a, err(mk("NotSupported", Opq("str", "?"))))]
        for n in vs:
            if n != "NotSupported":
                s = b.copy()
                r.append((s, err(mk(n, Opq("inner", n)))))
        return r

    def decoder(self, it, st, fn, args, argtys, dty, where):
        return self.fails(st, "decoder", ok(Agg("vp::decoder", None, [self.which(it, st, args[0])])))

    def dispatch(self, it, st, fn, args, argtys, dty, where):
        v = dig(it, st, args[0])
        if not (isinstance(v, Agg) and v.name == "vp::decoder"):
            raise Undecided(f"decoder {v!r:.80}")
        st.ghost = dict(st.ghost, chosen=v.fields[0])
        return self.fails(st, "dispatch", ok(Agg("vp::values", None, [v.fields[0], ZERO])))

    # -- the index
    def lazy_new(self, it, st, fn, args, argtys, dty, where):
        return [(st, Agg("vp::lazy", None, [args[0]]))]

    def lazy(self, it, st, fn, args, argtys, dty, where):
        v = dig(it, st, args[0])
        if not (isinstance(v, Agg) and v.name == "vp::lazy"):
            raise Undecided(f"lazy value {v!r:.80}")
        r = []
        for s, x in it.call_value(st, v.fields[0], [], where):
            r.append((s, Ptr(it.newcell(s, x, None, "lazy"))))
        return r

    def re_new(self, it, st, fn, args, argtys, dty, where):
        t = T.text_of(it, st, args[0])
        if not (len(t.args) == 1 and isinstance(t.args[0], str)):
            raise Undecided("pattern of a regular expression")
        return [(st, ok(Opq("regex", t.args[0])))]

    def shape(self, it, st, v):
        v = dig(it, st, v)
        if not (isinstance(v, Opq) and v.tag == "regex"):
            raise Undecided(f"regular expression {v!r:.80}")
        w = language(v.args[0], r"^[0-9]+\.[0-9]+$")
        if w is not None:
            self.C.bad("texts accepted as an index", f"{v.args[0]!r:.80} and N.M differ on {w!r}", key="language of the index")
        return v.args[0]

    def captures(self, it, st, fn, args, argtys, dty, where):
        p = self.shape(it, st, args[0])
        self.index_text(it, st, args[1])
        s = st.copy()
        s.events = s.events + (("failed", "index"),)
        return [(st, some(Opq("captures", p))), (s, NONE)]

    def is_match(self, it, st, fn, args, argtys, dty, where):
        self.shape(it, st, args[0])
        self.index_text(it, st, args[1])
        s = st.copy()
        s.events = s.events + (("failed", "index"),)
        return [(st, ONE), (s, ZERO)]

    def index_text(self, it, st, v):
        t = T.text_of(it, st, v)
        if t != T.toks(T.text("INDEX")):
            raise Undecided(f"index text {t!r:.80}")

    def group(self, it, st, fn, args, argtys, dty, where):
        v = dig(it, st, args[0])
        k = st.norm(it.as_int(st, args[1])).const
        n = groups(v.args[0])
        if k is None or n is None:
            raise Undecided("group of the index pattern")
        if k not in n:
            return [(st, NONE)]
        return [(st, some(Opq("digits", n[k])))]

    def index_group(self, it, st, fn, args, argtys, dty, where):
        v = dig(it, st, args[0])
        k = st.norm(it.as_int(st, args[1])).const if isinstance(args[1], Poly) else None
        n = groups(v.args[0]) if isinstance(v, Opq) and v.tag == "captures" else None
        if k is None or n is None or k not in n:
            raise Undecided("group of the index pattern")
        return [(st, Ptr(it.newcell(st, Opq("digits", n[k]), None, "digits")))]

    def as_str(self, it, st, fn, args, argtys, dty, where):
        return [(st, Ptr(it.newcell(st, dig(it, st, args[0]), None, "digits")))]

    def num_parse(self, it, st, fn, args, argtys, dty, where):
        v = dig(it, st, args[0])
        if not (isinstance(v, Opq) and v.tag == "digits"):
            if "call:" in repr(v) or "CliMessageIndex" not in it.tn(dty):
                raise Undecided(f"a number read from {v!r:.60}")
            return NotImplemented
        k = v.args[0]
        if k is None:
            raise Undecided("part of the index that was captured")
        return self.fails(st, "index", ok(REQ[k]))

    # -- the file written
    def create(self, it, st, fn, args, argtys, dty, where):
        p = T.text_of(it, st, args[0])
        r = self.fails(st, "create", ok(Agg("vp::out", None, [ZERO])))
        st.ghost = dict(st.ghost, k=ZERO, c=ZERO, dirty=ZERO, wrong=ZERO)
        st.events = st.events + (("created", p),)
        return r

    def buf_new(self, it, st, fn, args, argtys, dty, where):
        v = dig(it, st, args[-1])
        if not (isinstance(v, Agg) and v.name == "vp::out"):
            return NotImplemented
        return [(st, Agg("vp::out", None, [ONE]))]

    def sink(self, it, st, v):
        v = dig(it, st, v)
        return st.norm(v.fields[0]).const if isinstance(v, Agg) and v.name == "vp::out" else None

    def wrote(self, it, st, a, n=None):
        """the next bytes of the file"""
        arr, off, ln = a
        k, c = st.norm(st.ghost["k"]), st.norm(st.ghost["c"]).const
        ln = st.norm(ln if n is None else n).const
        if ln is None or c is None:
            raise Undecided("length of what is written")
        for j in range(ln):
            b = it.as_int(st, it.arr_get(st, arr, off + j))
            w = self.expect(st, k + (c + j) // 4, (c + j) % 4)
            same = eq0(b - w)
            if st.decide(same) is not True:
                st.ghost = dict(st.ghost, wrong=st.norm(ONE - (ONE - P(st.ghost["wrong"])) * same))
        st.ghost = dict(st.ghost, k=k + (c + ln) // 4, c=P((c + ln) % 4))

    def slice(self, it, st, v):
        c, path, off, ln = seq_of(it, st, v)
        return it.load(st, (c, path)), off, ln

    def expect(self, st, k, j):
        v = A([x for x in datum("values", st.ghost["chosen"], k).m][0][0])
        return bits(v, 8 * (3 - j if "big-endian" in self.opts else j), 8)

    def write_all(self, it, st, fn, args, argtys, dty, where):
        f = self.sink(it, st, args[0])
        if f is None:
            return NotImplemented
        r = self.fails(st, "write", ok(UNIT))
        self.wrote(it, st, self.slice(it, st, args[1]))
        st.ghost = dict(st.ghost, dirty=P(f))
        return r

    def write(self, it, st, fn, args, argtys, dty, where):
        f = self.sink(it, st, args[0])
        if f is None:
            return NotImplemented
        a = self.slice(it, st, args[1])
        n = st.norm(a[2]).const
        if n is None:
            raise Undecided("length of what is written")
        r = self.fails(st, "write", ok(P(n)))
        for m in range(n):
            s = st.copy()
            self.wrote(it, s, a, P(m))
            s.ghost = dict(s.ghost, dirty=P(f))
            r.append((s, ok(P(m))))
        self.wrote(it, st, a)
        st.ghost = dict(st.ghost, dirty=P(f))
        return r

    def flush(self, it, st, fn, args, argtys, dty, where):
        f = self.sink(it, st, args[0])
        if f is None:
            return NotImplemented
        r = self.fails(st, "flush", ok(UNIT))
        st.ghost = dict(st.ghost, dirty=ZERO)
        return r

    def into_inner(self, it, st, fn, args, argtys, dty, where):
        if self.sink(it, st, args[0]) is None:
            return NotImplemented
        r = self.fails(st, "flush", ok(Agg("vp::out", None, [ZERO])))
        st.ghost = dict(st.ghost, dirty=ZERO)
        return r

    def fs_write(self, it, st, fn, args, argtys, dty, where):
        p = T.text_of(it, st, args[0])
        r = self.fails(st, "write", ok(UNIT))
        st.ghost = dict(st.ghost, k=ZERO, c=ZERO, dirty=ZERO, wrong=ZERO)
        st.events = st.events + (("created", p),)
        self.wrote(it, st, self.slice(it, st, args[1]))
        return r


# ---------------------------------------------------------------- regular expressions as languages

def parse_re(p):
    import re._parser as sp
    import re
    flags = 0
    return sp.parse(p, flags)


def nfa(p):
    """(start, accepting, moves): moves[state] = [(set of characters or None for empty, state)]; unsupported constructs are refused"""
    import re._parser as sp, re._constants as sc
    tree = parse_re(p)
    moves = []
    alpha = set(chr(c) for c in range(128)) | {"\u0661"}

    def new():
        moves.append([])
        return len(moves) - 1

    def chars(op, av):
        if op is sc.LITERAL:
            return {chr(av)}
        if op is sc.NOT_LITERAL:
            return alpha - {chr(av)}
        if op is sc.ANY:
            return alpha - {"\n"}
        if op is sc.RANGE:
            return {chr(c) for c in range(av[0], av[1] + 1)} & alpha
        if op is sc.CATEGORY:
            if av is sc.CATEGORY_DIGIT:
                return {c for c in alpha if c.isdigit()}
            raise Undecided("class in a regular expression")
        if op is sc.IN:
            neg = av and av[0][0] is sc.NEGATE
            r = set().union(*[chars(o, a) for o, a in av if o is not sc.NEGATE])
            return alpha - r if neg else r
        return None

    def build(seq, s):
        for op, av in seq:
            s = one(op, av, s)
        return s

    def one(op, av, s):
        cs = chars(op, av)
        if cs is not None:
            e = new()
            moves[s].append((frozenset(cs), e))
            return e
        if op is sc.SUBPATTERN:
            return build(av[3], s)
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            for _ in range(lo):
                s = build(sub, s)
            if hi is sc.MAXREPEAT:
                a = new()
                moves[s].append((None, a))
                b = build(sub, a)
                moves[b].append((None, a))
                return a
            e = new()
            moves[s].append((None, e))
            for _ in range(hi - lo):
                s = build(sub, s)
                moves[s].append((None, e))
            return e
        if op is sc.BRANCH:
            e = new()
            for alt in av[1]:
                moves[build(alt, s)].append((None, e))
            return e
        raise Undecided(f"{op} in a regular expression")

    items = list(tree)
    start = new()
    head = bool(items) and items[0] == (sc.AT, sc.AT_BEGINNING) or bool(items) and items[0] == (sc.AT, sc.AT_BEGINNING_STRING)
    tail = bool(items) and items[-1][0] is sc.AT and items[-1][1] in (sc.AT_END, sc.AT_END_STRING)
    if head:
        items = items[1:]
    else:
        moves[start].append((frozenset(alpha), start))
    if tail:
        items = items[:-1]
    if any(op is sc.AT for op, _ in items):
        raise Undecided("anchor inside a regular expression")
    e = build(items, start if head else start)
    if not tail:
        f = new()
        moves[e].append((None, f))
        moves[f].append((frozenset(alpha), f))
        e = f
    return start, e, moves, alpha


def closure(moves, ss):
    todo, seen = list(ss), set(ss)
    while todo:
        for c, t in moves[todo.pop()]:
            if c is None and t not in seen:
                seen.add(t)
                todo.append(t)
    return frozenset(seen)


def unverbose(p):
    """the pattern without (?x), comments and white space"""
    import re
    if not p.startswith("(?x)"):
        return p
    r, i, cls = "", 4, False
    while i < len(p):
        c = p[i]
        if c == "\\":
            r += p[i:i + 2]
            i += 2
            continue
        if cls:
            cls = c != "]"
            r += c
        elif c == "[":
            cls = True
            r += c
        elif c == "#":
            while i < len(p) and p[i] != "\n":
                i += 1
        elif not c.isspace():
            r += c
        i += 1
    return r


def language(p, q):
    """a text on which two patterns disagree, or None"""
    a, b = nfa(unverbose(p)), nfa(unverbose(q))
    start = (closure(a[2], {a[0]}), closure(b[2], {b[0]}))
    seen, todo = {start: ""}, [start]
    while todo:
        x = todo.pop(0)
        if (a[1] in x[0]) != (b[1] in x[1]):
            return seen[x]
        done = {}
        for c in sorted(a[3]):
            y = tuple(closure(m[2], {t for s in ss for cs, t in m[2][s] if cs is not None and c in cs}) for m, ss in ((a, x[0]), (b, x[1])))
            if y not in seen:
                seen[y] = seen[x] + c
                todo.append(y)
    return None


def groups(p):
    """group number -> which of the two numbers it captures; None if that is not plain to see"""
    import re._constants as sc
    t = parse_re(unverbose(p))
    r, n, dots = {0: None}, 0, 0
    for op, av in t:
        if op is sc.SUBPATTERN and av[0] is not None:
            inner = list(av[3])
            if len(inner) == 1 and inner[0][0] is sc.MAX_REPEAT and inner[0][1][0] == 1:
                r[av[0]] = dots if dots < 2 else None
            else:
                r[av[0]] = None
        elif op is sc.LITERAL and chr(av) == ".":
            dots += 1
    return r
