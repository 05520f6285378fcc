"""The section reader over an abstract byte stream.

The stream is a file of unknown bytes and unknown length with a ghost position.  `full` reads return everything asked for (or what
is left); `split` reads may stop anywhere: every composition of a read of up to 16 bytes, and for longer ones up to two short
reads of arbitrary size per buffer.  A second ghost, `scan`, is a monitor: it advances over a position only when the path implies
that the magic number is not there.  The same code is also run on given file contents, to confirm what the abstract run suspects."""
from common import *
import stream
from stream import fbyte, ioerr, pos, u8, FLEN
from models import ok, err, some, NONE, tup, split, seq_of, UNIT

MAG = (71, 82, 73, 66)
END = (55, 55, 55, 55)
P0 = P(atom("sym", "p0", lo=0, hi=1 << 60))


def match(p, bs):
    r = ONE
    for i, b in enumerate(bs):
        r = r * eq0(fbyte(p + i) - b)
    return r


def magic(p):
    return match(p, MAG)


def watch(st):
    if "scan" in st.ghost:
        for _ in range(64):
            if st.decide(magic(st.ghost["scan"])) is not False:
                break
            st.ghost["scan"] = st.ghost["scan"] + 1


class NoProgress(Exception):
    pass


class Stream:
    """mode: full, split, or known bytes"""

    def __init__(self, an, mode="full", data=None, cut=None):
        self.an, self.mode, self.data, self.cut = an, mode, data, cut
        self.blank = 0  # so many octets at the start of the stream are zero
        it = an.it
        it.hooks["vp_roots::ext_read"] = self.read
        it.hooks["vp_roots::ext_read_exact"] = self.read_exact
        it.hooks["vp_roots::ext_seek"] = self.seek
        it.hooks["core::io::seek::Seek::stream_position"] = self.tell
        it.hooks["std::io::Seek::stream_position"] = self.tell
        it.unroll_limit = 3
        if data is not None:
            it.unroll_max = 20000

    def flen(self):
        return P(len(self.data)) if self.data is not None else FLEN

    def content(self, it, p, n):
        if self.data is not None:
            p, n = P(p).const, P(n).const
            if p is None or n is None:
                raise Undecided("position of a read in a known file is not known")
            return VArr([P(x) for x in self.data[p:p + n]])
        a, k = P(p).const, P(n).const
        if self.blank and a is not None and k is not None and a < self.blank:
            return VArr([ZERO if a + i < self.blank else fbyte(P(a + i)) for i in range(k)])
        return SArr("file", n, u8(it), p)

    def took(self, it, st, where, n):
        c, path, off = where
        p = pos(st)
        st.ghost["pos"] = p + n
        it.store(st, (c, path), it.arr_write(st, it.load(st, (c, path)), off, self.content(it, p, n)))

    def fail(self, it, st, outs, what):
        if self.data is None:
            s = st.copy()
            s.events = s.events + (("io-error", what),)
            outs.append((s, err(ioerr(it, s, what))))

    def read(self, it, st, fn, args, argtys, dty, where):
        c, path, off, ln = seq_of(it, st, args[1])
        ln = st.norm(ln)
        p = pos(st)
        left = st.norm(self.flen() - p)
        outs = []
        self.fail(it, st, outs, "read")
        if self.data is not None:
            n = min(ln.const, max(0, left.const))
            k = st.ghost.get("reads", 0)
            k = P(k).const or 0
            if k > 8 * len(self.data) + 200:
                raise NoProgress
            if self.cut:
                n = min(n, self.cut[k % len(self.cut)])
            s = st.copy()
            s.ghost = dict(s.ghost, reads=P(k + 1))
            if n:
                self.took(it, s, (c, path, off), P(n))
            outs.append((s, ok(P(n))))
            return outs
        # nothing left, or nothing asked for
        for (s1, z) in split(st, eq0(ln)):
            if z:
                outs.append((s1, ok(ZERO)))
                continue
            s = s1.copy()
            if s.add_le0(-left):
                # left < 0 only after a seek beyond the end
                pass
            s = s1.copy()
            if s.add_le0(left):
                s.events = s.events + (("eof", p),)
                outs.append((s, ok(ZERO)))
            l, h = s1.bounds(ln)
            small = self.mode == "split" and h <= 16
            if small:
                for k in range(1, int(h) + 1):
                    s = s1.copy()
                    if s.add_le0(P(k) - ln) and s.add_le0(P(k) - left):
                        self.took(it, s, (c, path, off), P(k))
                        outs.append((s, ok(P(k))))
                continue
            s = s1.copy()
            if s.add_le0(ln - left):
                s.ghost = dict(s.ghost, shorts=ZERO)
                self.took(it, s, (c, path, off), ln)
                outs.append((s, ok(ln)))
            s = s1.copy()
            if s.add_le0(left - ln + 1) and s.add_le0(ONE - left):
                self.took(it, s, (c, path, off), left)
                outs.append((s, ok(left)))
            k = P(st.ghost.get("shorts", ZERO)).const
            if self.mode == "split" and k is not None and k < 2:
                it.nsym += 1
                m = P(st.ghost.get("nshort", ZERO)).const
                n = P(atom("sym", f"short{m}" if m is not None else f"short#{it.nsym}", lo=1, hi=(1 << 62)))
                s = s1.copy()
                if s.add_le0(n - ln + 1) and s.add_le0(n - left + 1):
                    s.ghost = dict(s.ghost, shorts=P(k + 1), nshort=P((m or 0) + 1))
                    self.took(it, s, (c, path, off), n)
                    outs.append((s, ok(n)))
        return outs

    def read_exact(self, it, st, fn, args, argtys, dty, where):
        c, path, off, ln = seq_of(it, st, args[1])
        p = pos(st)
        outs = []
        self.fail(it, st, outs, "read_exact")
        left = st.norm(self.flen() - p)
        for (s, enough) in split(st, le0(ln - left)):
            if enough:
                self.took(it, s, (c, path, off), ln)
                outs.append((s, ok(UNIT)))
            else:
                it.nsym += 1
                s.ghost = dict(s.ghost, pos=P(atom("sym", f"pos#{it.nsym}", lo=0, hi=(1 << 62))))
                s.events = s.events + (("eof", p),)
                outs.append((s, err(ioerr(it, s, "eof"))))
        return outs

    def seek(self, it, st, fn, args, argtys, dty, where):
        outs = []
        self.fail(it, st, outs, "seek")
        for s1, x in it.settle_all(st, args[1]):
            if not isinstance(x, Agg) or x.variant is None:
                raise Undecided(f"seek to {x!r}")
            nm = it.adts[x.name]["variants"][x.variant]["name"]
            d = it.as_int(s1, x.fields[0])
            p = pos(s1)
            np = d if nm == "Start" else p + d if nm == "Current" else self.flen() + d
            for s2, good in split(s1, le0(-np)):
                if good:
                    s2.ghost = dict(s2.ghost, pos=s2.norm(np), shorts=ZERO)
                    outs.append((s2, ok(s2.norm(np))))
                else:
                    s2.events = s2.events + (("io-error", "seek"),)
                    outs.append((s2, err(ioerr(it, s2, "seek"))))
        return outs

    def tell(self, it, st, fn, args, argtys, dty, where):
        outs = []
        self.fail(it, st, outs, "stream_position")
        outs.append((st, ok(pos(st))))
        return outs

    # ---- runs
    def state(self, p=None, scan=False):
        st = St()
        st.ghost["pos"] = P0 if p is None else P(p)
        st.ghost["shorts"] = ZERO
        if scan:
            st.ghost["scan"] = st.ghost["pos"]
        return st

    def run(self, root, args, st):
        St.watch = watch if "scan" in st.ghost else None
        try:
            return self.an.run(self.an.find(rf"vp_roots::{root}$")[0], args, st)
        finally:
            St.watch = None


def faulty(s):
    """the path meets an I/O error"""
    return any(e[0] == "io-error" for e in s.events)


def variant(an, v):
    return an.it.adts[v.name]["variants"][v.variant]["name"] if isinstance(v, Agg) and v.variant is not None else None


def undecided(C):
    return sum(1 for o in C.obs if o[0] == "undecided")


def violations(C):
    return len(C.viol)


def implied(C, an, s, cond, name, what, key):
    return require(C, an, s, cond, name, what, key=key)


def never(C, an, s, conds, name, what, key):
    """the conditions cannot hold together on the path"""
    t = s.copy()
    allc = ONE
    for c in conds:
        c = P(c)
        allc = allc * c
        if not t.assume(c, 1):
            C.ok(name)
            return
    for c in conds:
        if t.decide(P(c)) is False:
            C.ok(name)
            return
    require(C, an, s, ONE - allc, name, what, key=key)


def u32be(p):
    r = ZERO
    for i in range(4):
        r = r * 256 + fbyte(p + i)
    return r


def u64be(p):
    r = ZERO
    for i in range(8):
        r = r * 256 + fbyte(p + i)
    return r


# ---- the search for a message start (C08; C06 with split reads)
def search(C, mode, pre, judge=True):
    an = An("roots")
    C.an = an
    S = Stream(an, mode)
    outs = S.run("rd_sect0", None, S.state(scan=True))
    n = [0, 0, 0]
    for st, v in outs if judge else ():
        for s, x in an.it.settle_all(st, v):
            scan = s.ghost["scan"]
            at = pos(s) - 16
            if an_name(an, x) == "Err":
                if faulty(s):
                    C.ok(f"{pre}: an I/O failure is an error")
                    continue
                n[1] += 1
                implied(C, an, s, magic(scan), f"{pre}: refusals are about the first Section 0", "a refusal without I/O failure only where the first magic number stands", key=f"{pre}: refusal")
                implied(C, an, s, le0(scan + 16 - FLEN), f"{pre}: refusals are about a full Section 0", "a refusal without I/O failure only with 16 octets", key=f"{pre}: refusal")
                continue
            y = an.it.settle(s, x.fields[0])
            if an_name(an, y) == "None":
                n[2] += 1
                implied(C, an, s, le0(FLEN - scan - 15), f"{pre}: nothing is reported only after every position was examined", "no magic number at any position with 16 bytes left", key=f"{pre}: end of data")
                continue
            n[0] += 1
            off = C.fld(an, y.fields[0], "0") if False else y.fields[0].fields[0]
            implied(C, an, s, magic(at), f"{pre}: the magic number stands 16 bytes before the new position", "octets 1-4 are GRIB", key=f"{pre}: position")
            implied(C, an, s, eq0(scan - at), f"{pre}: every earlier position was examined", "no magic number before", key=f"{pre}: earlier positions")
            implied(C, an, s, le0(at + 16 - FLEN), f"{pre}: a full Section 0 is available", "16 bytes are there", key=f"{pre}: full section")
            C.record(C.cmp(an, s, off, at - P0), f"{pre}: skip distance", key=f"{pre}: skip distance")
    if judge and not (n[0] and n[2]):
        C.und(f"{pre}: outcomes", f"found, refused, end: {n}")
    C.stats["search_outcomes"] = C.stats.get("search_outcomes", 0) + len(outs)
    C.used(an)
    return an


def short_search(C, pre, n, judge=True):
    """the search in a stream of n octets, every position taken one by one"""
    an = An("roots")
    C.an = an
    S = Stream(an, "full")
    st0 = S.state()
    an.it.unroll_limit = n + 8
    if not fix(st0, FLEN, n) or not fix(st0, P0, 0):
        raise Undecided("length")
    known = 0
    for st, v in S.run("rd_sect0", None, st0):
        for s, x in an.it.settle_all(st, v):
            if an_name(an, x) == "Err":
                if faulty(s):
                    known += 1
                    continue
                known += 1
                if judge:
                    none = ONE
                    for i in range(n - 15):
                        none = none * (ONE - magic(P0 + i))
                    implied(C, an, s, ONE - none, f"{pre}: refusals are about a Section 0", "a refusal without I/O failure only where there is a magic number", key=f"{pre}: refusal")
                continue
            else:
                y = an.it.settle(s, x.fields[0])
                at = None if an_name(an, y) == "None" else P(y.fields[0].fields[0])
            known += 1
            if not judge:
                continue
            if at is None:
                for i in range(n - 15):
                    never(C, an, s, [magic(P0 + i)], f"{pre}: nothing is reported only without a message", f"no magic number at octet {i}", key=f"{pre}: end of data")
                continue
            at = at.const
            if at is None:
                C.und(f"{pre}: position", "not a number")
                continue
            implied(C, an, s, magic(P0 + at) * le0(P(at + 16 - n)), f"{pre}: a message starts with the magic number", f"a magic number at octet {at}", key=f"{pre}: position")
            for i in range(at):
                never(C, an, s, [magic(P0 + i)], f"{pre}: the first message is found", f"no magic number at octet {i} before {at}", key=f"{pre}: earlier positions")
    if not known:
        C.und(f"{pre}: outcomes", "none")
    C.used(an)
    return an


def far_search(C, pre, n):
    """the search in a stream of any length starting with n octets of zeros, every position of the first buffer taken one by one"""
    an = An("roots")
    C.an = an
    S = Stream(an, "full")
    S.blank = n
    an.it.unroll_max = 20000
    st0 = S.state(0)
    k = 0
    for st, v in S.run("rd_sect0", None, st0):
        k += len(list(an.it.settle_all(st, v)))
    if not k:
        C.und(f"{pre}: outcomes", "none")
    C.used(an)
    return an


# ---- sections one after the other
LEN = [P(atom("sym", f"len{i}", lo=0, hi=1 << 63)) for i in range(3)]


def sect_info(C, an, s, v):
    """(kind, info)"""
    for s1, x in an.it.settle_all(s, v):
        n = an_name(an, x)
        if n == "None":
            yield s1, "end", None
            continue
        y = an.it.settle(s1, x.fields[0])
        if an_name(an, y) == "Err":
            yield s1, "err", y.fields[0]
            continue
        yield s1, "ok", an.it.settle(s1, y.fields[0])


def step(C, an, S, cell, st, rest, p, pre, aspects, first=False):
    """one call of next() with `rest` octets of the message left and the stream at p; [(state, rest after)] of the Ok outcomes"""
    res = []
    outs = S.run("sects_next", [Ptr(cell)], st)
    for s0, v in outs:
        for s1, kind, info in sect_info(C, an, s0, v):
            for s2, z0 in models_split(s1, eq0(rest)):
                if z0:
                    res += start(C, an, s2, kind, info, p, pre, aspects)
                    continue
                for s3, z4 in models_split(s2, eq0(rest - 4)):
                    if z4:
                        res += ending(C, an, s3, kind, info, p, pre, aspects)
                    else:
                        res += section(C, an, s3, kind, info, p, rest, pre, aspects)
    return res


def models_split(s, c):
    c = s.norm(c)
    if c.const is not None:
        return [(s, bool(c.const))]
    return split(s, c)


def start(C, an, s, kind, info, p, pre, aspects):
    n = f"{pre}: Section 0"
    if kind == "err":
        if not faulty(s) and "accept" in aspects:
            at = pos(s) - 16
            L = u64be(at + 8)
            never(C, an, s, [magic(at), eq0(fbyte(at + 7) - 2), le0(P(20) - L), le0(L - (1 << 40))], f"{n} with edition 2 and a proper length is accepted", "refused", key="Section 0 refused")
        return []
    if kind == "end":
        return []
    at = pos(s) - 16
    C.record(C.cmp(an, s, C.fld(an, info, "num"), ZERO), f"{n}: number", key="Section 0 number")
    C.record(C.cmp(an, s, C.fld(an, info, "size"), P(16)), f"{n}: size", key="Section 0 size")
    C.record(C.cmp(an, s, C.fld(an, info, "offset"), at), f"{n}: offset is the position of its first octet", key="Section 0 offset")
    implied(C, an, s, magic(at), f"{n}: stream stands behind it", "GRIB 16 octets before the new position", key="position after Section 0")
    return [(s, u64be(at + 8) - 16)]


def ending(C, an, s, kind, info, p, pre, aspects):
    n = f"{pre}: Section 8"
    eof = any(e[0] == "eof" for e in s.events)
    if kind == "err":
        if not faulty(s):
            never(C, an, s, [match(p, END), le0(p + 4 - FLEN)], f"{n} is accepted", "refused although 7777 is there", key="Section 8 refused")
        return []
    if kind == "end":
        # only at the very end of the data
        implied(C, an, s, le0(FLEN - p), f"{n}: cut off is not end of data", "nothing is left of the data", key="Section 8 cut off")
        return []
    C.record(C.cmp(an, s, C.fld(an, info, "num"), P(8)), f"{n}: number", key="Section 8 number")
    C.record(C.cmp(an, s, C.fld(an, info, "size"), P(4)), f"{n}: size", key="Section 8 size")
    C.record(C.cmp(an, s, C.fld(an, info, "offset"), p), f"{n}: offset is the position of its first octet", key="Section 8 offset")
    C.record(C.cmp(an, s, pos(s), p + 4), f"{n}: stream stands behind it", key="position after Section 8")
    implied(C, an, s, match(p, END), f"{n}: holds 7777", "octets are 7777", key="Section 8 content")
    return [(s, ZERO)]


def section(C, an, s, kind, info, p, rest, pre, aspects):
    n = f"{pre}: section"
    size, num = u32be(p), fbyte(p + 4)
    if kind == "err":
        if not faulty(s):
            for k, least in ((1, 100), (2, 5), (3, 200), (4, 200), (5, 200), (6, 6), (7, 5)):
                never(C, an, s, [eq0(num - k), le0(P(least) - size), le0(size - rest), le0(p + size - FLEN)], f"{n} {k} is accepted", "refused although complete", key=f"Section {k} refused")
        return []
    if kind == "end":
        implied(C, an, s, le0(FLEN - p), f"{n}: cut off is not end of data", "nothing is left of the data", key="section cut off")
        return []
    num_got = C.fld(an, info, "num")
    C.record(C.cmp(an, s, num_got, num), f"{n}: number is octet 5", key="section number")
    C.record(C.cmp(an, s, C.fld(an, info, "size"), size), f"{n}: size is octets 1-4", key="section size")
    C.record(C.cmp(an, s, C.fld(an, info, "offset"), p), f"{n}: offset is the position of its first octet", key="section offset")
    C.record(C.cmp(an, s, pos(s), p + size), f"{n}: stream stands behind it", key="position after a section")
    implied(C, an, s, le0(p + 5 - FLEN), f"{n}: its header is complete", "5 octets are there", key="section cut off")
    body = C.settle(an, s, C.fld(an, info, "body"))
    if not (isinstance(body, Agg) and an_name(an, body) == "Some"):
        C.bad(f"{n}: has a body", "no body", key="section body")
        return []
    b = C.settle(an, s, body.fields[0])
    vn = an_name(an, b)
    if not vn.startswith("Section"):
        C.und(f"{n}: body", f"{b!r}")
        return []
    implied(C, an, s, eq0(num - int(vn[7:])), f"{n}: body is of the kind octet 5 names", vn, key="section body kind")
    if vn != "Section7":
        implied(C, an, s, le0(p + size - FLEN), f"{n}: is complete", "all octets are there", key="section cut off")
    if vn in ("Section1", "Section2", "Section3", "Section4", "Section5"):
        x = C.settle(an, s, b.fields[0])
        pl = C.fld(an, x, "payload")
        C.record(C.cmp(an, s, an.it.ptr_load(s, pl) if isinstance(pl, Ptr) else pl, SArr("file", size - 5, stream.u8(an.it), p + 5)), f"{n}: payload is octets 6 to the end", key="section payload")
    return [(s, rest - size)]


def fresh_reader(an, S, st):
    outs = an.run("sects_new", [Opq("src")], st)
    assert len(outs) == 1
    s, v = outs[0]
    return s, an.it.newcell(s, v, None, "obj")


def chain(C, mode, aspects):
    """from a fresh reader at any position: Section 0, then a section of any length, then anything, then the next message"""
    an = An("roots")
    C.an = an
    S = Stream(an, mode)
    if mode == "split":
        an.it.unroll_limit = 6
    st, cell = fresh_reader(an, S, S.state())
    tag = "" if mode == "full" else " (split reads)"
    an.it.unroll_limit = 3
    one = step(C, an, S, cell, st, ZERO, P0, f"first message{tag}", aspects)
    skipped = [(s, r) for s, r in one if mode == "full" and s.ghost.get("~approx")]
    one = [(s, r) for s, r in one if not s.ghost.get("~approx") and s.norm(pos(s) - P0 - 16).const == 0 and s.norm(s.ghost.get("nshort", ZERO)).const == 0]
    if not one:
        C.und("sequence of sections", "no plain Section 0 outcome")
        return an
    s, rest = one[0]
    if mode == "split":
        an.it.unroll_limit = 6
    an.it.havoc.clear()
    if skipped:
        a, b = skipped[0]
        # any number of bytes was skipped: nothing that follows depends on how they were examined
        step2(C, an, S, cell, *settled(a, b), f"after garbage and Section 0{tag}", aspects)
        an.it.havoc.clear()
    # right after Section 0: any kind of section
    for a, b in step2(C, an, S, cell, s, rest, f"after Section 0{tag}", aspects):
        if mode == "split":
            continue
        # only the kinds with the least conditions are followed further
        for c, d in step2(C, an, S, cell, a, b, f"after another section{tag}", aspects):
            pass
    return an


def settled(s, rest):
    """the loop counters of a finished search become plain unknowns"""
    from loops import mentions
    s = s.copy()
    s.ghost = {g: v for g, v in s.ghost.items() if g != "~approx"}
    p = s.norm(pos(s))
    m = {}
    for a in sorted(p.atoms()):
        if "#" in str(A(a).args[0]):
            lo, hi = s.ab(A(a))
            b = atom("sym", f"skipped{len(m)}", lo=lo, hi=hi)
            m[a] = P(b)
    memo = {}
    for c, v in s.mem.items():
        s.mem[c] = subst(v, m, memo)
    s.ghost = {g: subst(v, m, memo) if not isinstance(v, str) else v for g, v in s.ghost.items()}
    lin = [subst(q, m, memo) for q in s.lin]
    iv = dict(s.iv)
    s.lin = ()
    s.iv = {}
    s.known = {}
    s.conds = tuple((subst(c, m, memo), v) for c, v in s.conds)
    for a, r in iv.items():
        e = m.get(a, None)
        at = A(a)
        x = subst(P(at), m, memo)
        if x.const is None:
            s.add_le0(P(int(r[0])) - x) if r[0] > -(1 << 70) else None
            s.add_le0(x - int(r[1])) if r[1] < (1 << 70) else None
    for q in lin:
        s.add_le0(q)
    for c, v in s.conds:
        s.assume(c, v)
    return s, subst(rest, m, memo)


def step2(C, an, S, cell, s, rest, pre, aspects):
    an.it.unroll_limit = 6 if S.mode == "split" else 3
    rest = s.norm(rest)
    if rest.const is None and not s.assume(eq0(rest), 0):
        return []
    r = step(C, an, S, cell, s, rest, s.norm(pos(s)), pre, aspects)
    seen, keep = set(), []
    for a, b in r:
        if a.ghost.get("~approx"):
            continue
        k = repr(a.norm(b))
        n = sum(1 for x in seen if x[0] == k)
        if (k, n) in seen or n >= (1 if S.mode == "full" else 1):
            continue
        seen.add((k, n))
        keep.append((a, b))
    return keep


# ---- payloads handed out later
def payload(C, mode):
    an = An("roots")
    C.an = an
    S = Stream(an, mode)
    st = S.state()
    off, size = P(atom("sym", "offset", lo=0, hi=1 << 60)), P(atom("sym", "size", lo=0, hi=1 << 32))
    k = an.key("rd_slice")
    args = an.fresh_key_args(st, k)
    sec = an.it.load(st, (args[1].cell, args[1].path))
    names = [f[0] for f in an.d["adts"][sec.name]["variants"][0]["fields"]]
    vals = dict(offset=off, size=size)
    fs = [vals.get(n, x) for n, x in zip(names, sec.fields)]
    an.it.store(st, (args[1].cell, args[1].path), Agg(sec.name, sec.variant, fs, sec.ty))
    outs = S.run("rd_slice", [args[0], args[1]], st)
    n = 0
    for st, v in outs:
        for s, x in an.it.settle_all(st, v):
            if an_name(an, x) == "Err":
                if not faulty(s):
                    never(C, an, s, [le0(P(5) - size), le0(off + size - FLEN)], "payload of a section within the data is handed out", "refused", key="payload refused")
                continue
            n += 1
            b = C.settle(an, s, x.fields[0])
            got = an.it.ptr_load(s, b) if isinstance(b, Ptr) else b
            C.record(C.cmp(an, s, b, SArr("file", size - 5, stream.u8(an.it), off + 5)), "payload is octets 6 to the end of the section", key="payload octets")
    if not n:
        C.bad("payload", "never handed out", key="payload octets")
    C.used(an)
    return an


# ---- known contents
def sect(num, body):
    return (len(body) + 5).to_bytes(4, "big") + bytes([num]) + body


def message(parts, lie=None, edition=2):
    body = b"".join(parts)
    return b"GRIB" + bytes([0, 0, 9, edition]) + ((lie if lie is not None else 16 + len(body))).to_bytes(8, "big") + body


def reference(data, p):
    """the sections of the data from position p on: [(number, offset, size)] and how it ends"""
    out = []
    while True:
        x = p
        while x + 16 <= len(data) and data[x:x + 4] != b"GRIB":
            x += 1
        if x + 16 > len(data):
            return out, "end"
        if data[x + 7] != 2:
            return out, "err"
        L = int.from_bytes(data[x + 8:x + 16], "big")
        if L < 16:
            return out, "err"
        out.append((0, x, 16))
        p, rest = x + 16, L - 16
        while rest:
            left = data[p:p + (4 if rest == 4 else 5)]
            if not left:
                return out, "end"
            if rest == 4:
                if left != b"7777":
                    return out, "err"
                out.append((8, p, 4))
                p, rest = p + 4, 0
                continue
            if len(left) < 5:
                return out, "err"
            n, k = int.from_bytes(left[:4], "big"), left[4]
            if n < 5 or not 1 <= k <= 7 or n > rest or (k == 6 and n < 6) or (k != 7 and p + n > len(data)):
                return out, "err"
            out.append((k, p, n))
            p, rest = p + n, rest - n


def read_known(data, p, cut=None, limit=14):
    an = An("roots")
    S = Stream(an, data=data, cut=cut)
    an.it.unroll_limit = 1 << 30
    st, cell = fresh_reader(an, S, S.state(p))
    got = []
    for _ in range(limit):
        outs = S.run("sects_next", [Ptr(cell)], st)
        if len(outs) != 1:
            raise Undecided(f"{len(outs)} outcomes on known contents")
        st, v = outs[0]
        (st, kind, info), = list(sect_info(None, an, st, v))
        if kind != "ok":
            return got, kind
        f = dict(zip([x[0] for x in an.d["adts"][info.name]["variants"][0]["fields"]], info.fields))
        t = tuple(st.norm(an.it.as_int(st, f[k])).const for k in ("num", "offset", "size"))
        if None in t:
            raise Undecided("section of known contents is not known")
        got.append(t)
    return got, "more"


def samples():
    m1 = message([sect(2, b"abcd"), sect(7, b"GRIB\0\0\0\2xx"), b"7777"])
    m2 = message([sect(6, b"\xff"), b"7777"])
    for g in (0, 1, 3, 5):
        yield f"{g} bytes before the message", b"Q" * g + m1 + b"R" * g + m2 + b"tail", 0
    yield "reading starts at position 3", b"Q" * 3 + m1 + m2, 3
    yield "reading starts inside garbage", b"Q" * 9 + m1 + b"--" + m2, 4
    yield "partial magic before the message", b"GRGRIGRI" + m1, 0
    yield "a lone magic number near the end", m1 + b"GRIB" + b"xxxxxxxx", 0
    yield "Section 0 alone at the end", b"Q" * 3 + message([], lie=40), 0
    yield "Section 8 cut off", m1[:-2], 0
    yield "section cut off", m1[:-16], 0
    yield "header cut off", message([sect(2, b"abcd"), b"\0\0"], lie=40), 0
    for g in (4076, 4077, 4079, 4080, 4081, 4082, 4083, 4092, 4093, 4095, 4096, 4097, 8161, 8162, 8177, 8192):
        yield f"{g} bytes before the message", b"Q" * g + m2, 0


def confirm(C, prop, cuts=(None,), starts=None, budget=240):
    """the code on given file contents; only to find the input behind what the abstract run could not establish"""
    import time
    t0 = time.time()
    for name, data, p in samples():
        for cut in cuts:
            if time.time() - t0 > budget:
                return
            with C.part(f"known contents: {name}"):
                want = reference(data, p)
                try:
                    got = read_known(data, p, cut)
                except NoProgress:
                    got = "reading without end"
                n = f"known contents: {name}" + (f", reads of {cut} bytes" if cut else "")
                if got == want:
                    C.ok(n)
                else:
                    C.bad(n, f"expected {want}, got {got}", "src/reader.rs", key=f"{prop} on known contents")
                    return
