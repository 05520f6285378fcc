"""Abstract byte stream behind the analysed readers: a file of unknown content `file` and unknown length `flen`, a current
position kept as a ghost variable.  Any operation may fail; a read may return any number of bytes up to what is asked and left."""
from interp import *
from terms import *
from models import ok, err, some, NONE, tup, split, seq_of, UNIT

FLEN = P(atom("sym", "flen", lo=0, hi=(1 << 62)))


def fbyte(p):
    return P(atom("elem", "file", P(p), lo=0, hi=255, w=8))


def ioerr(it, st, kind):
    it.nsym += 1
    return Opq("ioerror", f"{kind}#{it.nsym}")


def pos(st):
    p = st.ghost.get("pos")
    if p is None:
        p = st.ghost["pos"] = ZERO
    return p


def u8(it):
    return it.find_ty("u8")


def h_read(it, st, fn, args, argtys, dty, where):
    c, path, off, ln = seq_of(it, st, args[1])
    outs = []
    s = st.copy()
    s.events = s.events + (("io-error", "read"),)
    outs.append((s, err(ioerr(it, s, "read"))))
    p = pos(st)
    # zero bytes: nothing asked for, or end of data
    it.nsym += 1
    n = P(atom("sym", f"n#{it.nsym}", lo=0, hi=(1 << 62)))
    s0 = st.copy()
    c0 = eq0(n)
    if s0.assume(c0, 1):
        # n = 0 only if len = 0 or p >= flen; both kept apart
        for (s1, z) in split(s0, eq0(ln)):
            if z or s1.add_le0(FLEN - p):
                s1.conds = s1.conds + ((c0, 1),)
                s1.events = s1.events + (("read", p, ln, ZERO),)
                outs.append((s1, ok(ZERO)))
    s1 = st.copy()
    if s1.assume(c0, 0) and s1.add_le0(n - ln) and s1.add_le0(p + n - FLEN):
        s1.conds = s1.conds + ((c0, 0),)
        s1.ghost = dict(s1.ghost, pos=p + n)
        it.store(s1, (c, path), it.arr_write(s1, it.load(s1, (c, path)), off, SArr("file", n, u8(it), p)))
        s1.events = s1.events + (("read", p, ln, n),)
        outs.append((s1, ok(n)))
    return outs


def h_read_exact(it, st, fn, args, argtys, dty, where):
    c, path, off, ln = seq_of(it, st, args[1])
    p = pos(st)
    outs = []
    s = st.copy()
    it.nsym += 1
    s.ghost = dict(s.ghost, pos=P(atom("sym", f"pos#{it.nsym}", lo=0, hi=(1 << 62))))
    it.store(s, (c, path), it.arr_write(s, it.load(s, (c, path)), off, SArr(f"junk#{it.nsym}", ln, u8(it))))
    s.events = s.events + (("io-error", "read_exact", p, ln),)
    outs.append((s, err(ioerr(it, s, "read_exact"))))
    s1 = st.copy()
    if s1.add_le0(p + ln - FLEN):
        s1.ghost = dict(s1.ghost, pos=p + ln)
        it.store(s1, (c, path), it.arr_write(s1, it.load(s1, (c, path)), off, SArr("file", ln, u8(it), p)))
        s1.events = s1.events + (("read_exact", p, ln),)
        outs.append((s1, ok(UNIT)))
    return outs


def h_seek(it, st, fn, args, argtys, dty, where):
    v = args[1]
    outs = []
    s = st.copy()
    s.events = s.events + (("io-error", "seek"),)
    outs.append((s, err(ioerr(it, s, "seek"))))
    for s1, x in it.settle_all(st, v):
        if not isinstance(x, Agg) or x.variant is None:
            raise Undecided(f"seek to {x!r}")
        nm = it.adts[x.name]["variants"][x.variant]["name"]
        d = it.as_int(s1, x.fields[0])
        p = pos(s1)
        np = d if nm == "Start" else p + d if nm == "Current" else FLEN + d
        s2 = s1.copy()
        if s2.add_le0(-np):
            s2.ghost = dict(s2.ghost, pos=np)
            s2.events = s2.events + (("seek", nm, d, p, np),)
            outs.append((s2, ok(np)))
    return outs


HOOKS = {
    "vp_roots::ext_read": h_read,
    "vp_roots::ext_read_exact": h_read_exact,
    "vp_roots::ext_seek": h_seek,
}


def h_sect_generic(it, st, fn, args, argtys, dty, where):
    """an arbitrary element: none, an error, or a section"""
    it.nsym += 1
    n = it.nsym
    v = it.fresh(st, dty if dty is not None else it.ret_of(fn), f"sect#{n}")
    return [(st, v)]


EXT = dict(HOOKS)
EXT["vp_roots::ext_sect"] = h_sect_generic
