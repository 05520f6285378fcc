"""Shared pieces of the checks."""
from checklib import *


def boxed(an, st, name, length=None):
    """a Box<[u8]> of unknown content and length"""
    return Agg("box", "sl", [SArr(name, ln(name) if length is None else P(length), an.it.find_ty("u8"))])


def oks(an, outs):
    """the Ok / Some outcomes: [(state, payload)]"""
    r = []
    for st, v in outs:
        for s, x in an.it.settle_all(st, v):
            n = an_name(an, x)
            if n in ("Ok", "Some"):
                r.append((s, x.fields[0]))
    return r


def an_name(an, x):
    if isinstance(x, Agg) and x.variant is not None:
        ad = an.d["adts"].get(x.name)
        if ad:
            return ad["variants"][x.variant]["name"]
    return None


def put(an, st, v, ty=None):
    """allocates v and returns a pointer to it"""
    return Ptr(an.it.newcell(st, v, ty, "obj"))


def construct(C, an, root, name, length=None, min_len=None, st=None):
    """runs a `from_payload`-like constructor on a payload of unknown bytes; [(state, pointer to the object)]"""
    st = st or St()
    if min_len is not None:
        st.add_le0(P(min_len) - ln(name))
    outs = an.run(root, [boxed(an, st, name, length)], st)
    return [(s, put(an, s, v)) for s, v in oks(an, outs)]


def require(C, an, st, cond, name, what, site=None, key=None):
    """the condition holds on the path"""
    cond = P(cond)
    d = st.decide(cond)
    if d is True:
        C.ok(name)
        return "eq"
    tn = "a loop that can end in several ways" if st.ghost.get("~approx") else None
    bs = [b for b in base_atoms(cond) if fresh(b)]
    known = set()
    for c, _ in st.conds:
        known |= base_atoms(c)
    if ufuns(cond):
        tn = "uninterpreted term"
    if tn is None:
        for env in assignments(st, C.rng, 30, [(cond, 0)], types=an.d["types"]):
            C.bad(name, f"{what}: not implied; e.g. {witness(env, [cond] + [c for c, _ in st.conds], st)}", site, key)
            return "ne"
    C.und(name, f"{what}: {short(cond)} not established" + (f" ({tn})" if tn else ""))
    return "unk"


def u8arr(an, name, n=None):
    return SArr(name, ln(name) if n is None else P(n), an.it.find_ty("u8"))


def elem_index(p, name):
    """index of a term that is exactly one element of the named sequence, else None"""
    if isinstance(p, Poly) and len(p.m) == 1:
        (k, c), = p.m.items()
        if c == 1 and len(k) == 1:
            a = A(k[0])
            if a.op == "elem" and a.args[0] == name:
                return a.args[1]
    return None


def at(name, idx):
    return P(atom("elem", name, P(idx), lo=0, hi=255, w=8))


def be_at(name, idx, n):
    r = ZERO
    for i in range(n):
        r = r * 256 + at(name, P(idx) + i)
    return r


def strof(an, st, v):
    """the text of a string value when it is constant"""
    v = an.it.settle(st, v)
    for _ in range(6):
        if isinstance(v, Ptr):
            if v.cell[0] == "str":
                return v.cell[1]
            try:
                v = an.it.settle(st, an.it.load(st, (v.cell, v.path)))
            except (Undecided, Fork, PathDead):
                return None
            continue
        if isinstance(v, Opq) and v.tag == "str" and v.args and isinstance(v.args[0], str):
            return v.args[0]
        if isinstance(v, Opq) and v.args and v.tag in ("to_string", "to_owned", "string", "String"):
            v = v.args[0]
            continue
        break
    return None


class Sub:
    """a submessage of unknown content: its value, and offset and size of every section in the stream"""


def info_field(an, cell, st, name, v):
    info = st.mem[cell]
    ad = an.d["adts"][info.name]
    fs = [f[0] for f in ad["variants"][0]["fields"]]
    new = list(info.fields)
    new[fs.index(name)] = v
    st.mem[cell] = Agg(info.name, info.variant, new, info.ty)


def submessage(C, an, st=None, indicator=None, root="decoder"):
    """[(state, Sub)]: bodies are what the constructors make of the sections' own octets in the stream"""
    st = st or St()
    v = an.fresh_args(st, root)[0]
    out = Sub()
    ptr = v
    if isinstance(v, Ptr):
        v = an.it.load(st, (v.cell, v.path))
    out.arg, out.value = ptr, v
    out.off, out.size = {}, {}
    cells = {}
    for n in (0, 1, 3, 4, 5, 6, 7, 8):
        cells[n] = v.fields[n].fields[1].cell
        out.off[n] = P(atom("sym", f"off{n}", lo=0, hi=1 << 61))
        out.size[n] = P(atom("sym", f"size{n}", lo=5, hi=(1 << 32) - 1))
        info_field(an, cells[n], st, "num", P(n))
        info_field(an, cells[n], st, "offset", out.off[n])
        info_field(an, cells[n], st, "size", out.size[n])
    sts = [st]
    u8 = an.it.find_ty("u8")
    body = next(k for k in an.d["adts"] if k.endswith("::SectionBody"))
    names = [x["name"] for x in an.d["adts"][body]["variants"]]
    for n, ctor in ((1, "ident"), (3, "grid"), (4, "prod"), (5, "repr")):
        nxt = []
        for s in sts:
            arr = SArr("file", out.size[n] - 5, u8, out.off[n] + 5)
            for s1, x in oks(an, an.run(ctor, [Agg("box", "sl", [arr])], s)):
                b = Agg(body, names.index(f"Section{n}"), [x])
                info_field(an, cells[n], s1, "body", Agg("core::option::Option", 1, [b]))
                nxt.append(s1)
        sts = nxt
    bm = next(k for k in an.d["adts"] if k.endswith("::BitMap"))
    res = []
    for s in sts:
        ind = at("file", out.off[6] + 5) if indicator is None else P(indicator)
        if indicator is not None:
            s.conds += ((eq0(at("file", out.off[6] + 5) - indicator), 1),)
            s.assume(eq0(at("file", out.off[6] + 5) - indicator), 1)
        info_field(an, cells[6], s, "body", Agg("core::option::Option", 1, [Agg(body, names.index("Section6"), [Agg(bm, None, [ind])])]))
        info_field(an, cells[7], s, "body", Agg("core::option::Option", 1, [Agg(body, names.index("Section7"), [])]))
        info_field(an, cells[8], s, "body", Agg("core::option::Option", 0, []))
        ind0 = next(k for k in an.d["adts"] if k.endswith("::Indicator"))
        info_field(an, cells[0], s, "body", Agg("core::option::Option", 1, [Agg(body, names.index("Section0"), [Agg(ind0, None, [at("file", out.off[0] + 6), be_at("file", out.off[0] + 8, 8)])])]))
        res.append((s, out))
    return res


def sect_octet(sub, n, o, w=1, sg=False):
    """octets o.. of section n (numbered from 1) in the stream"""
    return be_at("file", sub.off[n] + o - 1, w)


def fix(st, term, val):
    """the term has the given value on this path; False when impossible"""
    c = eq0(P(term) - val)
    st.conds += ((c, 1),)
    return st.assume(c, 1)


def decoder_of(C, an, t, fixes=(), indicator=255, min7=None, sub_st=None):
    """[(state, Sub, pointer to the decoder)] for data representation template 5.t; fixes: [(section, octet, width, value)]"""
    r = []
    for st, sub in submessage(C, an, sub_st, indicator=indicator):
        ok = fix(st, sect_octet(sub, 5, 10, 2), t) and st.add_le0(80 - sub.size[5])
        for n, o, w, v in fixes:
            ok = ok and fix(st, sect_octet(sub, n, o, w), v)
        if ok and min7 is not None:
            ok = st.add_le0(min7 + 5 - sub.size[7])
        if not ok:
            continue
        for s, d in oks(an, an.run("decoder", [sub.arg], st)):
            r.append((s, sub, put(an, s, d)))
    return r


def f32bits(p):
    return F("frombits", (P(p),), 32)


def unpacked(sub, X):
    """(R + X * 2^E) * 10^-D of the packing parameters of Section 5"""
    R = f32bits(sect_octet(sub, 5, 12, 4))
    E = smag("file", sub.off[5] + 15, 2)
    D = smag("file", sub.off[5] + 17, 2)
    if X is None:
        return fmul(R, fpow10(ZERO - D, 32))
    return fmul(fadd(R, fmul(X if isinstance(X, F) else i2f(X, 32), fpow(32, fc(2.0, 32), E))), fpow10(ZERO - D, 32))


def subterms(x, seen=None):
    if seen is None:
        seen = []
    if isinstance(x, F):
        seen.append(x)
        for a in x.args:
            subterms(a, seen)
    elif isinstance(x, Ite):
        for a in (x.a, x.b):
            subterms(a, seen)
    return seen


def packed_of(got):
    """integer terms a float term converts"""
    r = []
    for f in subterms(got):
        if f.op == "i2f" and f.args[0] not in r:
            r.append(f.args[0])
    return r


def nan_term(x):
    """NaN whatever its inputs"""
    if not isinstance(x, F):
        return isinstance(x, Ite) and nan_term(x.a) and nan_term(x.b)
    if x.op == "nan":
        return True
    if x.op in ("add", "sub", "mul", "div", "neg", "cast", "abs", "f32", "f64", "round"):
        return any(nan_term(a) for a in x.args)
    return False


def _nan(C, st, got):
    an = C.an
    g = C.settle(an, st, got)
    if nan_term(g):
        return "eq"
    if isinstance(g, F):
        return C.cmp(an, st, g, F("nan", (), g.w))
    return ("unk", f"{g!r:.80}")


NAN = Pred(_nan, "NaN")


def pattern_of(an, st, v):
    """the values of a tuple of options, settled: list of None or term, one per component; [(state, list)]"""
    work = [(st, [])]
    n = len(v.fields)
    for i in range(n):
        nxt = []
        for s, xs in work:
            for s1, x in an.it.settle_all(s, v.fields[i]):
                nm = an_name(an, x)
                if nm == "None":
                    nxt.append((s1, xs + [None]))
                else:
                    for s2, y in an.it.settle_all(s1, x.fields[0]):
                        nxt.append((s2, xs + [y]))
        work = nxt
    return work


def bits_of(name, off, start, n):
    """n bits from bit `start` (most significant first) of the octets of a sequence from `off`"""
    r, have = ZERO, 0
    i, b = divmod(start, 8)
    while have < n:
        o = at(name, P(off) + i)
        take = min(8 - b, n - have)
        x = o
        lo = 8 - b - take
        x = mask_p(x, (1 << (8 - b)) - 1)
        x = shr_p(x, lo)
        r = r * (1 << take) + x
        have += take
        i, b = i + 1, 0
    return r
