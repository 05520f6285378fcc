"""Packing parameters are read from the octets of Section 5; unsupported codes are refused."""
from common import *
import c15

# (field names as used in the readers, octet of Section 5, width, signed)
SIMPLE = {"exp": (16, 2, True), "dig": (18, 2, True), "nbit": (20, 1, False)}
COMPLEX = {"group_splitting_method_used": (22, 1), "missing_value_management_used": (23, 1), "ngroup": (32, 4), "group_width_ref": (36, 1), "group_width_nbit": (37, 1),
           "group_len_ref": (38, 4), "group_len_inc": (42, 1), "group_len_last": (43, 4), "group_len_nbit": (47, 1)}


def reader(an, struct):
    for f in an.d["fns"]:
        if f["path"].endswith(f"{struct}::from_buf") and f["key"] in an.d["bodies"]:
            return f["path"]
    return None


def refusal(C, an, outs, name, ok_kinds, why):
    """every outcome is one of the given errors"""
    n = 0
    for st, v in outs:
        for s, x in an.it.settle_all(st, v):
            n += 1
            if an_name(an, x) == "Ok":
                C.record(C.reach(an, s, why), name, key=name)
            else:
                C.record(C.cmp(an, s, x.fields[0], ok_kinds), name, key=name)
    if not n:
        C.und(name, "no outcome")


def accepted(C, an, outs, name, refused):
    """never refused with the given error"""
    n = 0
    for st, v in outs:
        for s, x in an.it.settle_all(st, v):
            n += 1
            if an_name(an, x) == "Err":
                r = C.cmp(an, s, x.fields[0], refused)
                if r == "eq":
                    C.record(C.reach(an, s, "refused"), name, key=name)
                    continue
            C.ok(name)
    if not n:
        C.und(name, "no outcome")


def decerr(kind, inner):
    return V("DecodeError", V(kind, inner if inner is ANY else V(inner)))


def run(C):
    with C.part("simple packing parameters"):
        an = An("grib")
        f = reader(an, "SimplePackingParam")
        if f is None:
            C.und("simple packing parameters", "no reader of this name")
        else:
            st = St()
            c = an.it.newcell(st, SArr("B", P(10), an.it.find_ty("u8")), None, "obj")
            outs = an.run(f, [Ptr(c, (), (ZERO, P(10)))], st)
            good = oks(an, outs)
            for s, v in good:
                v = C.settle(an, s, v)
                g = C.fld(an, v, "ref_val")
                if g is not None:
                    C.record(C.cmp(an, s, g, f32bits(octets("B", 0, 4))), "reference value", key="reference value")
                for k, (o, w, sg) in SIMPLE.items():
                    g = C.fld(an, v, k)
                    if g is not None:
                        C.record(C.cmp(an, s, g, smag("B", o - 12, w) if sg else octets("B", o - 12, w)), f"{k} from octets {o}..", key=f"simple packing {k}")
            C.no_panic(an, "simple packing parameters")
            C.used(an)
    with C.part("complex packing parameters"):
        an = An("grib")
        f = reader(an, "ComplexPackingParam")
        if f is None:
            C.und("complex packing parameters", "no reader of this name")
        else:
            st = St()
            c = an.it.newcell(st, SArr("B", P(26), an.it.find_ty("u8")), None, "obj")
            for s, v in an.run(f, [Ptr(c, (), (ZERO, P(26)))], st):
                for s1, x in an.it.settle_all(s, v):
                    if an_name(an, x) == "Ok":
                        x = C.settle(an, s1, x.fields[0])
                    for k, (o, w) in COMPLEX.items():
                        g = C.fld(an, x, k)
                        if g is not None:
                            C.record(C.cmp(an, s1, g, octets("B", o - 22, w)), f"{k} from octets {o}..", key=f"complex packing {k}")
            C.no_panic(an, "complex packing parameters")
            C.used(an)
    # through the public interface: decoded values with the parameters at their octets of the section
    for t in (0, 40, 41):
        for nb in ((1, 5, 11, 16, 24, 32) if t != 40 else (1, 9, 30)):
            with C.part(f"template {t}, {nb} bits"):
                an = C.an = An("roots", dict(stream.EXT))
                for s, sub, p in decoder_of(C, an, t, c15.HALF + [(5, 20, 1, nb)], 255, 40):
                    for s1, y in oks(an, an.run("values_two", [p], s)):
                        for s2, vs in pattern_of(an, s1, y):
                            for k, x in enumerate(vs):
                                if x is not None:
                                    c15.one_value(C, an, s2, sub, x, f"template {t}", c15.be_bits(sub.off[7] + 5, nb * k, nb) if t == 0 else None)
                                    if t == 41:
                                        ps = packed_of(C.settle(an, s2, x))
                                        C.record(bits_width(C, an, s2, ps, nb), "template 41: width of the packed values", key="template 41: width of the packed values")
                C.used(an)
    for t, i, cfg, b7, want in groups():
        with C.part(f"template {t}, groups {i}"):
            an = C.an = An("roots", dict(stream.EXT))
            n = 0
            for s, sub, p in decoder_of(C, an, t, c15.HALF + cfg + [(7, 6 + o, 1, v) for o, v in b7], 255, 64):
                for s1, y in oks(an, an.run("values_two", [p], s)):
                    for s2, vs in pattern_of(an, s1, y):
                        for k, x in enumerate(vs):
                            if x is None:
                                C.record(C.reach(an, s2, f"value {k} is missing"), f"template {t}: layout of the groups", key=f"template {t}: layout of the groups")
                                continue
                            n += 1
                            C.record(C.cmp(an, s2, x, unpacked(sub, want(sub)[k])), f"template {t}: layout of the groups, {i}", key=f"template {t}: layout of the groups")
            if not n:
                C.und(f"template {t}, groups {i}", "no value")
            C.used(an)
    # refusals
    for t in (0, 2, 3, 40, 41):
        with C.part(f"template {t}: integer fields"):
            an = C.an = An("roots", dict(stream.EXT))
            for s, sub, p in decoder_of(C, an, t, SMALL.get(t, []), 255, 60):
                ty = sect_octet(sub, 5, 21)
                s.conds += ((eq0(ty), 0),)
                if s.assume(eq0(ty), 0):
                    refusal(C, an, an.run("dispatch", [p], s), f"template {t}: integer fields are refused", ANY, "a field of another type than floating point is decoded")
            for s, sub, p in decoder_of(C, an, t, SMALL.get(t, []) + [(5, 21, 1, 0)], 255, 60):
                accepted(C, an, an.run("dispatch", [p], s), f"template {t}: floating-point fields are not refused", decerr("SimplePackingDecodeError", ANY))
            C.used(an)
    for t in (2, 3):
        base = [x for x in SMALL[t] if x[1] not in (22, 23)] + [(5, 21, 1, 0)]
        with C.part(f"template {t}: unsupported codes"):
            an = C.an = An("roots", dict(stream.EXT))
            for o, good, what in ((22, [1], "group splitting method"), (23, [0, 1, 2], "missing value management")):
                oth = (5, 23, 1, 0) if o == 22 else (5, 22, 1, 1)
                for s, sub, p in decoder_of(C, an, t, base + [oth], 255, 60):
                    x = sect_octet(sub, 5, o)
                    ok = True
                    for g in good:
                        s.conds += ((eq0(x - g), 0),)
                        ok = ok and s.assume(eq0(x - g), 0)
                    if ok:
                        refusal(C, an, an.run("dispatch", [p], s), f"template {t}: other {what} codes are refused", ANY, f"an unknown {what} code is decoded")
                for g in good:
                    for s, sub, p in decoder_of(C, an, t, base + [oth, (5, o, 1, g)], 255, 60):
                        accepted(C, an, an.run("dispatch", [p], s), f"template {t}: {what} {g} is supported", decerr("ComplexPackingDecodeError", ANY))
            C.used(an)
    with C.part("template 3: spatial differencing codes"):
        an = C.an = An("roots", dict(stream.EXT))
        base = [x for x in SMALL[3] if x[1] not in (48, 49)] + [(5, 21, 1, 0)]
        for s, sub, p in decoder_of(C, an, 3, base + [(5, 49, 1, 2)], 255, 60):
            x = sect_octet(sub, 5, 48)
            ok = True
            for g in (1, 2):
                s.conds += ((eq0(x - g), 0),)
                ok = ok and s.assume(eq0(x - g), 0)
            if ok:
                refusal(C, an, an.run("dispatch", [p], s), "other spatial differencing orders are refused", ANY, "an unknown spatial differencing order is decoded")
        C.no_panic(an, "other spatial differencing orders are refused")
        for g in (1, 2):
            for n in (1, 2, 3, 4):
                for s, sub, p in decoder_of(C, an, 3, base + [(5, 48, 1, g), (5, 49, 1, n)], 255, 60):
                    outs = an.run("dispatch", [p], s)
                    accepted(C, an, outs, f"order {g} with {n} octets is supported", decerr("ComplexPackingDecodeError", ANY))
                    accepted(C, an, outs, f"order {g} with {n} octets is supported", V("NotSupported", ANY))
        C.used(an)
    with C.part("template 200: levels"):
        an = C.an = An("roots", dict(stream.EXT))
        n = 0
        for s, sub, p in decoder_of(C, an, 200, [(3, 7, 4, 16), (5, 12, 1, 4), (5, 13, 2, 5), (5, 15, 2, 3)], 255, 8):
            D = smag("file", sub.off[5] + 16, 1)
            for s1, y in oks(an, an.run("values_two", [p], s)):
                for s2, vs in pattern_of(an, s1, y):
                    x = vs[0]
                    if x is None:
                        continue
                    lv = [None] + [fmul(i2f(sect_octet(sub, 5, 16 + 2 * i, 2), 32), fpow10(ZERO - D, 32)) for i in (1, 2, 3)]
                    for w, got, s3 in leaves(C, an, s2, x):
                        n += 1
                        if nan_term(got):
                            continue
                        rs = [C.cmp(an, s3, got, e) for e in lv[1:]]
                        if any(r == "eq" for r in rs):
                            C.ok("level values from octets 18..")
                        elif all(r[0] == "ne" for r in rs):
                            C.bad("level values from octets 18..", f"none of the listed levels: {rs[0][1]}", key="level values")
                        else:
                            C.und("level values from octets 18..", rs[0][1])
        if not n:
            C.und("template 200: levels", "no value")
        C.used(an)


def leaves(C, an, st, x):
    """the alternatives of a value: [(conditions, term, state)]"""
    x = C.settle(an, st, x)
    if isinstance(x, F) and x.op == "ite":
        r = []
        for v, y in ((1, x.args[1]), (0, x.args[2])):
            s = st.copy()
            s.conds += ((x.args[0], v),)
            if s.assume(x.args[0], v):
                r += leaves(C, an, s, y)
        return r
    if isinstance(x, Ite):
        r = []
        for v, y in ((1, x.a), (0, x.b)):
            s = st.copy()
            s.conds += ((x.c, v),)
            if s.assume(x.c, v):
                r += leaves(C, an, s, y)
        return r
    return [((), x, st)]


def bits_width(C, an, st, ps, nb):
    """the packed value can be as large as its width allows, and not larger"""
    if len(ps) != 1:
        return ("unk", "packed value not recognised")
    lo, hi = st.bounds(ps[0])
    if hi == (1 << nb) - 1 and lo == 0:
        return "eq"
    return ("ne", f"packed value {ps[0]!r:.80} ranges over {lo}..{hi} instead of 0..{(1 << nb) - 1}") if lo == 0 and hi not in (INF,) and not any(fresh(b) and b.op != "elem" for b in base_atoms(ps[0])) else ("unk", f"range {lo}..{hi}")


SMALL = {0: [(5, 20, 1, 8)], 40: [(5, 20, 1, 8)], 41: [(5, 20, 1, 8)],
         2: c15.cplx(8, 0, 2, 5, 0, 2, 1, 3, 0), 3: c15.cplx(8, 0, 2, 5, 0, 2, 1, 3, 0) + [(5, 48, 1, 1), (5, 49, 1, 2)]}


def groups():
    """configurations that tell every group parameter from every other: (template, name, fixes, octets of the data, packed values)"""
    r = []

    def two(t, nbit, wref, wn, lref, linc, last, lnb, extra=(), skip=0, widths=None, lens=None, minimum=None, add=()):
        """two groups; widths/lens: the packed group widths and lengths in the data"""
        refs = (2 * nbit + 7) // 8
        wo = (2 * wn + 7) // 8
        lo = (lnb + lnb + 7) // 8 if True else 0
        b7 = []
        if wn:
            v = (widths[0] << wn | widths[1]) << (8 * wo - 2 * wn)
            b7 += [(skip + refs + i, v >> 8 * (wo - 1 - i) & 255) for i in range(wo)]
        if lnb:
            v = (lens[0] << lnb | lens[1]) << (8 * lo - 2 * lnb)
            b7 += [(skip + refs + wo + i, v >> 8 * (lo - 1 - i) & 255) for i in range(lo)]
        w = [wref + (widths[i] if wn else 0) for i in (0, 1)]
        l0 = lref + linc * (lens[0] if lnb else 0)

        def want(sub):
            base = sub.off[7] + 5 + skip
            data = base + refs + wo + lo
            xs, pos = [], 0
            for g, n in ((0, l0), (1, last)):
                ref = bits_of("file", base, g * nbit, nbit)
                for k in range(n):
                    v = smag32(bits_of("file", data, pos, w[g])) if w[g] else ZERO
                    xs.append(v + ref + (minimum(sub) if minimum else 0))
                    pos += w[g]
            return xs
        r.append((t, f"{nbit}/{wref}+{wn}/{lref}+{linc}*{lnb}", c15.cplx(nbit, 0, 2, wref, wn, lref, linc, last, lnb) + list(extra), b7, want))
    two(2, 8, 6, 0, 1, 0, 4, 0)
    two(2, 8, 6, 0, 2, 0, 1, 0)
    two(2, 12, 3, 4, 1, 7, 2, 3, widths=(2, 9), lens=(0, 5))
    two(2, 9, 1, 2, 0, 1, 2, 5, widths=(3, 1), lens=(1, 9))
    two(2, 16, 11, 3, 0, 2, 3, 2, widths=(1, 4), lens=(1, 3))
    return r


def smag32(p):
    return p
