"""The bit map: NaN for 0, the next decoded value for 1, exactly the grid's points, exact remaining count."""
from common import *

NEXT = r"Grib2DecodedValues<.*Iterator>::next$"
HINT = r"Grib2DecodedValues<.*Iterator>::size_hint$"
BASE = [(5, 21, 1, 0), (5, 20, 1, 8)]


def start(C, an, npts, mapping, more=()):
    """[(state, Sub, pointer to the value iterator)] for simple packing with 8 bits"""
    r = []
    ind = 255 if mapping is None else 0
    fx = BASE + [(3, 7, 4, npts)] + list(more)
    for s, sub, p in decoder_of(C, an, 0, fx, ind, npts + 8):
        if mapping is not None:
            if not (s.add_le0(len(mapping) + 6 - sub.size[6]) and s.add_le0(sub.size[6] - 6 - len(mapping))):
                continue
            if not all(fix(s, sect_octet(sub, 6, 7 + i), m) for i, m in enumerate(mapping)):
                continue
        for s1, x in oks(an, an.run("dispatch", [p], s)):
            r.append((s1, sub, put(an, s1, x)))
    return r


def sequence(C, an, nx, sh, npts, mapping, what):
    n = 0
    for s, sub, v in start(C, an, npts, mapping):
        n += 1
        k = 0
        for i in range(npts + 2):
            if sh:
                hs = an.run_key(sh[0], [v], s)
                left = max(0, npts - i)
                for s1, h in hs:
                    C.record(C.cmp(an, s1, h, Tup(P(left), Some(P(left)))), f"{what}: remaining count", key="remaining count")
            outs = [(s2, y) for s1, x in an.run_key(nx[0], [v], s) for s2, y in an.it.settle_all(s1, x)]
            if len(outs) != 1:
                C.und(f"{what}: point {i}", f"{len(outs)} outcomes")
                return
            s, y = outs[0]
            if i >= npts:
                if an_name(an, y) == "None":
                    C.ok(f"{what}: ends after the grid's points")
                else:
                    C.bad(f"{what}: ends after the grid's points", C.reach(an, s, f"a value for point {i} of {npts}")[1], key="as many points as the grid has")
                continue
            bit = 1 if mapping is None else mapping[i // 8] >> (7 - i % 8) & 1
            if an_name(an, y) == "None":
                C.bad(f"{what}: every point is yielded", C.reach(an, s, f"no value for point {i} of {npts}")[1], key="every point is yielded")
                return
            if bit:
                C.record(C.cmp(an, s, y.fields[0], unpacked(sub, at("file", sub.off[7] + 5 + k))), f"{what}: present points take the next value", key="present points take the next value")
                k += 1
            else:
                C.record(C.cmp(an, s, y.fields[0], NAN), f"{what}: missing points are NaN", key="missing points are NaN")
    if not n:
        C.bad(f"{what}: values", "no iterator for a sufficient bit map", key="sufficient bit maps are accepted")


def cover(C, an, nx, sh, rng):
    for npts in (1, 2, 5, 7, 8, 9, 12, 15, 16, 17, 23, 24, 25) if TIER == "quick" else range(1, 41):
        nb = (npts + 7) // 8
        pats = [[255] * nb, [0] * nb, [rng.randint(0, 255) for _ in range(nb)], [rng.randint(0, 255) for _ in range(nb)] + [255], [0xA5] * nb]
        for m in pats + [None]:
            with C.part(f"{npts} points"):
                sequence(C, an, nx, sh, npts, m, "with a bit map" if m is not None else "without a bit map")


def induct(C, an, nx):
    """from any octet boundary of the bit map and any position in the packed values, the eight points of the octet; the state is then
    the one at the next boundary"""
    st = None
    for s, sub, p in decoder_of(C, an, 0, BASE, 0, 8):
        N = sect_octet(sub, 3, 7, 4)
        for s1, x in oks(an, an.run("dispatch", [p], s)):
            q = P(atom("sym", "octet", lo=0, hi=1 << 29))
            k = P(atom("sym", "used", lo=0, hi=1 << 32))

            def shift(v, dq, dk, o, d=0):
                """the initial state moved to octet q of the map and value k"""
                v = an.it.settle(o, v)
                if isinstance(v, Agg) and v.name == "slice_iter" and v.fields[1].const is not None:
                    return Agg(v.name, v.variant, [v.fields[0], v.fields[1] + dq] + list(v.fields[2:]), v.ty)
                if isinstance(v, Agg) and v.name in an.d["adts"] and d < 9:
                    vi = v.variant or 0
                    fs = [f[0] for f in an.d["adts"][v.name]["variants"][vi]["fields"]]
                    out = []
                    for n, f in zip(fs, v.fields):
                        if v.name.endswith("BitmapDecodeIterator") and n == "offset":
                            out.append(dq * 8 + P(an.it.as_int(o, f)))
                        elif v.name.endswith("NBitwiseIterator") and n == "pos":
                            out.append(dk + P(an.it.as_int(o, f)))
                        else:
                            out.append(shift(f, dq, dk, o, d + 1))
                    return Agg(v.name, v.variant, out, v.ty)
                return v
            s1 = s1.copy()
            ok = s1.add_le0(q * 8 + 8 - N) and s1.add_le0(q * 8 + 8 - (sub.size[6] - 6) * 8) and s1.add_le0(k + 8 - (sub.size[7] - 5))
            if not ok:
                continue
            init = an.it.settle(s1, x)
            ini = shift(init, q, k, s1)
            if repr(ini) == repr(init):
                C.und("octet of the bit map", "state not recognised")
                return
            pats = range(256) if TIER != "quick" else sorted({0, 255, 0xA5, 0x5A, 1, 128, 254, 127} | {C.rng.randint(0, 255) for _ in range(24)})
            for pat in pats:
                s2 = s1.copy()
                if not fix(s2, at("file", sub.off[6] + 6 + q), pat):
                    continue
                v = put(an, s2, ini)
                work, j = [s2], 0
                for i in range(8):
                    outs = [(s4, y) for s2 in work for s3, w in an.run_key(nx[0], [v], s2) for s4, y in an.it.settle_all(s3, w)]
                    if len(outs) > 24:
                        C.und("octet of the bit map", f"{len(outs)} outcomes")
                        return
                    work = []
                    one = pat >> (7 - i) & 1
                    for s2, y in outs:
                        if an_name(an, y) == "None":
                            C.record(C.reach(an, s2, f"no value for bit {i} of an octet of the bit map"), "every point of an octet is yielded", key="every point is yielded")
                            continue
                        if one:
                            C.record(C.cmp(an, s2, y.fields[0], unpacked(sub, at("file", sub.off[7] + 5 + k + j))), "any octet: present points take the next value", key="present points take the next value")
                        else:
                            C.record(C.cmp(an, s2, y.fields[0], NAN), "any octet: missing points are NaN", key="missing points are NaN")
                        work.append(s2)
                    j += one
                for s2 in work:
                    end = an.it.settle(s2, an.it.load(s2, (v.cell, v.path)))
                    want = shift(init, q + 1, k + j, s2)
                    if repr(end) == repr(want):
                        C.ok("the state after an octet is the one at the next boundary")
                    else:
                        C.und("the state after an octet is the one at the next boundary", f"{end!r:.200}")


def refused(C, an):
    for s, sub, p in decoder_of(C, an, 0, BASE, 0, 8):
        N, have = sect_octet(sub, 3, 7, 4), (sub.size[6] - 6) * 8
        for s1, x in an.run("dispatch", [p], s):
            for s2, y in an.it.settle_all(s1, x):
                if an_name(an, y) == "Ok":
                    require(C, an, s2, le0(N - have), "a bit map with too few bits is refused", "a decoder is made", key="short bit map")
                else:
                    e = C.settle(an, s2, y.fields[0])
                    if C.cmp(an, s2, e, V("DecodeError", V("LengthMismatch"))) == "eq":
                        require(C, an, s2, ONE - le0(N - have), "a sufficient bit map is accepted", "length mismatch", key="sufficient bit maps are accepted")


def run(C):
    an = C.an = An("roots", dict(stream.EXT))
    nx, sh = an.find(NEXT), an.find(HINT)
    if not nx:
        C.und("decoded values", "no iterator found")
        return
    cover(C, an, nx, sh, C.rng)
    with C.part("any octet"):
        induct(C, an, nx)
    with C.part("short bit maps"):
        refused(C, an)
    C.used(an)
