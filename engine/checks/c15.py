"""Every decoded value is (R + X * 2^E) * 10^-D of its packed integer; missing values are NaN; width 0 gives the constant."""
from common import *

HALF = [(3, 7, 4, 16), (5, 21, 1, 0)]


def one_value(C, an, s, sub, x, what, bits=None):
    """a decoded value is the formula applied to some packed integer (the given one when known)"""
    x = C.settle(an, s, x)
    if nan_term(x):
        return "nan"
    if bits is not None:
        C.record(C.cmp(an, s, x, unpacked(sub, bits)), f"{what}: packing formula", key=f"{what}: packing formula")
        return "value"
    cands = packed_of(x)
    best = None
    for p in cands:
        r = C.cmp(an, s, x, unpacked(sub, p))
        if r == "eq":
            C.record(r, f"{what}: packing formula")
            return "value"
        if best is None or r[0] == "unk":
            best = r
    if best is None:
        # no conversion of an integer: the formula with some constant
        r = C.cmp(an, s, x, unpacked(sub, None))
        best = r if r == "eq" else ("unk", f"packed integer not recognised in {x!r:.100}")
    if best[0] == "ne" and len(cands) > 1:
        best = ("unk", best[1])
    C.record(best, f"{what}: packing formula", key=f"{what}: packing formula")
    return "value"


def run(C):
    for nb in range(1, 33):
        with C.part(f"template 0, {nb} bits"):
            an = C.an = An("roots", dict(stream.EXT))
            n = 0
            for s, sub, p in decoder_of(C, an, 0, HALF + [(5, 20, 1, nb)], 255, 16):
                all_bits = be_at("file", sub.off[7] + 5, 16)
                for s1, y in oks(an, an.run("values_two", [p], s)):
                    for s2, vs in pattern_of(an, s1, y):
                        for k, x in enumerate(vs):
                            if x is None:
                                C.record(C.reach(an, s2, f"value {k} is missing although its bits are there"), f"{nb} bits: every packed value is decoded", key="template 0: every packed value is decoded")
                                continue
                            n += 1
                            one_value(C, an, s2, sub, x, "template 0", be_bits(sub.off[7] + 5, nb * k, nb))
            if not n:
                C.und(f"template 0, {nb} bits", "no value")
            C.used(an)
    for t in (0, 2, 3, 40, 41):
        with C.part(f"template {t}, width 0"):
            an = C.an = An("roots", dict(stream.EXT))
            if t in (2, 3):
                continue
            n = 0
            for s, sub, p in decoder_of(C, an, t, HALF + [(5, 20, 1, 0)], 255, 16):
                enc = sect_octet(sub, 5, 6, 4)
                for s1, y in oks(an, an.run("values_two", [p], s)):
                    for s2, vs in pattern_of(an, s1, y):
                        for k, x in enumerate(vs):
                            if x is None:
                                if s2.add_le0(P(k + 1) - enc):
                                    C.record(C.reach(an, s2, f"value {k} is missing although it is encoded"), f"template {t}: a constant for each encoded point", key=f"template {t}: a constant for each encoded point")
                                else:
                                    C.ok(f"template {t}: a constant for each encoded point")
                                continue
                            n += 1
                            require(C, an, s2, le0(P(k + 1) - enc), f"template {t}: only encoded points", f"value {k} is yielded", key=f"template {t}: only encoded points")
                            C.record(C.cmp(an, s2, x, unpacked(sub, None)), f"template {t}: constant field", key=f"template {t}: constant field")
            if not n:
                C.und(f"template {t}, width 0", "no value")
            C.used(an)
    for t, cfgs in ((40, [[(5, 20, 1, 8)], [(5, 20, 1, 16)]]), (41, [[(5, 20, 1, b)] for b in (8, 16, 24)]),
                    (2, CPLX), (3, [c + [(5, 48, 1, o), (5, 49, 1, 2)] for c in CPLX[:3] for o in (1, 2)])):
        for i, cfg in enumerate(cfgs):
            with C.part(f"template {t}, configuration {i}"):
                an = C.an = An("roots", dict(stream.EXT))
                kinds = set()
                for s, sub, p in decoder_of(C, an, t, HALF + cfg, 255, 40):
                    for s1, y in oks(an, an.run("values_two", [p], s)):
                        for s2, vs in pattern_of(an, s1, y):
                            for k, x in enumerate(vs):
                                if x is not None:
                                    kinds.add(one_value(C, an, s2, sub, x, f"template {t}"))
                if "value" not in kinds:
                    C.und(f"template {t}, configuration {i}", "no value")
                if t in (2, 3) and ((5, 23, 1, 0) in cfg) == ("nan" in kinds):
                    if "nan" in kinds:
                        C.bad(f"template {t}: missing only under missing value management", "a NaN is yielded without missing value management", key=f"template {t}: NaN without missing values")
                    else:
                        C.bad(f"template {t}: missing values are NaN", "no NaN is ever yielded with missing value management", key=f"template {t}: missing values are NaN")
                C.used(an)


def be_bits(off, start, n):
    """the n bits from bit `start` of the stream position, as an integer"""
    return bits_of("file", off, start, n)


def cplx(nbit, mvm, ngroup, wref, wn, lref, linc, last, ln_):
    return [(5, 20, 1, nbit), (5, 22, 1, 1), (5, 23, 1, mvm), (5, 32, 4, ngroup), (5, 36, 1, wref), (5, 37, 1, wn), (5, 38, 4, lref), (5, 42, 1, linc), (5, 43, 4, last), (5, 47, 1, ln_)]


CPLX = [cplx(8, 0, 2, 5, 0, 2, 1, 3, 0), cplx(8, 1, 1, 6, 0, 2, 1, 3, 0), cplx(12, 2, 2, 0, 0, 1, 1, 1, 0), cplx(8, 2, 2, 7, 0, 1, 1, 1, 0)]
