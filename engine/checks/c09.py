"""Fixed fields of Sections 0, 1, 3, 4, 5, 6: value flow from octets, compared with the WMO octet numbers."""
from common import *
import reading

MAGIC = b"GRIB"


def run(C):
    with C.part("section 0"):
        an = An("roots")
        S = reading.Stream(an, "full")
        outs = S.run("rd_sect0", None, S.state())
        n = 0
        for st, v in outs:
            for s, x in an.it.settle_all(st, v):
                nm = an_name(an, x)
                y = an.it.settle(s, x.fields[0])
                yn = an_name(an, y)
                if nm == "Ok" and yn == "Some":
                    n += 1
                    ind = an.it.settle(s, y.fields[0].fields[1])
                    disc = s.norm(an.it.as_int(s, C.fld(an, ind, "discipline")))
                    i = elem_index(disc, "file")
                    if i is None:
                        # found position = stream position after Section 0 - 16
                        i = stream.pos(s) - 10
                    p = i - 6
                    # the octets really belong to a Section 0: the magic number is at p
                    for j, m in enumerate(MAGIC):
                        require(C, an, s, eq0(at("file", p + j) - m), "section 0 fields are read from a Section 0",
                                "discipline is octet 7 of a section whose octets 1-4 are GRIB", key="Section 0 discipline is octet 7")
                    C.record(C.cmp(an, s, disc, at("file", p + 6)), "discipline = octet 7", key="Section 0 discipline is octet 7")
                    C.record(C.cmp(an, s, C.fld(an, ind, "total_length"), be_at("file", p + 8, 8)), "total length = octets 9-16", key="Section 0 total length is octets 9-16")
                    require(C, an, s, eq0(at("file", p + 7) - 2), "accepted edition is 2", "edition (octet 8) is 2", key="Section 0 edition is checked")
                elif nm == "Err" and yn == "GRIBVersionMismatch":
                    n += 1
                    ver = s.norm(an.it.as_int(s, y.fields[0]))
                    i = elem_index(ver, "file")
                    p = (i if i is not None else stream.pos(s) - 9) - 7
                    for j, m in enumerate(MAGIC):
                        require(C, an, s, eq0(at("file", p + j) - m), "refused edition is read from a Section 0", "edition is octet 8", key="Section 0 edition error")
                    require(C, an, s, ONE - eq0(at("file", p + 7) - 2), "edition 2 is not refused", "edition differs from 2", key="Section 0 edition error")
                    C.record(C.cmp(an, s, ver, at("file", p + 7)), "edition named in the error", key="Section 0 edition error")
        if not n:
            C.und("section 0", "no outcome")
        C.used(an)
    for root, acc, name, need, want in (
            ("ident", "ident_fields", "S1", 16, [(0, 2), (2, 2), (4, 1), (5, 1), (6, 1), (14, 1), (15, 1)]),
            ("grid", "grid_fields", "S3", 9, [(1, 4), (7, 2)]),
            ("prod", "prod_fields", "S4", 4, [(0, 2), (2, 2)]),
            ("repr", "repr_fields", "S5", 6, [(0, 4), (4, 2)])):
        with C.part(f"{acc}"):
            an = An("roots", dict(stream.EXT))
            st = St()
            outs = an.run(root, [boxed(an, st, name)], st)
            C.cases(an, outs, [(le0(P(need) - ln(name)), Ok(ANY)), (le0(ln(name) - need + 1), Err(V("SectionSizeTooSmall", ln(name))))], f"{root}: payload length is checked")
            for s, v in oks(an, outs):
                o2 = an.run(acc, [put(an, s, v)], s)
                if not o2:
                    C.bad(f"{acc}: value", "no outcome: the accessor never returns", key=acc)
                C.equal(an, o2, Tup(*[octets(name, a, b) for a, b in want]), acc)
            C.no_panic(an, acc)
            C.sample(f"{acc} = {o2[0][1]!r}")
            C.used(an)
    with C.part("section 6 indicator"):
        an = An("roots", dict(stream.EXT))
        st = St()
        args = an.fresh_args(st, "rd_payload")
        size = sym("size", None, lo=6, hi=(1 << 32) - 1)
        args[1] = Agg("tuple", None, [size, P(6)])
        outs = an.run("rd_payload", args, st)
        n = 0
        for s, x in oks(an, outs):
            n += 1
            C.record(C.cmp(an, s, x, V("Section6", Fields(bitmap_indicator=at("file", 0)))), "bit-map indicator = octet 6", key="bit-map indicator is octet 6")
        if not n:
            C.und("section 6 indicator", "no outcome")
        C.used(an)
