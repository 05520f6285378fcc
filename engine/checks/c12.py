"""Sign-magnitude integers: the conversion helpers for every width, and the public fields that carry signed integers."""
from common import *


def run(C):
    found = set()
    an0 = An("grib")
    for f in an0.d["fns"]:
        b = an0.d["bodies"].get(f["key"])
        if not b or "grib_int" not in f["path"].rsplit("::", 1)[-1]:
            continue
        tys = [an0.it.T(b["b"]["locals"][i + 1][0]) for i in range(b["b"]["argc"])]
        if len(tys) != 1:
            continue
        t = an0.it.T(tys[0]["t"]) if tys[0]["k"] == "ref" else tys[0]
        if t["k"] == "int" and not t["sg"]:
            n = t["w"] // 8
            with C.part(f"{n}-octet conversion"):
                an = An("grib")
                st = St()
                v = octets("B", 0, n)
                outs = an.run(f["path"], [put(an, st, v) if tys[0]["k"] == "ref" else v], st)
                C.equal(an, outs, smag("B", 0, n), f"{n}-octet sign-magnitude conversion", site=f["path"])
                if not outs:
                    C.bad(f"{n}-octet sign-magnitude conversion", "no outcome")
                C.no_panic(an, f"{n}-octet conversion")
                C.used(an)
                C.sample(f"{f['path']} = {outs[0][1]!r}")
                found.add(n)
        elif t["k"] == "slice":
            for n in (1, 2, 3, 4):
                with C.part(f"conversion of a {n}-octet slice"):
                    an = An("grib")
                    st = St()
                    c = an.it.newcell(st, SArr("B", P(n), an.it.find_ty("u8")), None, "obj")
                    outs = an.run(f["path"], [Ptr(c, (), (ZERO, P(n)))], st)
                    C.equal(an, outs, smag("B", 0, n), f"sign-magnitude conversion of a {n}-octet slice", site=f["path"])
                    if not outs:
                        C.bad(f"sign-magnitude conversion of a {n}-octet slice", "no outcome")
                    C.no_panic(an, f"conversion of a {n}-octet slice")
                    C.used(an)
                    found.add(f"slice{n}")
    for w in (1, 2, 4, "slice1", "slice2", "slice3", "slice4"):
        if w not in found:
            C.und(f"conversion of {w} octets", "no helper of this width found")
    # signed fields reached through the public interface
    with C.part("fixed surfaces"):
        an = An("roots", dict(stream.EXT))
        st = St()
        st.assume(eq0(octets("S4", 2, 2)), 1)
        st.conds += ((eq0(octets("S4", 2, 2)), 1),)
        st.add_le0(P(29) - ln("S4"))
        for s0, p in construct(C, an, "prod", "S4", st=st):
            outs = an.run("prod_surfaces", [p], s0)
            C.equal(an, outs, Some(Tup(Fields(scale_factor=smag("S4", 18, 1), scaled_value=smag("S4", 19, 4)),
                                       Fields(scale_factor=smag("S4", 24, 1), scaled_value=smag("S4", 25, 4)))), "signed fields of the fixed surfaces")
        C.used(an)
    with C.part("latitudes"):
        an = An("roots", dict(stream.EXT))
        st = St()
        st.assume(eq0(octets("S3", 7, 2)), 1)
        st.conds += ((eq0(octets("S3", 7, 2)), 1),)
        s1 = P(67)
        for s0, p in construct(C, an, "grid", "S3", st=st):
            if not s0.add_le0(67 - ln("S3")) or not s0.add_le0(ln("S3") - 67):
                continue
            outs = an.run("grid_values", [p], s0)
            C.equal(an, outs, Ok(V("Template0", Fields(first_point_lat=smag("S3", 41, 4), first_point_lon=smag("S3", 45, 4),
                                                       last_point_lat=smag("S3", 50, 4), last_point_lon=smag("S3", 54, 4)))), "signed coordinates of the grid")
        C.used(an)
