"""Grid definition templates: every exposed parameter from its octets; template selection; unsupported templates."""
from common import *

N = "S3"


def u(octet, n=4):
    return octets(N, octet - 6, n)


def s(octet, n=4):
    return smag(N, octet - 6, n)


def flag(octet):
    return Tup(byte(N, octet - 6))


EARTH = Fields(shape_of_the_earth=u(15, 1), scale_factor_of_radius_of_spherical_earth=u(16, 1), scaled_value_of_radius_of_spherical_earth=u(17),
               scale_factor_of_earth_major_axis=u(21, 1), scaled_value_of_earth_major_axis=u(22), scale_factor_of_earth_minor_axis=u(26, 1),
               scaled_value_of_earth_minor_axis=u(27))
SPEC = {
    0: ("Template0", 67, dict(ni=u(31), nj=u(35), first_point_lat=s(47), first_point_lon=s(51), last_point_lat=s(56), last_point_lon=s(60), scanning_mode=flag(72)),
        "regular_ll", (31, 35)),
    20: ("Template20", 60, dict(earth_shape=EARTH, ni=u(31), nj=u(35), first_point_lat=s(39), first_point_lon=s(43), lad=s(48), lov=s(52), dx=u(56), dy=u(60),
                                projection_centre=flag(64), scanning_mode=flag(65)), "polar_stereographic", (31, 35)),
    30: ("Template30", 76, dict(earth_shape=EARTH, ni=u(31), nj=u(35), first_point_lat=s(39), first_point_lon=s(43), lad=s(48), lov=s(52), dx=u(56), dy=u(60),
                                scanning_mode=flag(65), latin1=s(66), latin2=s(70)), "lambert", (31, 35)),
    40: ("Template40", 67, dict(ni=u(31), nj=u(35), first_point_lat=s(47), first_point_lon=s(51), last_point_lat=s(56), last_point_lon=s(60),
                                i_direction_inc=u(64), n=u(68), scanning_mode=flag(72)), "regular_gg", (31, 35)),
}


def run(C):
    tmpl = octets(N, 7, 2)
    for num, (variant, need, fields, short_name, (oi, oj)) in SPEC.items():
        with C.part(f"template 3.{num}"):
            an = An("roots", dict(stream.EXT))
            st = St()
            st.assume(eq0(tmpl - num), 1)
            for o in (13, 14):
                st.norm(byte(N, o - 6))
            st.add_le0(P(need) - ln(N))
            exact = num in (0, 40)
            for s0, p in construct(C, an, "grid", N, st=st):
                if exact:
                    long = s0.copy()
                    if long.add_le0(P(68) - ln(N)):
                        outs = an.run("grid_values", [p], long)
                        C.equal(an, outs, Err(V("NotSupported", ANY)), f"template 3.{num} with a list of numbers of points is not supported")
                    if not (s0.add_le0(ln(N) - 67)):
                        continue
                outs = an.run("grid_values", [p], s0)
                if not outs:
                    C.bad(f"template 3.{num}", "no outcome")
                C.equal(an, outs, Ok(V(variant, Fields(**fields))), f"template 3.{num}")
                for s1, v in oks(an, outs):
                    q = put(an, s1, v)
                    C.equal(an, an.run("grid_shape", [q], s1), Tup(u(oi), u(oj)), f"shape of template 3.{num}")
                    for s2, nm in an.run("grid_name", [q], s1):
                        got = strof(an, s2, nm)
                        if got == short_name:
                            C.ok(f"short name of template 3.{num}")
                        elif got is None:
                            C.und(f"short name of template 3.{num}", repr(nm))
                        else:
                            C.bad(f"short name of template 3.{num}", f"{got!r} instead of {short_name!r}")
            C.no_panic(an, f"template 3.{num}")
            C.used(an)
    with C.part("other templates"):
        an = An("roots", dict(stream.EXT))
        st = St()
        for num in SPEC:
            c = eq0(tmpl - num)
            st.conds += ((c, 0),)
            st.assume(c, 0)
        for s0, p in construct(C, an, "grid", N, st=st):
            outs = an.run("grid_values", [p], s0)
            C.equal(an, outs, Err(V("NotSupported", ANY)), "other template numbers are not supported")
        C.used(an)
    with C.part("accepted templates"):
        # whatever is accepted has one of the four template numbers, and its own definition
        an = An("roots", dict(stream.EXT))
        for s0, p in construct(C, an, "grid", N):
            for s1, v in oks(an, an.run("grid_values", [p], s0)):
                nm = an_name(an, an.it.settle(s1, v))
                for num, sp in SPEC.items():
                    if sp[0] == nm:
                        require(C, an, s1, eq0(tmpl - num), f"{nm} is chosen for template number {num} only", "template number")
        C.used(an)
