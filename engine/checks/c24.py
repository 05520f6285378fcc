"""Flag interpretation: scanning mode and projection centre; unsupported flags are refused for every grid template."""
from common import *


def run(C):
    with C.part("scanning mode"):
        an = C.an = An("roots", dict(stream.EXT))
        st = St()
        p = an.fresh_args(st, "scan_flags")[0]
        m = C.settle(an, st, C.fld(an, an.it.load(st, (p.cell, p.path)), "0"))
        m = P(an.it.as_int(st, m))
        k, = [k for k in m.m]
        b = lambda n: bits(A(k[0]), 8 - n, 1)
        C.equal(an, an.run("scan_flags", [p], st), Tup(ONE - b(1), b(2), ONE - b(3), b(4)), "scanning mode bits")
        C.no_panic(an, "scanning mode bits")
        C.used(an)
    with C.part("projection centre"):
        an = C.an = An("roots", dict(stream.EXT))
        st = St()
        p = an.fresh_args(st, "proj_flags")[0]
        m = P(an.it.as_int(st, C.settle(an, st, C.fld(an, an.it.load(st, (p.cell, p.path)), "0"))))
        k, = [k for k in m.m]
        b = lambda n: bits(A(k[0]), 8 - n, 1)
        C.equal(an, an.run("proj_flags", [p], st), Tup(ONE - b(1), b(2)), "projection centre bits")
        C.used(an)
    with C.part("grids"):
        an = C.an = An("roots", dict(stream.EXT))
        st0 = St()
        p = an.fresh_args(st0, "grid_ij")[0]
        v = an.it.load(st0, (p.cell, p.path))
        ad = an.d["adts"][next(k for k in an.d["adts"] if k.endswith("GridDefinitionTemplateValues"))]
        for vi, var in enumerate(ad["variants"]):
            for root, what in (("grid_ij", "indices"), ("grid_latlons", "coordinates")):
                st = st0.copy()
                g = an.it.as_variant(st, v, vi)
                st.mem[p.cell] = g
                d = C.settle(an, st, g.fields[0])
                sm = C.settle(an, st, C.fld(an, d, "scanning_mode"))
                m = P(an.it.as_int(st, C.settle(an, st, sm.fields[0] if isinstance(sm, Agg) else sm)))
                k, = [k for k in m.m]
                low = bits(A(k[0]), 0, 4)
                name = f"{what} of {var['name']} with unsupported scanning mode bits"
                s = st.copy()
                if s.assume(eq0(low), 0):
                    s.conds += ((eq0(low), 0),)
                    outs = an.run(root, [p], s)
                    C.equal(an, outs, Err(ANY), name, key=name)
                    if root == "grid_ij":
                        C.equal(an, outs, Err(V("NotSupported", ANY)), name + " are reported as not supported", key=name)
                        s = st.copy()
                        if s.assume(eq0(low), 1):
                            s.conds += ((eq0(low), 1),)
                            C.equal(an, an.run(root, [p], s), Ok(ANY), f"{what} of {var['name']} with supported scanning mode bits", key=name)
        C.used(an)
    with C.part("projection centre flags"):
        an = C.an = An("roots", dict(stream.EXT))
        st0 = St()
        p = an.fresh_args(st0, "grid_latlons")[0]
        v = an.it.load(st0, (p.cell, p.path))
        ad = an.d["adts"][next(k for k in an.d["adts"] if k.endswith("GridDefinitionTemplateValues"))]
        n = 0
        for vi, var in enumerate(ad["variants"]):
            st = st0.copy()
            g = an.it.as_variant(st, v, vi)
            st.mem[p.cell] = g
            d = C.settle(an, st, g.fields[0])
            pc = C.fld(an, d, "projection_centre")
            if pc is None:
                continue
            n += 1
            pc = C.settle(an, st, pc)
            m = P(an.it.as_int(st, C.settle(an, st, pc.fields[0] if isinstance(pc, Agg) else pc)))
            k, = [k for k in m.m]
            rest = bits(A(k[0]), 0, 6)
            name = f"coordinates of {var['name']} with unsupported projection centre flags"
            if st.assume(eq0(rest), 0):
                st.conds += ((eq0(rest), 0),)
                C.equal(an, an.run("grid_latlons", [p], st), Err(V("NotSupported", ANY)), name, key=name)
        if not n:
            C.und("projection centre flags", "no grid template carries them")
        C.used(an)
