"""Earth radii per Code Table 3.2."""
from common import *

FIXED = {0: (6367470.0, 6367470.0), 2: (6378160.0, 6356775.0), 4: (6378137.0, 6356752.314), 5: (6378137.0, 6356752.3142),
         6: (6371229.0, 6371229.0), 8: (6371200.0, 6371200.0)}


def run(C):
    with C.part("radii"):
        an = C.an = An("roots", dict(stream.EXT))
        st0 = St()
        p = an.fresh_args(st0, "earth_radii")[0]
        obj = an.it.load(st0, (p.cell, p.path))
        g = lambda f: P(an.it.as_int(st0, C.fld(an, obj, f)))
        shape = g("shape_of_the_earth")

        def scaled(f, v):
            return fmul(i2f(g(v)), fpow10(ZERO - smag_of(g(f))))
        r = scaled("scale_factor_of_radius_of_spherical_earth", "scaled_value_of_radius_of_spherical_earth")
        a = scaled("scale_factor_of_earth_major_axis", "scaled_value_of_earth_major_axis")
        b = scaled("scale_factor_of_earth_minor_axis", "scaled_value_of_earth_minor_axis")
        want = {k: Tup(*v) for k, v in FIXED.items()}
        want[1] = Tup(r, r)
        want[3] = Tup(fmul(a, fc(1000.0)), fmul(b, fc(1000.0)))
        want[7] = Tup(a, b)
        for k in range(9):
            st = st0.copy()
            if fix(st, shape, k):
                outs = an.run("earth_radii", [p], st)
                C.equal(an, outs, Some(want[k]), f"shape {k}", key=f"shape {k}")
        st = st0.copy()
        if st.assume(le0(9 - shape), 1):
            st.conds += ((le0(9 - shape), 1),)
            C.equal(an, an.run("earth_radii", [p], st), NONE, "shapes from 9", key="shapes from 9")
        C.no_panic(an, "radii")
        C.used(an)
