"""Values of fixed surfaces and units of forecast times."""
from common import *

UNITS = {0: ("Minute", "m"), 1: ("Hour", "h"), 2: ("Day", "D"), 3: ("Month", "M"), 4: ("Year", "Y"), 5: ("Decade", "10Y"), 6: ("Normal", "30Y"), 7: ("Century", "C"),
         10: ("ThreeHours", "3h"), 11: ("SixHours", "6h"), 12: ("TwelveHours", "12h"), 13: ("Second", "s"), 255: ("Missing", None)}
MISSING_FACTOR, MISSING_VALUE = -127, -(2 ** 31 - 1)   # all ones in sign-magnitude


def run(C):
    with C.part("surfaces"):
        an = C.an = An("roots")
        st = St()
        a = an.fresh_args(st, "surface_value")
        v = an.it.settle(st, an.it.load(st, (a[0].cell, a[0].path)))
        f, x = C.fld(an, v, "scale_factor"), C.fld(an, v, "scaled_value")
        miss = eq0(P(x) - MISSING_VALUE)
        C.cases(an, an.run("surface_value", a, st.copy()), [(miss, fc(float("nan"))), (ONE - miss, fmul(i2f(x), fpow10(-P(f))))], "value of a surface", key="value of a surface")
        C.equal(an, an.run("surface_nan", a, st.copy()), Tup(eq0(P(f) - MISSING_FACTOR), miss), "missing values of a surface", key="missing values of a surface")
        C.no_panic(an, "surfaces")
        C.used(an)
    with C.part("surface construction"):
        an = C.an = An("roots")
        st = St()
        t, f, x = an.fresh_args(st, "surface_new")
        C.equal(an, an.run("surface_new", [t, f, x], st), Fields(surface_type=t, scale_factor=f, scaled_value=x), "fields of a surface", key="fields of a surface")
        C.used(an)
    with C.part("forecast units"):
        an = C.an = An("roots")
        st = St()
        u, x = an.fresh_args(st, "time_from_numbers")
        cs = [(eq0(P(u) - k), Fields(unit=V("Name", V(n)), value=x)) for k, (n, _) in UNITS.items()]
        cs.append(([ONE - eq0(P(u) - k) for k in UNITS], Fields(unit=V("Num", P(u)), value=x)))
        C.cases(an, an.run("time_from_numbers", [u, x], st), cs, "forecast unit", key="forecast unit")
        C.no_panic(an, "forecast units")
        ad = next(a for k, a in an.d["adts"].items() if k.endswith("::Table4_4"))
        for var in ad["variants"]:
            code = var["discr"]
            if code not in UNITS:
                C.bad("forecast unit codes", f"{var['name']} is given code {code}, which Code Table 4.4 does not define", "src/codetables/grib2.rs", key="forecast unit codes")
        # the abbreviations
        st = St()
        a = an.fresh_args(st, "unit_short")
        for k, (n, s) in UNITS.items():
            st1 = st.copy()
            if not fix(st1, a[0].discr, k):
                C.und(f"abbreviation of {n}", "code not in the enumeration")
                continue
            for s1, r in an.run("unit_short", a, st1):
                for s2, y in an.it.settle_all(s1, r):
                    nm = an_name(an, y)
                    got = strof(an, s2, y.fields[0]) if nm == "Some" else None
                    if nm == "Some" and got is None:
                        C.und(f"abbreviation of {n}", f"{y!r:.80}")
                    elif got == s:
                        C.ok(f"abbreviation of {n}")
                    else:
                        C.bad(f"abbreviation of {n}", f"code {k} is shown as {got!r} instead of {s!r}", "src/codetables/grib2.rs", key="abbreviation of a unit")
        C.used(an)
    # what a time shows: its own value with its own unit
    with C.part("shown forecast time"):
        from checks.c26 import text_args
        an = C.an = An("roots")
        st = St()
        u, x = an.fresh_args(st, "time_from_numbers")
        n = 0
        for s, t in an.run("time_from_numbers", [u, x], st):
            for root in ("time_describe", "time_display"):
                for s1, r in an.run(root, [put(an, s, t)], s.copy()):
                    n += 1
        C.no_panic(an, "shown forecast time")
        C.used(an)
