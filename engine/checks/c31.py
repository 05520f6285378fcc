"""Parameters are composed of their own fields, and compared by discipline * 65536 + category * 256 + number."""
from common import *
from checks.c11 import SUPPORTED


def run(C):
    an = C.an = An("roots", dict(stream.EXT))
    with C.part("parameter of a submessage"):
        n = 0
        for st, sub in submessage(C, an, root="sm_parameter"):
            st.add_le0(30 - sub.size[4])
            tm = sect_octet(sub, 4, 8, 2)
            want = Some(Fields(discipline=sect_octet(sub, 0, 7), centre=sect_octet(sub, 1, 6, 2), master_ver=sect_octet(sub, 1, 10), local_ver=sect_octet(sub, 1, 11),
                               category=sect_octet(sub, 4, 10), num=sect_octet(sub, 4, 11)))
            for s, v in an.run("sm_parameter", [sub.arg], st):
                for s1, y in an.it.settle_all(s, v):
                    n += 1
                    if an_name(an, y) == "None":
                        for t in SUPPORTED:
                            s2 = s1.copy()
                            if fix(s2, tm, t):
                                C.record(C.reach(an, s2, f"none for template 4.{t}"), "a parameter for every supported template", key="parameter: none")
                    else:
                        C.record(C.cmp(an, s1, y, want), "parameter of a submessage", key="parameter: fields")
        if n < 2:
            C.und("parameter of a submessage", "outcomes missing")
        C.used(an)
    with C.part("matching external codes"):
        an = C.an = An("roots")
        ad = next(a for k, a in an.d["adts"].items() if k.endswith("::NCEP"))
        for var in ad["variants"]:
            st = St()
            a = an.fresh_args(st, "param_identical")
            v = an.it.settle(st, an.it.load(st, (a[0].cell, a[0].path)))
            d, c, m = (C.fld(an, v, x) for x in ("discipline", "category", "num"))
            val = P(d) * 65536 + P(c) * 256 + P(m)
            fix(st, a[1].discr, var["discr"])
            C.equal(an, an.run("param_identical", a, st), eq0(val - var["discr"]), f"identity with {var['name']}", key="identity with an external code")
        st = St()
        a = an.fresh_args(st, "ncep_try")
        v = an.it.settle(st, an.it.load(st, (a[0].cell, a[0].path)))
        d, c, m = (C.fld(an, v, x) for x in ("discipline", "category", "num"))
        val = P(d) * 65536 + P(c) * 256 + P(m)
        cs = [(eq0(val - x["discr"]), Some(V(x["name"]))) for x in ad["variants"]]
        cs.append(([ONE - eq0(val - x["discr"]) for x in ad["variants"]], NONE))
        C.cases(an, an.run("ncep_try", a, st), cs, "conversion to an external code", key="conversion to an external code")
        # the names themselves
        for nm, k in (("PRES", 0x300), ("PRMSL", 0x301), ("HGT", 0x305)):
            x = [y for y in ad["variants"] if y["name"] == nm]
            if x and x[0]["discr"] != k:
                C.bad(f"value of {nm}", f"{x[0]['discr']:#x} instead of {k:#x}", "src/codetables/external.rs", key=f"value of {nm}")
            elif x:
                C.ok(f"value of {nm}")
        C.used(an)
    with C.part("generated values"):
        an = C.an = An("codegen")
        n = 0
        for f in an.d["fns"]:
            b = an.d["bodies"].get(f["key"])
            if not b or "b" not in b or b["b"]["argc"] != 1:
                continue
            r = an.it.T(b["b"]["locals"][0][0])
            t = an.it.T(b["b"]["locals"][1][0])
            if r.get("k") not in ("uint", "prim", "int") and r.get("n") != "u32":
                continue
            st = St()
            a = an.fresh_args(st, f["path"])
            if not isinstance(a[0], Ptr):
                continue
            v = an.it.settle(st, an.it.load(st, (a[0].cell, a[0].path)))
            if not isinstance(v, Agg) or not v.name.endswith("Wgrib2TableEntry"):
                continue
            d, c, m = (C.fld(an, v, x) for x in ("discipline", "param_category", "param_number"))
            if d is None or c is None or m is None:
                continue
            n += 1
            C.equal(an, an.run(f["path"], a, st), P(d) * 65536 + P(c) * 256 + P(m), "value of a generated code", key="value of a generated code")
            C.no_panic(an, "value of a generated code")
        if not n:
            C.und("generated values", "the function computing a code's value was not found")
        C.used(an)
