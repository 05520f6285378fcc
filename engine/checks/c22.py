"""Accessors of a readable file never panic: panic obligations of every accessor over payloads of unknown content and length."""
from common import *
from c25 import definition, SHAPE, oct_of
from c27 import LA1, LA2, LO1, LO2

# section, what is built from its payload, [(accessor, [accessors of what it returns])]
OBJECTS = [
    ("S1", "ident", [("ident_fields", []), ("ident_time", []), ("ident_iter", [])]),
    ("S2", "local_use", [("local_iter", [])]),
    ("S3", "grid", [("grid_fields", []), ("grid_iter", []), ("grid_values", ["grid_shape", "grid_name", "grid_ij"])]),
    ("S4", "prod", [("prod_fields", []), ("prod_iter", []), ("prod_category", []), ("prod_number", []), ("prod_process", []),
                    ("prod_time", ["time_describe", "time_display"]),
                    ("prod_surfaces", ["surface_value", "surface_unit", "surface_nan", "surface_describe"])]),
    ("S5", "repr", [("repr_fields", []), ("repr_iter", [])]),
]


def content(an, st, v):
    """[(state, value)] of what an accessor returned: the value, or the content of Ok / Some"""
    r = []
    for s, x in an.it.settle_all(st, v):
        nm = an_name(an, x)
        if nm in ("Ok", "Some"):
            r += content(an, s, x.fields[0])
        elif nm in ("Err", "None"):
            pass
        elif isinstance(x, Agg) and x.name == "tuple":
            for y in x.fields:
                r += content(an, s, y)
        else:
            r.append((s, x))
    return r


def objects(C):
    for sec, root, accs in OBJECTS:
        for acc, more in accs:
            with C.part(f"{root}: {acc}"):
                an = C.an = An("roots", dict(stream.EXT))
                st = St()
                outs = an.run(root, [boxed(an, st, sec)], st)
                n = 0
                for s, v in outs:
                    for s1, y in an.it.settle_all(s, v):
                        nm = an_name(an, y)
                        if nm == "Err":
                            continue
                        if nm == "Ok":
                            y = y.fields[0]
                        for s2, z in an.run(acc, [put(an, s1, y)], s1):
                            n += 1
                            if more:
                                for s3, q in content(an, s2, z):
                                    p = put(an, s3, q)
                                    for m in more:
                                        an.run(m, [p], s3.copy())
                if not n:
                    C.und(f"{root}: {acc}", "no outcome")
                C.no_panic(an, f"{root}: {acc}")
                C.used(an)


def submessages(C):
    for root in ("sm_parameter", "sm_shape", "sm_ij", "sm_latlons", "sm_defs"):
        with C.part(root):
            an = C.an = An("roots", dict(stream.EXT))
            n = 0
            sts = submessage(C, an, root=root)
            if root in ("sm_ij", "sm_latlons"):
                # the other templates' coordinates and the other scanning modes: see grids()
                modes, tmpls = ((0x00, 0x20, 0x01), (0, 20, 30, 40, 1)) if root == "sm_ij" else ((0x00, 0x40), (0,))
                sts = [(s, sub) for st, sub in sts for t in tmpls for m in modes for s in [st.copy()]
                       if fix(s, sect_octet(sub, 3, 13, 2), t) and fix(s, sect_octet(sub, 3, SHAPE.get(t, SHAPE[0])[2]), m)]
            for st, sub in sts:
                for s, v in an.run(root, [sub.arg], st):
                    n += 1
                    if root == "sm_parameter":
                        for s1, x in oks(an, [(s, v)]):
                            p = put(an, s1, x)
                            an.run("param_describe", [p], s1.copy())
                            an.run("ncep_try", [p], s1.copy())
            if not n:
                C.und(root, "no outcome")
            C.no_panic(an, root)
            C.used(an)


# payload lengths of Section 4 around every accessor's octets (template 4.0)
LENGTHS = (4, 5, 6, 7, 12, 13, 16, 17, 18, 22, 23, 24, 28, 29)


def described(C):
    with C.part("description"):
        an = C.an = An("roots", dict(stream.EXT))
        n = 0
        for tg, tp, tr in ((0, 0, 0), (30, 8, 40), (9999, 9999, 9999)):
            for ln4 in LENGTHS:
                for c in (0, 255):
                    for st, sub in submessage(C, an, root="sm_describe"):
                        ok = fix(st, sect_octet(sub, 3, 13, 2), tg) and fix(st, sect_octet(sub, 4, 8, 2), tp) and fix(st, sect_octet(sub, 5, 10, 2), tr)
                        ok = ok and fix(st, sub.size[3], 77) and fix(st, sub.size[4], ln4 + 5) and fix(st, sub.size[5], 21) and fix(st, sect_octet(sub, 0, 7), c)
                        for o in range(10, ln4 + 6):
                            ok = ok and fix(st, sect_octet(sub, 4, o), c)
                        if ok:
                            n += len(an.run("sm_describe", [sub.arg], st))
        if not n:
            C.und("description", "no outcome")
        C.no_panic(an, "description")
        C.used(an)


def templates(C):
    with C.part("template numbers"):
        an = C.an = An("roots", dict(stream.EXT))
        n = 0
        for st, sub in submessage(C, an, root="sm_defs"):
            for k in (0, 1, 3, 4, 5, 6, 7, 8):
                for s, v in an.run("tmpl_code", [sub.value.fields[k].fields[1]], st.copy()):
                    n += 1
                    for s1, x in oks(an, [(s, v)]) if k == 3 else []:
                        an.run("tmpl_describe", [put(an, s1, x)], s1)
        if not n:
            C.und("template numbers", "no outcome")
        for root in ("tmpl_describe", "tmpl_display"):
            st = St()
            if not an.run(root, an.fresh_args(st, root), st):
                C.und(root, "no outcome")
        C.no_panic(an, "template numbers")
        C.used(an)


def grids(C):
    """coordinates and indices of grids of any size, and every step over small ones"""
    for t in (0, 40, 20, 30):
        oi, oj, om = SHAPE[t]
        with C.part(f"template 3.{t}"):
            an = C.an = An("roots", dict(stream.EXT))
            n = 0
            for mode in range(0, 256, 16):
                if t not in (0, 40):
                    continue
                for ni in range(4):
                    for nj in range(4):
                        if mode not in ((0x00, 0x70) if t == 0 else (0x40,)) and (ni, nj) not in ((2, 3), (0, 0)):
                            continue
                        for st, p in definition(C, an, St(), t):
                            if not (fix(st, oct_of(oi, 4), ni) and fix(st, oct_of(oj, 4), nj) and fix(st, oct_of(om, 1), mode)):
                                continue
                            la, lb = (1 << 20, 2 << 20) if mode & 0x40 else (2 << 20, 1 << 20)
                            fix(st, oct_of(LA1, 4), la)
                            fix(st, oct_of(LA2, 4), lb)
                            for lo in ((10 << 20, 20 << 20), (20 << 20, 10 << 20)):
                                s0 = st.copy()
                                fix(s0, oct_of(LO1, 4), lo[0])
                                fix(s0, oct_of(LO2, 4), lo[1])
                                for s, x in oks(an, an.run("grid_latlons", [p], s0)):
                                    it = put(an, s, x)
                                    sts = [s]
                                    for k in range(ni * nj + 2):
                                        sts = [s2 for s1 in sts for s2, _ in an.run("ll_hint", [it], s1)]
                                        sts = [s2 for s1 in sts for s2, _ in an.run("ll_next", [it], s1)]
                                    n += len(sts)
            for mode in (0x00, 0x40):
                for st, p in definition(C, an, St(), t):
                    if fix(st, oct_of(om, 1), mode):
                        for s, x in oks(an, an.run("grid_latlons", [p], st)):
                            it = put(an, s, x)
                            an.run("ll_hint", [it], s.copy())
                            n += len(an.run("ll_next", [it], s))
            if not n:
                C.und(f"template 3.{t}", "no coordinates")
            C.no_panic(an, f"template 3.{t}")
            C.used(an)


def run(C):
    objects(C)
    submessages(C)
    described(C)
    templates(C)
    grids(C)
