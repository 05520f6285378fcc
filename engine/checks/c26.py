"""Indices and coordinates are handed out only when the point counts agree."""
from common import *

# octets of Section 3: Ni, Nj and scanning mode
SHAPE = {0: (31, 35, 72), 20: (31, 35, 65), 30: (31, 35, 65), 40: (31, 35, 72)}


def text_args(an, st, e):
    """the values a formatted message shows"""
    e = an.it.settle(st, e)
    r = []

    def walk(x, d=0):
        if d > 8:
            return
        if isinstance(x, Opq):
            if x.tag == "arg" and len(x.args) > 1:
                r.append(x.args[1])
                return
            for y in x.args:
                walk(y, d + 1)
        elif isinstance(x, (tuple, list)):
            for y in x:
                walk(y, d + 1)
        elif isinstance(x, Agg):
            for y in x.fields:
                walk(y, d + 1)
        elif isinstance(x, VArr):
            for y in x.el:
                walk(y, d + 1)
    walk(e)
    return r


def mismatch(C, np, what):
    def f(_, st, got):
        an = C.an
        xs = [P(an.it.as_int(st, x)) for x in text_args(an, st, got) if isinstance(x, (Poly, Ite))]
        if not any(C.feq(st, x, np) for x in xs):
            return ("unk", f"{what}: message shows {xs!r:.200}")
        return "eq"
    return Pred(f, "the two numbers")


def run(C):
    for t in (0, 20, 30, 40):
        for root, what in (("sm_ij", "indices"), ("sm_latlons", "coordinates")):
            name = f"{what} of template 3.{t}"
            with C.part(name):
                an = C.an = An("roots", dict(stream.EXT))
                n = 0
                for st, sub in submessage(C, an, root=root):
                    np = sect_octet(sub, 3, 7, 4)
                    a, b, m = SHAPE[t]
                    ni, nj = sect_octet(sub, 3, a, 4), sect_octet(sub, 3, b, 4)
                    mode = sect_octet(sub, 3, m)
                    if not fix(st, sect_octet(sub, 3, 13, 2), t) or not (fix(st, sub.size[3], 72) if t in (0, 40) else st.add_le0(90 - sub.size[3])):
                        continue
                    low = bits(A([k for k in mode.m][0][0]), 0, 4)
                    if root == "sm_latlons":
                        # the accepted shapes and signs are irrelevant here: one of each
                        fix(st, mode, 0x40)
                        if t in (20, 30):
                            fix(st, sect_octet(sub, 3, 15), 6)
                            fix(st, sect_octet(sub, 3, 56, 4), 1000)
                            fix(st, sect_octet(sub, 3, 60, 4), 1000)
                            fix(st, sect_octet(sub, 3, 64), 0)
                        if t == 40:
                            fix(st, nj, 4)
                    for s, x in an.run(root, [sub.arg], st):
                        for s1, y in an.it.settle_all(s, x):
                            nm = an_name(an, y)
                            v = an.it.settle(s1, y.fields[0])
                            if nm == "Ok":
                                n += 1
                                if root == "sm_ij":
                                    require(C, an, s1, eq0(np - ni * nj), f"{name} only if the counts agree", "points of the section against Ni * Nj", key=f"{name}: counts")
                                p = put(an, s1, v)
                                C.equal(an, an.run("ij_hint" if root == "sm_ij" else "ll_hint", [p], s1.copy()), Tup(np, Some(np)), f"{name}: number of items announced", key=f"{name}: counts")
                                continue
                            en = an_name(an, v)
                            if en == "InvalidValueError" and len(text_args(an, s1, v)) >= 1:
                                C.record(C.cmp(an, s1, v, V("InvalidValueError", mismatch(C, np, name))), f"{name}: the mismatch is described", key=f"{name}: mismatch")
                                if root == "sm_ij":
                                    require(C, an, s1, ONE - eq0(np - ni * nj), f"{name} are refused only if the counts differ", "refused", key=f"{name}: refused")
                            elif root == "sm_ij":
                                require(C, an, s1, ONE - eq0(low), f"{name}: other errors are the grid's own", f"{en} reported", key=f"{name}: other errors")
                if not n:
                    C.und(name, "never handed out")
                C.used(an)
    # the grid definition's own errors come through unchanged
    for root, own, what in (("sm_ij", "grid_ij", "indices"), ("sm_latlons", "grid_latlons", "coordinates")):
        for t in (0, 20, 30, 40, None):
            name = f"errors of template 3.{t if t is not None else 'other'} for {what}"
            with C.part(name):
                an = C.an = An("roots", dict(stream.EXT))
                n = 0
                for st, sub in submessage(C, an, root=root):
                    tm = sect_octet(sub, 3, 13, 2)
                    good = True
                    if t is None:
                        for u in (0, 20, 30, 40):
                            good = good and st.assume(eq0(tm - u), 0)
                            st.conds += ((eq0(tm - u), 0),)
                    else:
                        good = fix(st, tm, t) and (fix(st, sub.size[3], 72) if t in (0, 40) else st.add_le0(90 - sub.size[3]))
                        mode = sect_octet(sub, 3, SHAPE[t][2])
                        good = good and fix(st, mode, 0x41)
                        if t in (20, 30):
                            fix(st, sect_octet(sub, 3, 15), 6)
                            fix(st, sect_octet(sub, 3, 56, 4), 1000)
                            fix(st, sect_octet(sub, 3, 60, 4), 1000)
                            fix(st, sect_octet(sub, 3, 64), 0)
                    if not good:
                        continue
                    arr = SArr("file", sub.size[3] - 5, an.it.find_ty("u8"), sub.off[3] + 5)
                    for s, gp in [(s, put(an, s, x)) for s, x in oks(an, an.run("grid", [Agg("box", "sl", [arr])], st))]:
                        for s1, r in an.run("grid_values", [gp], s):
                            for s2, y in an.it.settle_all(s1, r):
                                if an_name(an, y) == "Err":
                                    errs = [(s2, y.fields[0])]
                                else:
                                    errs = [(s4, z.fields[0]) for s3, q in an.run(own, [put(an, s2, y.fields[0])], s2) for s4, z in an.it.settle_all(s3, q) if an_name(an, z) == "Err"]
                                for s5, e in errs:
                                    n += 1
                                    e = an.it.settle(s5, e)
                                    C.equal(an, an.run(root, [sub.arg], s5), Err(same(C, e)), name, key=name)
                if not n:
                    C.und(name, "no error of its own")
                C.used(an)


def same(C, e):
    def f(_, st, got):
        an = C.an
        got = an.it.settle(st, got)
        if repr(got) == repr(e):
            return "eq"
        if isinstance(got, Agg) and isinstance(e, Agg) and got.variant != e.variant:
            return C.reach(an, st, f"{an_name(an, got)} instead of {an_name(an, e)}")
        return ("unk", f"{got!r:.100} instead of {e!r:.100}")
    return Pred(f, f"{e!r:.80}")
