"""Decoders use their own submessage's sections; dispatch on bit-map indicator and data representation template."""
from common import *

TEMPLATES = {0: "simple packing", 2: "complex packing", 3: "complex packing with spatial differencing", 40: "JPEG 2000", 41: "PNG", 200: "run length"}


def bits_set(n):
    """bit map of which the first n bits are one"""
    def f(C, st, got):
        an = C.an
        g = C.settle(an, st, got)
        while isinstance(g, Agg) and g.name in ("vec", "box", "sl"):
            g = C.settle(an, st, g.fields[0])
        if not isinstance(g, ARR):
            return ("unk", f"bit map {g!r:.80}")
        rs = []
        # long enough
        s = st.copy()
        dif = canon(s.norm(n - g.len * 8))
        if s.decide(le0(dif)) is not True and not s.prove_le0(dif):
            for env in assignments(s, C.rng, 30, [(le0(n - g.len * 8), 0)], types=an.d["types"]):
                return ("ne", f"bit map of {g.len!r} octets for {n!r} points; e.g. {witness(env, (n, g.len), s)}")
            rs.append(("unk", "bit map length"))
        an.it.nsym += 1
        i = P(atom("sym", f"i@{an.it.nsym}", lo=0, hi=1 << 60))
        for k in range(1, 9):
            s = st.copy()
            if k == 8:
                if not s.add_le0(i * 8 + 8 - n):
                    continue
            elif not fix(s, n - i * 8, k):
                continue
            if not s.add_le0(i + 1 - g.len):
                continue
            try:
                e = s.norm(an.it.as_int(s, an.it.arr_get(s, g, i)))
            except (Undecided, Fork, PathDead) as x:
                rs.append(("unk", f"bit map element: {x}"))
                continue
            if e.const is None:
                rs.append(("unk", f"bit map element {e!r}"))
            elif e.const >> (8 - k) != (1 << k) - 1:
                rs.append(C.reach(an, s, f"octet of the bit map is {e.const:#010b}"))
        return C.allof(rs)
    return Pred(f, f"{n!r} ones")


def errs(C, an, outs):
    r = []
    for st, v in outs:
        for s, x in an.it.settle_all(st, v):
            if an_name(an, x) == "Err":
                r.append((s, x.fields[0]))
    return r


def passed_on(C, an, st, e):
    """an I/O error of the reader, unchanged"""
    return "ioerror" in repr(e)


def run(C):
    with C.part("decoder"):
        an = C.an = An("roots", dict(stream.EXT))
        n_ok = 0
        for st, sub in submessage(C, an):
            ind = sect_octet(sub, 6, 6)
            outs = an.run("decoder", [sub.arg], st)
            for s, x in outs:
                for s1, y in an.it.settle_all(s, x):
                    nm = an_name(an, y)
                    y = an.it.settle(s1, y.fields[0])
                    if nm == "Err":
                        en = an_name(an, y)
                        if passed_on(C, an, s1, y):
                            C.record(C.cmp(an, s1, y, V("ParseError", ANY)), "I/O errors are passed on as such", key="I/O error of a decoder")
                        else:
                            C.record(C.cmp(an, s1, y, V("DecodeError", V("BitMapIndicatorUnsupported"))), "the only other error is for the bit-map indicator", key="decoder error")
                            require(C, an, s1, ONE - eq0(ind), "indicator 0 is accepted", "bit-map indicator 0 refused", key="bit-map indicator")
                            require(C, an, s1, ONE - eq0(ind - 255), "indicator 255 is accepted", "bit-map indicator 255 refused", key="bit-map indicator")
                        continue
                    n_ok += 1
                    d = y
                    u8 = an.it.find_ty("u8")
                    file = lambda n, skip: Agg("box", "sl", [SArr("file", sub.size[n] - skip, u8, sub.off[n] + skip)])
                    np = sect_octet(sub, 3, 7, 4)
                    C.sample(f"decoder: {d!r:.300}")
                    for fld, want, what in (("num_points_total", np, "grid point count"), ("num_points_encoded", sect_octet(sub, 5, 6, 4), "data point count"),
                                            ("template_num", sect_octet(sub, 5, 10, 2), "template number"),
                                            ("sect5_payload", SArr("file", sub.size[5] - 5, u8, sub.off[5] + 5), "Section 5 payload"),
                                            ("sect7_payload", SArr("file", sub.size[7] - 5, u8, sub.off[7] + 5), "Section 7 payload")):
                        g = C.fld(an, d, fld)
                        if g is None:
                            C.und(f"decoder uses its own {what}", "no such field")
                            continue
                        C.record(C.cmp(an, s1, g, want), f"decoder uses its own {what}", key=f"decoder uses its own {what}")
                    g = C.fld(an, d, "bitmap")
                    if g is None:
                        C.und("decoder uses its own bit map", "no such field")
                        continue
                    for val, want in ((0, SArr("file", sub.size[6] - 6, u8, sub.off[6] + 6)), (255, bits_set(np))):
                        s2 = s1.copy()
                        if fix(s2, ind, val):
                            C.record(C.cmp(an, s2, g, want), f"bit map for indicator {val}", key=f"bit map for indicator {val}")
                    s2 = s1.copy()
                    ok = True
                    for val in (0, 255):
                        s2.conds += ((eq0(ind - val), 0),)
                        ok = ok and s2.assume(eq0(ind - val), 0)
                    if ok:
                        C.record(C.reach(an, s2, "a decoder is built for another bit-map indicator"), "other indicators are refused", key="other bit-map indicators are refused")
                    else:
                        C.ok("other indicators are refused")
        if not n_ok:
            C.bad("decoder", "no decoder is ever built")
        C.used(an)
    tm_called = {}
    for t in list(TEMPLATES) + [None]:
        what = f"template 5.{t}" if t is not None else "other templates"
        with C.part(what):
            an = C.an = An("roots", dict(stream.EXT))
            for st, sub in submessage(C, an, indicator=255):
                tm = sect_octet(sub, 5, 10, 2)
                good = True
                if t is None:
                    for u in TEMPLATES:
                        st.conds += ((eq0(tm - u), 0),)
                        good = good and st.assume(eq0(tm - u), 0)
                else:
                    good = fix(st, tm, t)
                    # lengths as the templates have them; shapes that only matter later are fixed to keep the run small
                    st.add_le0(60 - sub.size[5])
                if not good:
                    continue
                n = 0
                for s, d in oks(an, an.run("decoder", [sub.arg], st)):
                    p = put(an, s, d)
                    if t in (2, 3):
                        fix(s, sect_octet(sub, 5, 32, 4), 2)
                        fix(s, sect_octet(sub, 5, 20), 8)
                        fix(s, sect_octet(sub, 5, 37), 4)
                        fix(s, sect_octet(sub, 5, 47), 4)
                        fix(s, sect_octet(sub, 5, 49), 1)
                        s.add_le0(60 - sub.size[7])
                    if t == 200:
                        fix(s, sect_octet(sub, 5, 12), 8)
                        fix(s, sect_octet(sub, 5, 13, 2), 3)
                        fix(s, sect_octet(sub, 5, 15, 2), 3)
                    outs = an.run("dispatch", [p], s)
                    n += len(outs)
                    oko = oks(an, outs)
                    if t is None:
                        C.equal(an, outs, Err(V("DecodeError", V("TemplateNumberUnsupported"))), "other template numbers are unsupported")
                        continue
                    for s1, e in errs(C, an, outs):
                        e = an.it.settle(s1, e)
                        if an_name(an, e) == "DecodeError" and an_name(an, an.it.settle(s1, e.fields[0])) == "TemplateNumberUnsupported":
                            C.record(C.reach(an, s1, f"template 5.{t} is refused as unsupported"), f"template 5.{t} is decoded", key=f"template 5.{t} is decoded")
                    if oko:
                        C.ok(f"template 5.{t} is decoded")
                    else:
                        C.und(f"template 5.{t} is decoded", "no successful outcome")
                if t is not None:
                    ext = {f for f in an.it.called if "opj_decode" in f or "png::decoder" in f or "png::Decoder" in f} | {f for f in an.it.unmodelled if "opj_decode" in f or "png" in f}
                    C.sample(f"template {t} reaches {sorted(ext)[:3]}")
                    lib = {"jpeg": any("opj_decode" in f for f in ext), "png": any("png" in f for f in ext)}
                    for k, u in (("jpeg", 40), ("png", 41)):
                        if lib[k] == (t == u):
                            C.ok(f"template 5.{t} {'uses' if t == u else 'does not use'} the {k} decoder")
                        elif t == u:
                            C.bad(f"template 5.{t} is decoded by its method", f"the {k} library is not reached", key=f"template 5.{t} is decoded by its method")
                        else:
                            C.bad(f"template 5.{t} is decoded by its method", f"the {k} library is reached: {sorted(ext)[:2]}", key=f"template 5.{t} is decoded by its method")
            C.used(an)
