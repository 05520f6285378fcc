"""Decoding never panics: panic obligations of the decoders over sections of any length and content."""
from common import *
import c15

NEXT = r"Grib2DecodedValues<.*Iterator>::next$"
M = 2**32 - 1


def decoders(C, an, t, fixes=(), five=None, seven=None, indicator=255):
    """[(state, pointer to the decoder)]: octets of Sections 5 to 7 as given, payload lengths as given or any"""
    r = []
    for st, sub in submessage(C, an, indicator=indicator):
        ok = fix(st, sect_octet(sub, 5, 10, 2), t) and st.add_le0(6 - sub.size[6]) and st.add_le0(11 - sub.size[5])  # as read
        if five is not None:
            ok = ok and fix(st, sub.size[5], five + 5)
        if seven is not None:
            ok = ok and fix(st, sub.size[7], seven + 5)
        for n, o, w, v in fixes:
            ok = ok and fix(st, sect_octet(sub, n, o, w), v)
        if ok:
            for s, d in oks(an, an.run("decoder", [sub.arg], st)):
                r.append((s, put(an, s, d)))
    return r


def values(C, an, st, d, n):
    """ask for n values; the number of outcomes"""
    key = an.find(NEXT, None)
    cnt = 0
    for s, x in an.run("dispatch", [d], st):
        cnt += 1
        for s1, y in oks(an, [(s, x)]):
            it = put(an, s1, y)
            sts = [s1]
            for k in range(n):
                sts = [s3 for s2 in sts for s3, _ in an.run_key(key[0], [it], s2)]
            cnt += len(sts)
    return cnt


def signed(kind, o):
    """overflow of a 32-bit signed sum, difference or product of packed integers"""
    if kind == "overflow" and o.get("types") == {(32, True)}:
        return "packed integers beyond 32 bits"


def session(C, name, t, fixes=(), n=0, **kw):
    with C.part(name):
        an = C.an = An("roots", dict(stream.EXT))
        cnt = sum(values(C, an, st, d, n) for st, d in decoders(C, an, t, fixes, **kw))
        C.no_panic(an, name, skip=("read_image_buffer: vector larger",), classes=signed if t in (2, 3) else None)
        if not cnt:
            C.und(name, "no outcome")
        C.used(an)


CPLX = [
    (8, 0, 0, 8, 0, 1, 1, 1, 0),
    (8, 0, 1, 8, 0, 1, 1, 1, 0),
    (8, 1, 2, 8, 0, 1, 1, 1, 0),
    (0, 2, 2, 8, 0, 1, 1, 1, 0),
    (8, 1, 2, 0, 0, 1, 1, 1, 0),
    (31, 2, 2, 0, 0, 1, 1, 1, 0),
    (32, 2, 2, 0, 0, 1, 1, 1, 0),
    (255, 2, 2, 0, 0, 1, 1, 1, 0),
    (8, 2, 2, 31, 0, 1, 1, 1, 0),
    (8, 2, 2, 32, 0, 1, 1, 1, 0),
    (8, 2, 2, 33, 0, 1, 1, 1, 0),
    (8, 2, 2, 255, 0, 1, 1, 1, 0),
    (8, 0, M, 255, 255, M, 255, M, 255),
    (8, 0, 2, 255, 1, M, 255, M, 1),
    (8, 0, 2, 0, 0, M, 255, M, 0),
]


def run(C):
    for t in (0, 2, 3, 41, 40, 1, 65535):
        session(C, f"template 5.{t}: sections of any length and content", t)
    for nbit in (0, 1, 8, 16, 17, 255):
        session(C, f"template 5.200: sections of any length, {nbit} bits", 200, [(5, 12, 1, nbit)])
    for nbit in (0, 1, 7, 8, 9, 16, 24, 31, 32, 33, 255):
        session(C, f"template 5.0: values of {nbit} bits", 0, [(5, 20, 1, nbit)], 3)
    for t in (0,):
        session(C, f"template 5.{t}: bitmap of any length", t, [(5, 20, 1, 8)], 3, indicator=0)
    for nbit, mvm, ngroup, wref, wn, lref, linc, last, ln_ in CPLX:
        f = c15.cplx(nbit, mvm, ngroup, wref, wn, lref, linc, last, ln_)
        session(C, f"template 5.2: values, {nbit} bits, missing value management {mvm}, {ngroup} groups, width {wref} and {wn} bits, length {lref}, {linc}, {last} and {ln_} bits", 2, f, 3)
    for order, octs in ((1, 1), (2, 2), (1, 4), (2, 4), (0, 1), (3, 1), (1, 0), (2, 5), (255, 255)):
        for nbit, mvm, ngroup, wref, last in ((8, 0, 1, 8, 4), (8, 1, 2, 8, 1), (8, 2, 1, 0, 4)):
            f = c15.cplx(nbit, mvm, ngroup, wref, 0, 1, 1, last, 0) + [(5, 48, 1, order), (5, 49, 1, octs)]
            session(C, f"template 5.3: values, order {order}, {octs} octets, missing value management {mvm}, {ngroup} groups of width {wref}", 3, f, 3)
    for nbit, maxv, L, no in ((8, 2, 2, 1), (8, 2, 2, 2), (8, 5, 2, 1), (8, 5, 2, 2), (4, 9, 3, 1), (16, 300, 2, 2), (8, 0, 1, 2), (8, 255, 1, 1), (3, 1, 2, 1), (1, 1, 1, 1), (32, 2, 2, 4)):
        f = [(3, 7, 4, 1), (5, 12, 1, nbit), (5, 13, 2, maxv), (5, 15, 2, L)]
        session(C, f"template 5.200: values, {nbit} bits, levels up to {maxv}, {L} listed, {no} octets", 200, f, 2, seven=no)
