"""The n-bit reader: consecutive fields, most significant bit first, for every width 1..32 and bit offset 0..7."""
from common import *

NEXT = r"NBitwiseIterator<.*Iterator>::next$"


def seqname(an, st, v):
    """(name, length, offset) of the octets behind the iterator's data"""
    v = an.it.settle(st, v)
    for _ in range(6):
        if isinstance(v, Ptr):
            m = v.meta
            x = an.it.settle(st, an.it.load(st, (v.cell, v.path)))
            if isinstance(x, SArr):
                return x
            v = x
        elif isinstance(v, Agg) and v.name in ("vec", "box"):
            v = an.it.settle(st, v.fields[0])
        elif isinstance(v, SArr):
            return v
        else:
            return None
    return v if isinstance(v, SArr) else None


def field(arr, bitpos, n):
    return bits_of(arr.name, arr.off + bitpos[0], bitpos[1], n)


def step(C, an, k, a, s, arr, pos, o, n, what):
    """one call at octet pos, bit o; [(state, new bit position or None)]"""
    end = o + n
    need = pos + (end + 7) // 8      # octets the field reaches into
    res = []
    for s1, x in an.run_key(k, [a], s):
        for s2, y in an.it.settle_all(s1, x):
            nm = an_name(an, y)
            if nm == "None":
                # fewer than n bits are left
                require(C, an, s2, ONE - le0(need - arr.len), f"{what}: ends when fewer than n bits remain", "the iteration ends early", key="n-bit reader: end")
                res.append((s2, None))
                continue
            require(C, an, s2, le0(need - arr.len), f"{what}: no value beyond the data", "a value is yielded from missing bits", key="n-bit reader: beyond the end")
            C.record(C.cmp(an, s2, y.fields[0], bits_of(arr.name, arr.off + pos, o, n)), f"{what}: the next n bits", key="n-bit reader: value")
            res.append((s2, (end // 8, end % 8)))
    return res


def run(C):
    an = C.an = An("roots", dict(stream.EXT))
    keys = an.find(NEXT)
    if not keys:
        C.und("n-bit reader", "no function matches")
    for k in keys:
        inst = k.rsplit("<", 1)[-1][:40]
        with C.part(f"transition {inst}"):
            st0 = St()
            a = an.fresh_key_args(st0, k)[0]
            v = an.it.settle(st0, an.it.load(st0, (a.cell, a.path)))
            ad = an.d["adts"].get(v.name)
            fs = [f[0] for f in ad["variants"][0]["fields"]]
            if not {"data", "size", "pos", "offset"} <= set(fs):
                C.und("transition of the n-bit reader", f"fields {fs}")
                continue
            arr = seqname(an, st0, v.fields[fs.index("data")])
            if arr is None:
                C.und("transition of the n-bit reader", "data not recognised")
                continue
            pos = P(an.it.as_int(st0, v.fields[fs.index("pos")]))
            if not (st0.add_le0(-pos) and st0.add_le0(pos - arr.len)):
                continue
            st0.add_le0(arr.len - (1 << 40))
            for n in range(1, 33):
                for o in range(8):
                    s = st0.copy()
                    f = list(v.fields)
                    f[fs.index("size")], f[fs.index("offset")] = P(n), P(o)
                    s.mem[a.cell] = Agg(v.name, v.variant, f, v.ty)
                    # the state between items: the position is inside the data, or at its end with no bits consumed
                    if o and not s.add_le0(pos + 1 - arr.len):
                        continue
                    for s1, nxt in step(C, an, k, a, s, arr, pos, o, n, f"{n} bits at bit {o}"):
                        if nxt is None:
                            continue
                        w = C.settle(an, s1, an.it.load(s1, (a.cell, a.path)))
                        C.record(C.cmp(an, s1, w.fields[fs.index("pos")], pos + nxt[0]), f"{n} bits at bit {o}: octet position", key="n-bit reader: position")
                        C.record(C.cmp(an, s1, w.fields[fs.index("offset")], P(nxt[1])), f"{n} bits at bit {o}: bit position", key="n-bit reader: position")
                        C.record(C.cmp(an, s1, w.fields[fs.index("size")], P(n)), f"{n} bits at bit {o}: width kept", key="n-bit reader: width")
                        if C.cmp(an, s1, w.fields[fs.index("data")], v.fields[fs.index("data")]) != "eq" and seqname(an, s1, w.fields[fs.index("data")]) != arr:
                            C.und("n-bit reader: data kept", "data changed")
        with C.part(f"from the start {inst}"):
            # independent of how the state is kept: the first nine items from the constructor
            new = [x for x in an.find(r"NBitwiseIterator(<.*>)?::new$") if x.rsplit("::new", 1)[-1].replace("<", "").replace(">", "") == k.rsplit("::next", 1)[-1].replace("<", "").replace(">", "")]
            wo = [x for x in an.find(r"NBitwiseIterator(<.*>)?::with_offset$") if x.rsplit("::with_offset", 1)[-1] == k.rsplit("::next", 1)[-1]]
            if not new:
                C.und("n-bit reader from the start", "constructor not found")
                continue
            for n in range(1, 33):
                for o in (range(8) if wo else (0,)):
                    st = St()
                    args = an.fresh_key_args(st, new[0])
                    arr = seqname(an, st, args[0])
                    st.add_le0(arr.len - (1 << 40))
                    for s, it in an.run_key(new[0], [args[0], P(n)], st):
                        if o:
                            r = an.run_key(wo[0], [it, P(o)], s)
                            if len(r) != 1:
                                continue
                            s, it = r[0]
                        a = put(an, s, it)
                        work, pos = [(s, (0, o))], None
                        for i in range(3 if TIER == "quick" else 9):
                            nxt = []
                            for s1, (p, b) in work:
                                if i == 0 and o and not s1.add_le0(1 - arr.len):
                                    continue
                                for s2, q in step(C, an, k, a, s1, arr, P(p), b, n, f"{n} bits, item {i} from bit {o}"):
                                    if q is not None:
                                        nxt.append((s2, (p + q[0], q[1])))
                            work = nxt
    C.no_panic(an, "n-bit reader")
    C.used(an)
    zero_width(C)


def zero_width(C):
    with C.part("zero width"):
        an = C.an = An("roots", dict(stream.EXT))
        new = an.find(r"stream::BitStream(<.*>)?::new$")
        nxt = an.find(r"BitStream<.*Iterator>::next$")
        if not new or not nxt:
            C.und("zero width", "bit stream not found")
            return
        st = St()
        args = an.fresh_key_args(st, new[0])
        L = P(an.it.as_int(st, args[2]))
        n = 0
        for s, it in an.run_key(new[0], [args[0], ZERO, args[2]], st):
            a = put(an, s, it)
            work = [s]
            for i in range(4):
                w2 = []
                for s1 in work:
                    for s2, x in an.run_key(nxt[0], [a], s1):
                        for s3, y in an.it.settle_all(s2, x):
                            if an_name(an, y) == "None":
                                require(C, an, s3, le0(L - i), "zero width: ends after the stated count", "the iteration ends early", key="zero width: count")
                                continue
                            n += 1
                            require(C, an, s3, le0(P(i + 1) - L), "zero width: ends after the stated count", "more values than stated", key="zero width: count")
                            C.record(C.cmp(an, s3, y.fields[0], ZERO), "zero width yields zeros", key="zero width: value")
                            w2.append(s3)
                work = w2
        if not n:
            C.und("zero width", "no value")
        C.no_panic(an, "zero width")
        C.used(an)
    with C.part("constant iterator"):
        an = C.an = An("roots", dict(stream.EXT))
        for k in an.find(r"FixedValueIterator<.*Iterator>::next$"):
            st = St()
            a = an.fresh_key_args(st, k)[0]
            v = an.it.settle(st, an.it.load(st, (a.cell, a.path)))
            L = C.fld(an, v, "length")
            if L is None:
                C.und("constant iterator", "no length")
                continue
            L = P(an.it.as_int(st, L))
            for s1, x in an.run_key(k, [a], st):
                for s2, y in an.it.settle_all(s1, x):
                    w = C.settle(an, s2, an.it.load(s2, (a.cell, a.path)))
                    if an_name(an, y) == "None":
                        require(C, an, s2, le0(L), "constant iterator: ends at its count", "the iteration ends early", key="constant iterator: count")
                        C.record(C.cmp(an, s2, C.fld(an, w, "length"), L), "constant iterator: stays ended", key="constant iterator: count")
                    else:
                        require(C, an, s2, le0(1 - L), "constant iterator: ends at its count", "more values than stated", key="constant iterator: count")
                        C.record(C.cmp(an, s2, C.fld(an, w, "length"), L - 1), "constant iterator: counts down", key="constant iterator: count")
                        C.record(C.cmp(an, s2, y.fields[0], C.fld(an, v, "val")), "constant iterator: value", key="constant iterator: value")
        C.no_panic(an, "constant iterator")
        C.used(an)
    with C.part("bit stream"):
        an = C.an = An("roots", dict(stream.EXT))
        new = an.find(r"stream::BitStream(<.*>)?::new$")
        nxt = an.find(r"BitStream<.*Iterator>::next$")
        for n in range(1, 33):
            st = St()
            args = an.fresh_key_args(st, new[0])
            arr = seqname(an, st, args[0])
            st.add_le0(arr.len - (1 << 40))
            for s, it in an.run_key(new[0], [args[0], P(n), args[2]], st):
                a = put(an, s, it)
                for s1, q in step(C, an, nxt[0], a, s, arr, ZERO, 0, n, f"bit stream of {n} bits"):
                    if q is not None:
                        for _ in step(C, an, nxt[0], a, s1, arr, P(q[0]), q[1], n, f"bit stream of {n} bits, second item"):
                            pass
        C.no_panic(an, "bit stream")
        C.used(an)
