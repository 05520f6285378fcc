"""Complex packing: the groups of Section 7 are located and expanded as specified, with and without missing value management."""
from common import *
import c13
import c15

NEXT = r"Grib2DecodedValues<.*Iterator>::next$"


class Cfg:
    """parameters of a field: group references stay symbolic, group widths and lengths are given"""

    def __init__(self, t, nbit, mvm, wref, wn, widths, lref, linc, lnb, lens, last, order=0, octs=1):
        self.__dict__.update(locals())
        self.ngroup = len(widths)
        self.skip = (order + 1) * octs if t == 3 else 0
        self.refs = (self.ngroup * nbit + 7) // 8
        self.wo = (self.ngroup * wn + 7) // 8
        self.lo = (self.ngroup * lnb + 7) // 8
        self.w = [wref + (x if wn else 0) for x in widths]
        self.l = [lref + linc * (x if lnb else 0) for x in lens[:-1]] + [last]
        self.total = sum(self.l)
        self.bits = sum(a * b for a, b in zip(self.w, self.l))
        self.octets = self.skip + self.refs + self.wo + self.lo + (self.bits + 7) // 8

    def name(self):
        s = f"template {self.t}, {self.nbit} bits, missing value management {self.mvm}, group widths {self.w}, lengths {self.l}"
        return s

    def fixes(self):
        f = c15.cplx(self.nbit, self.mvm, self.ngroup, self.wref, self.wn, self.lref, self.linc, self.last, self.lnb)
        if self.t == 3:
            f = f + [(5, 48, 1, self.order), (5, 49, 1, self.octs)]
        o = 6 + self.skip + self.refs
        for n, vs in ((self.wn, self.widths), (self.lnb, self.lens)):
            if n:
                no = (len(vs) * n + 7) // 8
                v = 0
                for x in vs:
                    v = v << n | x
                v <<= 8 * no - n * len(vs)
                f = f + [(7, o + i, 1, v >> 8 * (no - 1 - i) & 255) for i in range(no)]
                o += no
        return f

    def minimum(self, sub):
        """the overall minimum, sign and magnitude"""
        if self.t != 3:
            return ZERO
        return smag("file", sub.off[7] + 5 + self.order * self.octs, self.octs)

    def firsts(self, sub):
        return [smag("file", sub.off[7] + 5 + i * self.octs, self.octs) for i in range(self.order)]

    def wants(self, sub):
        """[(condition that the value is missing, packed value)]"""
        base = sub.off[7] + 5 + self.skip
        data = base + self.refs + self.wo + self.lo
        r, pos = [], 0
        for g in range(self.ngroup):
            ref = bits_of("file", base, g * self.nbit, self.nbit)
            w = self.w[g]
            for _ in range(self.l[g]):
                v = bits_of("file", data, pos, w) if w else ZERO
                pos += w
                pat, n = (v, w) if w else (ref, self.nbit)
                miss = missing(pat, n, self.mvm)
                r.append((miss, v + ref + self.minimum(sub)))
        return r


def missing(pat, n, mvm):
    c = ZERO
    if mvm:
        c = eq0(pat - ((1 << n) - 1))
    if mvm == 2:
        c = c + eq0(pat - ((1 << n) - 2))
    return c


def start(C, an, cfg, signs=()):
    r = []
    for s, sub, p in decoder_of(C, an, cfg.t, c15.HALF + cfg.fixes(), 255, cfg.octets + 3):
        if not all(fix(s, bits_of("file", sub.off[7] + 5 + i * cfg.octs, 0, 1), b) for i, b in enumerate(signs)):
            continue
        before = len(r)
        for s1, x in oks(an, an.run("dispatch", [p], s)):
            r.append((s1, sub, put(an, s1, x)))
        if len(r) == before:
            C.record(C.reach(an, s, f"a well-formed field is refused or decoding it panics ({cfg.name()})"), "well-formed fields are decoded", key=f"template {cfg.t}: well-formed fields are decoded")
    return r


def step(C, an, nx, work, v):
    r = []
    for s in work:
        outs = [(s3, y) for s2, x in an.run_key(nx, [v], s) for s3, y in an.it.settle_all(s2, x)]
        if not outs:
            C.record(C.reach(an, s, "asking for the next value panics"), "every value is decoded", key="asking for the next value panics")
        r += outs
    return r


def thin(C, sts, n=6):
    return sts if len(sts) <= n else C.rng.sample(sts, n)


def one(C, an, s, sub, y, miss, x, what, key):
    """the outcome is the expected value: missing exactly when stated"""
    for cs, g, s1 in c13.leaves(C, an, s, y):
        if nan_term(g):
            require(C, an, s1, miss, f"{what}: missing only where the pattern says so", "a value is missing", key=f"{key}: missing values")
        else:
            if miss != ZERO:
                require(C, an, s1, ONE - miss, f"{what}: the missing patterns are missing", "a value is not missing", key=f"{key}: missing values")
            C.record(C.cmp(an, s1, g, unpacked(sub, x)), f"{what}: value", key=f"{key}: values of the groups")


def sequence(C, an, nx, cfg):
    n = 0
    key = f"template {cfg.t}"
    for s, sub, v in start(C, an, cfg):
        n += 1
        work = [s]
        for i, (miss, x) in enumerate(cfg.wants(sub)):
            outs = step(C, an, nx, work, v)
            work = []
            for s1, y in outs:
                if an_name(an, y) == "None":
                    C.record(C.reach(an, s1, f"no value {i} of {cfg.total}"), f"{cfg.name()}: every value of every group", key=f"{key}: every value of every group")
                    continue
                one(C, an, s1, sub, y.fields[0], miss, x, cfg.name(), key)
                work.append(s1)
            work = thin(C, work)
        for s1, y in step(C, an, nx, work, v):
            if an_name(an, y) == "None":
                C.ok(f"{cfg.name()}: nothing after the last group")
            else:
                C.record(C.reach(an, s1, f"a value after the {cfg.total} of the groups"), f"{cfg.name()}: nothing after the last group", key=f"{key}: nothing after the last group")
    if not n:
        C.und(cfg.name(), "not decoded")


def configs(rng):
    r = []
    for mvm in (0, 1, 2):
        k = 4 if mvm == 0 else 2
        r += [
            Cfg(2, 8, mvm, 3, 3, (2, 0), 1, 2, 2, (1, 0), 2),
            Cfg(2, 8, mvm, 0, 2, (0, 3, 1), 2, 1, 1, (0, 1, 1), 1),
            Cfg(2, 12, mvm, 1, 4, (0, 15, 7), 1, 0, 0, (0, 0, 0), 3),
            Cfg(2, 0 + 5, mvm, 0, 1, (1, 0, 1, 0), 0, 1, 3, (k, 2, 1, 0), 2),
            Cfg(2, 16, mvm, 9, 0, (0, 0), 2, 7, 0, (0, 0), 1),
            Cfg(2, 3, mvm, 5, 3, (1, 6), 0, 3, 2, (1, k // 2), 2),
            Cfg(2, 1, mvm, 1, 2, (0, 1, 2), 1, 1, 4, (0, 1, 15), 1),
            Cfg(2, 24, mvm, 17, 1, (0, 1), 1, 1, 1, (0, 1), 2),
            Cfg(2, 8, mvm, 0, 0, (0,), 1, 1, 0, (0,), 3),
            Cfg(2, 7, mvm, 4, 0, (0,), 9, 9, 5, (31,), k),
            Cfg(2, 10, mvm, 31, 1, (0, 0), 1, 1, 1, (0, 1), 1),
            Cfg(2, 9, mvm, 0, 8, (2, 11), 1, 1, 8, (2, 1), 2),
        ]
    for _ in range(18 if TIER == "quick" else 300):
        ng = rng.randint(1, 4)
        wn, lnb = rng.randint(0, 5), rng.randint(0, 6)
        wref = rng.choice([0, 0, 1, 2, 5, 8, 11])
        lref, linc = rng.randint(0, 2), rng.choice([0, 1, 1, 2])
        nbit = rng.choice([1, 2, 4, 5, 8, 8, 9, 12, 15, 16, 20])
        r.append(Cfg(2, nbit, rng.randint(0, 2), wref, wn, tuple(rng.randint(0, min(12, (1 << wn) - 1)) for _ in range(ng)),
                     lref, linc, lnb, tuple(rng.randint(0, min(2, (1 << lnb) - 1)) for _ in range(ng)), rng.randint(0, 3)))
    return r


def octets_for(an, st, n, nb):
    if nb % 8 == 0:
        return n * (nb // 8)
    return an.it.div(st, n * nb + 7, 8)


def induct(C, an, nx):
    """the groups after any multiple of eight groups, from any octet and bit of the data"""
    key = "template 2"
    for mvm in (0, 1, 2):
        for nbit, wn, lnb in ((8, 8, 8),):
            fx = [f for f in c15.cplx(nbit, mvm, 0, 0, wn, 1, 1, 2, lnb) if f[1] != 32]
            for s, sub, p in decoder_of(C, an, 2, c15.HALF + fx, 255, 40):
                NG = sect_octet(sub, 5, 32, 4)
                J, q = P(atom("sym", "groups", lo=0, hi=1 << 20)), P(atom("sym", "octet", lo=0, hi=1 << 30))
                if not (s.add_le0(J * 8 + 3 - NG) and s.add_le0(NG - (1 << 24))):
                    continue
                base = sub.off[7] + 5
                L = sub.size[7] - 5
                octs = [octets_for(an, s, NG, nb) for nb in (nbit, wn, lnb)]
                data = octs[0] + octs[1] + octs[2]
                if not s.add_le0(data + q + 16 - L):
                    continue
                for s1, x in oks(an, an.run("dispatch", [p], s)):
                    for o in range(8):
                        s2 = s1.copy()
                        found = []

                        def move(v, where=None, d=0):
                            v = an.it.settle(s2, v)
                            if not (isinstance(v, Agg) and v.name in an.d["adts"]) or d > 30:
                                return v
                            vi = v.variant or 0
                            fs = [f[0] for f in an.d["adts"][v.name]["variants"][vi]["fields"]]
                            out = []
                            last = v.name.rsplit("::", 1)[-1]
                            for n, f in zip(fs, v.fields):
                                w = where
                                if last == "ComplexPackingValueDecodeIterator":
                                    w = {"ref_iter": nbit, "width_iter": wn, "length_iter": lnb}.get(n)
                                    if n == "pos":
                                        found.append(n)
                                        out.append(q)
                                        continue
                                    if n == "start_offset_bits":
                                        found.append(n)
                                        out.append(P(o))
                                        continue
                                if where and last == "NBitwiseIterator" and n == "pos":
                                    found.append("stream")
                                    out.append(P(an.it.as_int(s2, f)) + J * where)
                                elif where and last in ("Take", "FixedValueIterator") and n in ("n", "length"):
                                    found.append("left")
                                    out.append(P(an.it.as_int(s2, f)) - J * 8)
                                else:
                                    out.append(move(f, w, d + 1))
                            return Agg(v.name, v.variant, out, v.ty)
                        m = move(x)
                        if sorted(found) != ["left"] * 3 + ["pos", "start_offset_bits"] + ["stream"] * 3:
                            C.und("any group", f"state not recognised: {sorted(found)}")
                            return
                        widths, lens = (3, 0, 2), (0, 1, 1)
                        ok = True
                        for k in range(3):
                            for nb, at0, vs in ((wn, base + octs[0], widths), (lnb, base + octs[0] + octs[1], lens)):
                                ok = ok and fix(s2, bits_of("file", at0 + J * nb, nb * k, nb), vs[k])
                        if not ok:
                            C.und("any group", "the widths and lengths cannot be chosen")
                            continue
                        # group k = 8 J + k; the third may be the last one
                        s2.conds += ((eq0(NG - J * 8 - 3), 0),)
                        if not s2.assume(eq0(NG - J * 8 - 3), 0):
                            continue
                        v = put(an, s2, m)
                        work, pos = [s2], o
                        for k in range(3):
                            ref = bits_of("file", base + J * nbit, nbit * k, nbit)
                            w = widths[k]
                            for _ in range(1 + lens[k]):
                                val = bits_of("file", base + data + q, pos, w) if w else ZERO
                                pos += w
                                miss = missing(val if w else ref, w or nbit, mvm)
                                outs, work = step(C, an, nx, work, v), []
                                for s3, y in outs:
                                    if an_name(an, y) == "None":
                                        C.record(C.reach(an, s3, "no value in a group in the middle"), "any group: every value", key=f"{key}: every value of every group")
                                        continue
                                    one(C, an, s3, sub, y.fields[0], miss, val + ref, "any group", key)
                                    work.append(s3)
                                work = thin(C, work, 3)


def inner(an, st, v, d=0):
    """the iterator over the groups inside the iterator over the values"""
    v = an.it.settle(st, v)
    if isinstance(v, Agg):
        if v.name.endswith("::ComplexPackingValueDecodeIterator"):
            return v
        if d < 30:
            for f in v.fields:
                if isinstance(f, (Agg, Ite)):
                    r = inner(an, st, f, d + 1)
                    if r is not None:
                        return r
    return None


def lengths(C, an):
    """groups of any length: constant groups (width 0) have as many values as stated"""
    nx = an.find(r"ComplexPackingValueDecodeIterator<.*Iterator>::next$")
    if not nx:
        C.und("group lengths", "no group iterator found")
        return
    for lnb in (0, 5, 8, 12, 16, 24):
        fx = [f for f in c15.cplx(8, 0, 2, 0, 0, 0, 0, 0, lnb) if f[1] not in (38, 42, 43)]
        for s, sub, p in decoder_of(C, an, 2, c15.HALF + fx, 255, 20):
            v0 = bits_of("file", sub.off[7] + 5 + 2, 0, lnb) if lnb else ZERO
            ref, inc, last = sect_octet(sub, 5, 38, 4), sect_octet(sub, 5, 42), sect_octet(sub, 5, 43, 4)
            for s1, x in oks(an, an.run("dispatch", [p], s)):
                g = inner(an, s1, x)
                if g is None:
                    C.und("group lengths", "group iterator not recognised")
                    continue
                v = put(an, s1, g)
                work = [s1]
                for k, want in ((0, ref + inc * v0), (1, last)):
                    nxt = []
                    for s2 in work:
                        if s2.decide(le0(want - (2**32 - 1))) == 0:
                            continue
                        s2.assume(le0(want - (2**32 - 1)), 1)  # a length is a 32-bit number
                        for s3, y in an.run_key(nx[0], [v], s2):
                            for s4, z in an.it.settle_all(s3, y):
                                if an_name(an, z) == "None":
                                    C.record(C.reach(an, s4, f"no group {k}"), "every group is expanded", key="every group is expanded")
                                    continue
                                try:
                                    n = an.it.as_int(s4, z.fields[0].fields[0].len)
                                except (AttributeError, IndexError):
                                    C.und("group lengths", f"{z!r:.100}")
                                    continue
                                C.record(C.cmp(an, s4, P(n), want), f"length of a group, {lnb} bits", key="length of the last group" if k else "length of a group")
                                nxt.append(s4)
                    work = nxt


def run(C):
    an = C.an = An("roots", dict(stream.EXT))
    an.it.unroll_limit = 24
    nx = an.find(NEXT)
    if not nx:
        C.und("decoded values", "no iterator found")
        return
    for cfg in configs(C.rng):
        with C.part(cfg.name()):
            sequence(C, an, nx[0], cfg)
    with C.part("group lengths"):
        lengths(C, an)
    with C.part("any group"):
        induct(C, an, nx[0])
    C.used(an)
