"""Run-length packing (template 5.200): codes, runs, levels and the three kinds of errors, for symbolic codes and level values."""
from common import *
import itertools
import c13

# (bits, maximum level used, levels listed)
PARAMS = [(8, 3, 3), (8, 250, 3), (4, 9, 4), (12, 5, 3), (8, 0, 2), (15, 300, 2), (9, 2, 5), (3, 1, 3)]


def found(an, st, v, d=0):
    v = an.it.settle(st, v)
    if isinstance(v, Agg):
        if v.name == "vec_iter":
            return v
        if d < 20:
            for f in v.fields:
                if isinstance(f, (Agg, Ite)):
                    r = found(an, st, f, d + 1)
                    if r is not None:
                        return r
    return None


def level(sub, code, L):
    """the value of a level: NaN for 0, the listed value times 10^-D otherwise"""
    D = smag("file", sub.off[5] + 16, 1)
    r = None
    for i in range(L, -1, -1):
        x = NAN if i == 0 else fmul(i2f(sect_octet(sub, 5, 18 + 2 * (i - 1), 2), 32), fpow10(ZERO - D, 32))
        r = x if r is None else (eq0(code - i), x, r)
    return r


def match(C, an, st, got, want):
    """every alternative of the value is the level's one under its condition"""
    rs = []
    for cs, g, s in c13.leaves(C, an, st, got):
        w = want
        todo = [(s, want)]
        while todo:
            s1, w = todo.pop()
            if isinstance(w, tuple):
                for v in (1, 0):
                    s2 = s1.copy()
                    s2.conds += ((w[0], v),)
                    if s2.assume(w[0], v):
                        todo.append((s2, w[1] if v else w[2]))
                continue
            r = C.cmp(an, s1, g, w)
            if r != "eq" and r[0] == "ne":
                # a difference counts only on a path that some input takes
                x = C.reach(an, s1, r[1])
                r = ("unk", r[1]) if x[0] == "unk" else r
            rs.append(r)
    bad = [r for r in rs if r != "eq"]
    if not bad:
        return "eq"
    return next((r for r in bad if r[0] == "ne"), bad[0])


def elems(an, st, arr, i):
    """[(state, element i)], splitting where the element depends on more"""
    try:
        s = st.copy()
        return [(s, an.it.arr_get(s, arr, i))]
    except PathDead:
        return []
    except Fork as f:
        r = []
        for v in (1, 0):
            s = st.copy()
            s.conds += ((f.c, v),)
            if s.assume(f.c, v):
                r += elems(an, s, arr, i)
        return r


def pattern(C, an, par, pat):
    nb, maxv, L = par
    an.it.havoc.clear()
    name = f"{nb} bits, levels up to {maxv}, {L} listed, codes {pat}"
    no = (nb * len(pat) + 7) // 8
    fx = [(3, 7, 4, 100), (5, 12, 1, nb), (5, 13, 2, maxv), (5, 15, 2, L)]
    for s, sub, p in decoder_of(C, an, 200, fx, 255):
        if not (s.add_le0(5 + no - sub.size[7]) and s.add_le0(sub.size[7] - 5 - no)):
            continue
        codes = [bits_of("file", sub.off[7] + 5, nb * i, nb) for i in range(len(pat))]
        if not all(s.add_le0(x - maxv) if c == "L" else s.add_le0(P(maxv + 1) - x) for c, x in zip(pat, codes)):
            continue
        lngu = (1 << nb) - 1 - maxv
        runs, total, exp, inv = [], ZERO, 1, ZERO
        for c, x in zip(pat, codes):
            if c == "L":
                runs.append((ONE, x, total))
                total = total + 1
                exp, cur = 1, x
                inv = inv + ONE - le0(x - L) - inv * (ONE - le0(x - L))
            elif runs:
                n = (x - maxv - 1) * exp
                runs.append((n, cur, total))
                total = total + n
                exp *= lngu
        enc = sect_octet(sub, 5, 6, 4)
        good = ZERO if pat[:1] == "D" else eq0(total - enc) * (ONE - inv)
        n = 0
        for s1, y in an.run("dispatch", [p], s):
            for s2, z in an.it.settle_all(s1, y):
                n += 1
                if an_name(an, z) != "Ok":
                    require(C, an, s2, ONE - good, f"{name}: well-formed runs are decoded", "an error", key="well-formed runs are decoded")
                    continue
                require(C, an, s2, good, f"{name}: errors are reported", "a decoder is made", key="extension without level, unlisted level or wrong total is an error")
                v = found(an, s2, z.fields[0])
                if v is None:
                    C.und(name, "values not recognised")
                    continue
                arr = v.fields[0]
                C.record(C.cmp(an, s2, v.fields[2] - v.fields[1], total), f"{name}: number of values", key="number of values")
                for ln, code, at0 in runs:
                    s3 = s2.copy()
                    if P(ln).const == 1:
                        j = ZERO
                    else:
                        j = P(atom("sym", "within", lo=0, hi=1 << 62))
                        if not s3.add_le0(j + 1 - ln):
                            continue
                    try:
                        for s4, got in elems(an, s3, arr, P(v.fields[1]) + at0 + j):
                            C.record(match(C, an, s4, got, level(sub, code, L)), f"{name}: values of a run", key="values of a run")
                    except Undecided as e:
                        C.und(name, f"value {at0!r}: {e}")
        if not n:
            C.record(C.reach(an, s, "decoding panics"), f"{name}: decoded", key="decoding well-formed runs panics")


def run(C):
    an = C.an = An("roots", dict(stream.EXT))
    an.it.unroll_limit = 24
    for par in PARAMS:
        for n in range(1, 4 if TIER == "quick" else 6):
            if (-par[0] * n) % 8 >= par[0]:
                continue
            for pat in itertools.product("LD", repeat=n):
                with C.part(f"{par}: {''.join(pat)}"):
                    pattern(C, an, par, "".join(pat))
    for pat in ("LDDL", "LDLD", "LDDD", "LDDDD", "LLDD", "LDDLD", "LLLLL"):
        with C.part(pat):
            pattern(C, an, PARAMS[0], pat)
    C.used(an)
