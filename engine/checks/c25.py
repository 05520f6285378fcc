"""Grid indices enumerate the grid in scanning order."""
from common import *
from c26 import SHAPE

MODES = [i << 4 for i in range(16)]


def want_at(k, ni, nj, mode):
    """the k-th index pair; k, ni and nj are numbers"""
    jc, alt = mode >> 5 & 1, mode >> 4 & 1
    fast, slow = (nj, ni) if jc else (ni, nj)
    s, f = divmod(k, fast)
    if alt and s % 2:
        f = fast - 1 - f
    return (s, f) if jc else (f, s)


def definition(C, an, st, t):
    """[(state, definition of the template's values)] from the octets of a section of unknown content"""
    n = ln("g") + 5
    if not (fix(st, n, 72) if t in (0, 40) else st.add_le0(90 - n)):
        return []
    fix(st, octets("g", 7, 2), t)
    r = []
    for s, x in oks(an, an.run("grid", [boxed(an, st, "g")], st)):
        for s1, y in oks(an, an.run("grid_values", [put(an, s, x)], s)):
            r.append((s1, put(an, s1, y)))
    return r


def oct_of(o, w):
    return octets("g", o - 6, w)


def iters(C, an, st, p):
    return [(s, put(an, s, x)) for s, x in oks(an, an.run("grid_ij", [p], st))]


def sequence(C, an, st, it, ni, nj, mode, name, key):
    """the whole sequence of a grid of known size"""
    sts = [st]
    n = ni * nj
    for k in range(n + 2):
        left = max(n - k, 0)
        nxt = []
        for s in sts:
            C.equal(an, an.run("ij_hint", [it], s.copy()), Tup(P(left), Some(P(left))), f"{name}: remaining count at {k}", key=key)
            outs = an.run("ij_next", [it], s)
            if not outs:
                C.bad(name, f"asking for index pair {k} of a {ni} x {nj} grid with scanning mode {mode:#04x} panics", None, key)
            want = Some(Tup(*[P(x) for x in want_at(k, ni, nj, mode)])) if k < n else NONE
            before = len(C.viol)
            C.equal(an, outs, want, f"{name}: pair {k} of {ni} x {nj}", key=key)
            if len(C.viol) > before:
                return
            nxt += [s1 for s1, _ in outs]
        sts = nxt


def run(C):
    for t in (0, 20, 30, 40):
        big = 4 if t == 0 else 2
        oi, oj, om = SHAPE[t]
        name = f"template 3.{t}"
        with C.part(name):
            an = C.an = An("roots", dict(stream.EXT))
            st0 = St()
            n = 0
            for st, p in definition(C, an, st0, t):
                for mode in MODES:
                    for ni in range(big + 1):
                        for nj in range(big + 1):
                            if mode >> 6 in (0, 3) and (ni, nj) not in ((2, 3), (3, 2), (2, 2)):
                                continue
                            s = st.copy()
                            if not (fix(s, oct_of(om, 1), mode) and fix(s, oct_of(oi, 4), ni) and fix(s, oct_of(oj, 4), nj)):
                                C.und(name, "size not reached")
                                continue
                            for s1, it in iters(C, an, s, p):
                                n += 1
                                sequence(C, an, s1, it, ni, nj, mode, name, f"{name}: sequence")
            if not n:
                C.und(name, "no iterator")
            C.no_panic(an, name)
            C.used(an)
    # any size: the first pairs and the counts
    for t in (0, 20, 30, 40):
        oi, oj, om = SHAPE[t]
        name = f"template 3.{t}, any size"
        with C.part(name):
            an = C.an = An("roots", dict(stream.EXT))
            ni, nj = oct_of(oi, 4), oct_of(oj, 4)
            for mode in (0x00, 0x20, 0x10, 0x30):
                for st, p in definition(C, an, St(), t):
                    if not (fix(st, oct_of(om, 1), mode) and st.add_le0(1 - ni) and st.add_le0(1 - nj)):
                        continue
                    for s, it in iters(C, an, st, p):
                        anysize(C, an, s, it, ni, nj, mode, name)
            C.no_panic(an, name)
            C.used(an)
    for mode in (0x00, 0x20, 0x10, 0x30):
        name = f"step from any position, scanning mode {mode:#04x}"
        with C.part(name):
            an = C.an = An("roots", dict(stream.EXT))
            induct(C, an, mode, name)
            C.no_panic(an, name)
            C.used(an)


def anysize(C, an, st, it, ni, nj, mode, name, steps=4):
    jc, alt = mode >> 5 & 1, mode >> 4 & 1
    fast, slow = (nj, ni) if jc else (ni, nj)
    # (state, slow position, fast position); the row ends are decided by the paths themselves
    todo = [(st, 0, 0)]
    for k in range(steps):
        nxt = []
        for s, a, b in todo:
            s.add_le0(fast - (slow - a) * fast)
            s0 = s.copy()
            if s0.add_le0(P(a + 1) - slow) and s0.add_le0(P(b + 1) - fast):
                C.equal(an, an.run("ij_hint", [it], s0), Tup(ni * nj - k, Some(ni * nj - k)), f"{name}: remaining count", key=f"{name}: remaining count")
            for last in (0, 1):
                for more in (0, 1):
                    s1 = s.copy()
                    # the grid has a row `a`, and position b is in it
                    if not (s1.add_le0(P(a + 1) - slow) and s1.add_le0(fast - (slow - a) * fast) and s1.add_le0(P(b + 1) - fast)):
                        continue
                    if not (fix(s1, fast, b + 1) if last else s1.add_le0(P(b + 2) - fast)):
                        continue
                    if last and not (fix(s1, slow, a + 1) if not more else s1.add_le0(P(a + 2) - slow)):
                        continue
                    if not last and more:
                        continue
                    f = fast - 1 - b if alt and a % 2 else P(b)
                    want = (P(a), f) if jc else (f, P(a))
                    outs = an.run("ij_next", [it], s1)
                    C.equal(an, outs, Some(Tup(*want)), f"{name}: pair {k}", key=f"{name}: pairs")
                    for s2, _ in outs:
                        if last and not more:
                            C.equal(an, an.run("ij_next", [it], s2.copy()), NONE, f"{name}: end", key=f"{name}: end")
                        else:
                            nxt.append((s2, a + 1, 0) if last else (s2, a, b + 1))
        todo = nxt


FIELDS = ("major_len", "minor_len", "scanning_mode", "major_pos", "minor_pos", "increments")


def induct(C, an, mode, name):
    """one step from a state in the middle of the grid; needs the iterator's own fields"""
    t = 0
    oi, oj, om = SHAPE[t]
    ni, nj = oct_of(oi, 4), oct_of(oj, 4)
    jc, alt = mode >> 5 & 1, mode >> 4 & 1
    fast, slow = (nj, ni) if jc else (ni, nj)
    A_ = P(atom("sym", "row", lo=0, hi=(1 << 32) - 1))
    B_ = P(atom("sym", "pos", lo=0, hi=(1 << 32) - 1))
    H = P(atom("sym", "half", lo=0, hi=1 << 31))
    for st, p in definition(C, an, St(), t):
        if not (fix(st, oct_of(om, 1), mode) and st.add_le0(1 - ni) and st.add_le0(1 - nj)):
            continue
        for s, it in iters(C, an, st, p):
            v = an.it.load(s, (it.cell, it.path))
            ad = an.d["adts"].get(getattr(v, "name", None))
            fs = [f[0] for f in ad["variants"][0]["fields"]] if ad else []
            if sorted(fs) != sorted(FIELDS):
                C.und(name, f"state of the iterator not recognised: {fs}")
                continue
            if not represented(an, st, p, oi, oj, mode):
                C.und(name, "the iterator's fields are used in another way")
                continue
            for odd in (0, 1):
                pos = dict(zip(fs, v.fields))
                row = H * 2 + odd
                pos["major_pos"], pos["minor_pos"] = row, B_
                pos["increments"] = P(0 if alt and odd else 1)
                for last in (0, 1):
                    s1 = s.copy()
                    b = fast - 1 if last else B_
                    if not (s1.add_le0(row + 1 - slow) and (last or s1.add_le0(B_ + 2 - fast)) and s1.add_le0(fast - (slow - row) * fast)):
                        continue
                    pos["minor_pos"] = b
                    s1.mem[it.cell] = Agg(v.name, v.variant, [pos[f] for f in fs], v.ty)
                    k = row * fast + b
                    left = ni * nj - k
                    C.equal(an, an.run("ij_hint", [it], s1.copy()), Tup(left, Some(left)), f"{name}: remaining count", key=f"{name}: remaining count")
                    f = fast - 1 - b if alt and odd else b
                    want = (row, f) if jc else (f, row)
                    outs = an.run("ij_next", [it], s1)
                    C.equal(an, outs, Some(Tup(*want)), f"{name}: pair", key=f"{name}: pair")
                    for s2, _ in outs:
                        w = an.it.load(s2, (it.cell, it.path))
                        got = dict(zip(fs, w.fields))
                        nr = row + 1 if last else row
                        C.record(C.cmp(an, s2, got["major_pos"], nr), f"{name}: next row", key=f"{name}: next state")
                        C.record(C.cmp(an, s2, got["minor_pos"], ZERO if last else B_ + 1), f"{name}: next position", key=f"{name}: next state")
                        C.record(C.cmp(an, s2, got["increments"], P(0 if alt and (odd + last) % 2 else 1)), f"{name}: next direction", key=f"{name}: next state")
            # after the last row
            s1 = s.copy()
            pos = dict(zip(fs, v.fields))
            pos["major_pos"], pos["minor_pos"] = slow, ZERO
            s1.mem[it.cell] = Agg(v.name, v.variant, [pos[f] for f in fs], v.ty)
            C.equal(an, an.run("ij_next", [it], s1.copy()), NONE, f"{name}: end", key=f"{name}: end")
            C.equal(an, an.run("ij_hint", [it], s1), Tup(ZERO, Some(ZERO)), f"{name}: nothing left", key=f"{name}: end")


def represented(an, st, p, oi, oj, mode):
    """on a small grid the fields mean: row, position in the row, and whether the row runs forwards"""
    jc, alt = mode >> 5 & 1, mode >> 4 & 1
    s = st.copy()
    ni, nj = 3, 4
    if not (fix(s, oct_of(oi, 4), ni) and fix(s, oct_of(oj, 4), nj)):
        return False
    fast, slow = (nj, ni) if jc else (ni, nj)
    for s, it in [(s1, put(an, s1, x)) for s1, x in oks(an, an.run("grid_ij", [p], s))]:
        for k in range(ni * nj + 1):
            v = an.it.load(s, (it.cell, it.path))
            fs = [f[0] for f in an.d["adts"][v.name]["variants"][0]["fields"]]
            got = {f: an.it.as_int(s, x) for f, x in zip(fs, v.fields) if f in ("major_len", "minor_len", "major_pos", "minor_pos", "increments")}
            want = dict(major_len=slow, minor_len=fast, major_pos=k // fast, minor_pos=k % fast, increments=0 if alt and k // fast % 2 else 1)
            if any(s.norm(P(got[f])).const != want[f] for f in want):
                return False
            outs = an.run("ij_next", [it], s)
            if len(outs) != 1:
                return False
            s = outs[0][0]
    return True
