"""Coordinates of regular grids: evenly spaced latitudes and longitudes, Gaussian latitudes, directions."""
import math
from common import *
from c25 import definition, oct_of, want_at, SHAPE

# octets of the first and last grid point's latitude and longitude
LA1, LO1, LA2, LO2 = 47, 51, 56, 60
SIZES = [(1, 1), (2, 2), (3, 2), (2, 3), (1, 4), (6, 1)]


NAMES = {LA1: "first_point_lat", LO1: "first_point_lon", LA2: "last_point_lat", LO2: "last_point_lon"}


def spaced(a, b, k, n):
    """the k-th of n evenly spaced values from a to b (microdegrees), in degrees"""
    if n <= 1:
        return fdiv(fadd(a, fmul(fc(0.0, 32), fc(0.0, 32))), fc(1e6, 32))
    d = fdiv(fsub(b, a), fc(float(n - 1), 32))
    return fdiv(fadd(a, fmul(fc(float(k), 32), d)), fc(1e6, 32))


def lon_cases(sg, k, n, neg):
    """[(conditions, longitude)]"""
    first, last = sg(LO1), sg(LO2)
    a, b = i2f(first, 32), i2f(last, 32)
    if n <= 1:
        return [([], spaced(a, b, 0, 1))]
    along = le0(last + 1 - first) if neg else le0(first + 1 - last)
    full = fc(360e6, 32)
    x = spaced(fadd(a, full), b, k, n) if neg else spaced(a, fadd(b, full), k, n)
    over = P(atom("flt", x, fc(360.0, 32), lo=0, hi=1, w=1))
    return [([along], spaced(a, b, k, n)), ([ONE - along, over], x), ([ONE - along, ONE - over], fsub(x, fc(360.0, 32)))]


def coded(v):
    return v if v >= 0 else (1 << 31) - v


def close(v, tol, what):
    """a constant within the tolerance"""
    def f(C, st, got):
        got = C.settle(C.an, st, got)
        x = fval(got) if isinstance(got, F) else None
        if isinstance(got, F) and got.op == "nan":
            return C.reach(C.an, st, f"not a number instead of {v} ({what})")
        if x is None:
            return ("unk", f"{got!r:.80} instead of {v}")
        return "eq" if abs(x - v) <= tol else C.reach(C.an, st, f"{x} instead of {v} ({what})")
    return Pred(f, f"{v}")


def exact_lon(k, n, a, b, neg):
    """longitude in degrees by definition (a, b in microdegrees)"""
    if n <= 1:
        return a / 1e6
    wrap = (b >= a) if neg else (b <= a)
    if wrap:
        a, b = (a + 360_000_000, b) if neg else (a, b + 360_000_000)
    x = (a + k * (b - a) / (n - 1)) / 1e6
    return x - 360 if wrap and x >= 360 else x


def grids(C, an, st, t, ni, nj, mode):
    """[(state, definition)] of a grid of the given size and scanning mode"""
    oi, oj, om = SHAPE[t]
    r = []
    for s, p in definition(C, an, st, t):
        if fix(s, oct_of(oi, 4), ni) and fix(s, oct_of(oj, 4), nj) and fix(s, oct_of(om, 1), mode):
            d = C.settle(an, s, an.it.load(s, (p.cell, p.path)))
            d = C.settle(an, s, d.fields[0])
            co = {o: P(an.it.as_int(s, C.settle(an, s, C.fld(an, d, f)))) for o, f in NAMES.items()}
            r.append((s, p, lambda o, co=co: co[o]))
    return r


def upward(C, an, st, mode, sg):
    """restricts to latitudes that agree with the scanning direction"""
    first, last = sg(LA1), sg(LA2)
    return st.add_le0(first + 1 - last) if mode & 0x40 else st.add_le0(last + 1 - first)


def walk(C, an, st, it, ni, nj, mode, lat, lon, name, key):
    """every pair: latitude of its j, longitude of its i"""
    sts = [st]
    n = ni * nj
    for k in range(n + 1):
        nxt = []
        for s in sts:
            outs = an.run("ll_next", [it], s)
            if not outs:
                C.bad(name, f"asking for the coordinates of point {k} of a {ni} x {nj} grid with scanning mode {mode:#04x} panics", None, key)
                continue
            if k == n:
                C.equal(an, outs, NONE, f"{name}: end", key=key)
                continue
            i, j = want_at(k, ni, nj, mode)
            before = len(C.viol)
            C.cases(an, outs, [(c1 + c2, Some(Tup(x, y))) for c1, x in lat(j) for c2, y in lon(i)], f"{name}: point {k} of {ni} x {nj}", key=key)
            if len(C.viol) > before:
                return
            nxt += [s1 for s1, _ in outs]
        sts = nxt[:40]


def symbolic(C, an, t, ni, nj, mode, name):
    for st, p, sg in grids(C, an, St(), t, ni, nj, mode):
        if not upward(C, an, st, mode, sg):
            continue
        if ni > 3 and not st.add_le0(sg(LO2) + 1 - sg(LO1) if mode & 0x80 else sg(LO1) + 1 - sg(LO2)):
            continue
        outs = an.run("grid_latlons", [p], st)
        key = f"{name}: {'i' if mode & 0x80 else '+i'} {'+j' if mode & 0x40 else 'j'}"
        C.equal(an, outs, Ok(ANY), f"{name}: {ni} x {nj}, scanning mode {mode:#04x} accepted", key=key)
        first, last = i2f(sg(LA1), 32), i2f(sg(LA2), 32)
        for s, x in oks(an, outs):
            walk(C, an, s, put(an, s, x), ni, nj, mode, lambda j: [([], spaced(first, last, j, nj))], lambda i: lon_cases(sg, i, ni, mode & 0x80), name, f"{name}: coordinates")


SCENES = [  # latitudes of first and last point ascending, longitudes of first and last point, numbers of columns
    ((-90_000_000, 90_000_000), (0, 359_750_000), 5),
    ((-2_000_000, 2_000_000), (359_000_000, 1_000_000), 3),
    ((10_000_000, 30_000_000), (180_000_000, 179_760_000), 4),
    ((10_000_000, 30_000_000), (179_760_000, 180_000_000), 4),
    ((1_000_000, 2_000_000), (1_000_000, 359_000_000), 3),
    ((1_000_000, 2_000_000), (-10_000_000, 10_000_000), 3),
    ((1_000_000, 2_000_000), (0, 0), 5),
    ((1_000_000, 2_000_000), (90_000_000, 90_000_000), 1),
    ((47_600_000, 47_600_001), (358_000_000, 8_000_000), 11),
]


def scenes(C, an, t, mode, name):
    for (lo, hi), (o1, o2), ni in SCENES:
        nj = 3
        la1, la2 = (lo, hi) if mode & 0x40 else (hi, lo)
        for st, p, sg in grids(C, an, St(), t, ni, nj, mode):
            if not all(fix(st, oct_of(o, 4), coded(v)) for o, v in ((LA1, la1), (LA2, la2), (LO1, o1), (LO2, o2))):
                continue
            what = f"{la1}..{la2} / {o1}..{o2}, {ni} x {nj}, scanning mode {mode:#04x}"
            outs = an.run("grid_latlons", [p], st)
            C.equal(an, outs, Ok(ANY), f"{name}: {what} accepted", key=f"{name}: accepted")
            for s, x in oks(an, outs):
                lat = lambda j: [([], close((la1 + j * (la2 - la1) / (nj - 1)) / 1e6, 3e-5, f"latitude {j} of {what}"))] if t == 0 else [([], ANY)]
                lon = lambda i: [([], close(exact_lon(i, ni, o1, o2, mode & 0x80), 3e-4, f"longitude {i} of {what}"))]
                walk(C, an, s, put(an, s, x), ni, nj, mode, lat, lon, name, f"{name}: examples")


def legendre_roots(n):
    """latitudes (degrees, north to south) whose sines are the zeros of the Legendre polynomial"""
    r = []
    for i in range(n):
        x = math.cos(math.pi * (i + 0.75) / (n + 0.5))
        for _ in range(60):
            a, b = 1.0, x
            for k in range(2, n + 1):
                a, b = b, ((2 * k - 1) * x * b - (k - 1) * a) / k
            d = n * (a - x * b) / (1 - x * x)
            dx = b / d
            x -= dx
            if abs(dx) < 1e-16:
                break
        r.append(math.degrees(math.asin(x)))
    return r


def run(C):
    for t in (0, 40):
        for mode in (0x00, 0x40, 0x80, 0xC0):
            if t == 40:
                break
            name = f"coordinates of template 3.{t}"
            with C.part(f"{name}, scanning mode {mode:#04x}"):
                an = C.an = An("roots", dict(stream.EXT))
                for ni, nj in SIZES:
                    symbolic(C, an, t, ni, nj, mode, name)
                for m in (mode | 0x20, mode | 0x30):
                    symbolic(C, an, t, 2, 3, m, name)
                C.no_panic(an, name)
                C.used(an)
        for mode in (0x00, 0x40, 0x80, 0xC0):
            name = f"examples for template 3.{t}"
            with C.part(f"{name}, scanning mode {mode:#04x}"):
                an = C.an = An("roots", dict(stream.EXT))
                scenes(C, an, t, mode, name)
                C.no_panic(an, name)
                C.used(an)
    # a latitude range against the scanning direction
    for t in (0, 40):
        name = f"latitude range of template 3.{t} against the scanning direction"
        with C.part(name):
            an = C.an = An("roots", dict(stream.EXT))
            for mode in (0x00, 0x40, 0x80, 0xF0):
                for ni, nj in ((2, 2), (2, 1), (3, 4)):
                    for st, p, sg in grids(C, an, St(), t, ni, nj, mode):
                        if st.add_le0(sg(LA2) + 1 - sg(LA1)) if mode & 0x40 else st.add_le0(sg(LA1) + 1 - sg(LA2)):
                            C.equal(an, an.run("grid_latlons", [p], st), Err(V("InvalidValueError", ANY)), f"{name}: {ni} x {nj}, {mode:#04x}", key=name)
            # no range at all in a single row
            for mode in (0x00, 0x40):
                for st, p, sg in grids(C, an, St(), t, 3, 1, mode):
                    if fix(st, oct_of(LA1, 4), 5_000_000) and fix(st, oct_of(LA2, 4), 5_000_000):
                        C.equal(an, an.run("grid_latlons", [p], st), Ok(ANY), f"single row of template 3.{t}, {mode:#04x}", key=f"single row of template 3.{t}")
            C.no_panic(an, name)
            C.used(an)
    # grids without rows or columns have no coordinates
    for t in (0, 40):
        name = f"empty grids of template 3.{t}"
        with C.part(name):
            an = C.an = An("roots", dict(stream.EXT))
            for ni, nj in ((0, 2), (2, 0), (0, 0)):
                for st, p, sg in grids(C, an, St(), t, ni, nj, 0):
                    if upward(C, an, st, 0, sg):
                        for s, x in oks(an, an.run("grid_latlons", [p], st)):
                            C.equal(an, an.run("ll_next", [put(an, s, x)], s), NONE, f"{name}: no point", key=name)
            C.no_panic(an, name)
            C.used(an)
    failing_roots(C)
    for n in (1, 2, 3, 4, 5, 8, 12):
        name = "Gaussian latitudes"
        with C.part(f"{name}: {n}"):
            an = C.an = An("roots", dict(stream.EXT))
            roots = legendre_roots(n)
            outs = an.run("gaussian", [P(n)], St())
            C.equal(an, outs, Pred(lambda c, st, got: seq(c, st, got, [math.radians(x) for x in roots]), f"{n} latitudes"), f"{name} of {n} rows", key=f"{name}: computed")
            for mode in (0x00, 0x40):
                for st, p, sg in grids(C, an, St(), 40, 1, n, mode):
                    if not upward(C, an, st, mode, sg):
                        continue
                    outs = an.run("grid_latlons", [p], st)
                    C.equal(an, outs, Ok(ANY), f"{name}: {n} rows accepted", key=f"{name}: accepted")
                    rs = list(reversed(roots)) if mode else roots
                    for s, x in oks(an, outs):
                        walk(C, an, s, put(an, s, x), 1, n, mode, lambda j: [([], close(rs[j], 1e-5, f"Gaussian latitude {j} of {n}, scanning mode {mode:#04x}"))],
                             lambda i: [([], ANY)], name, f"{name}: order")
            C.no_panic(an, name)
            C.used(an)


def failing_roots(C):
    """a latitude that cannot be computed makes the coordinates an error"""
    name = "Gaussian latitudes that cannot be computed"
    with C.part(name):
        seen = []

        def h(it, st, fn, args, argtys, dty, where):
            seen.append(1)
            k = st.ghost.get("roots", 0)
            a, b = st.copy(), st.copy()
            a.ghost = dict(a.ghost, roots=k + 1)
            b.ghost = dict(b.ghost, roots=k + 1, missing=1)
            return [(a, models.some(F("sym", (f"root{k}",), 64))), (b, models.NONE)]
        an = C.an = An("roots", dict(stream.EXT))
        for k in an.find("find_root"):
            an.it.hooks[an.d["bodies"][k]["path"]] = h
        for n in (1, 2, 3):
            for st, p, sg in grids(C, an, St(), 40, 1, n, 0):
                if upward(C, an, st, 0, sg):
                    for s, x in an.run("grid_latlons", [p], st):
                        if s.ghost.get("missing"):
                            C.equal(an, [(s, x)], Err(ANY), f"{name}: {n} rows", key=name)
                        else:
                            C.equal(an, [(s, x)], Ok(ANY), f"{name}: {n} rows, all computed", key=name)
        if not seen:
            C.und(name, "the root finder is not recognised")
        C.used(an)


def seq(C, st, got, want):
    an = C.an
    got = C.settle(an, st, got)
    if isinstance(got, Agg) and got.name == "vec":
        got = C.settle(an, st, got.fields[0])
    if not isinstance(got, VArr):
        return ("unk", f"{got!r:.100}")
    if len(got.el) != len(want):
        return C.reach(an, st, f"{len(got.el)} latitudes instead of {len(want)}")
    rs = [C.cmp(an, st, x, Some(close(w, 1e-9, f"latitude {k}"))) for k, (x, w) in enumerate(zip(got.el, want))]
    return C.allof(rs)
