"""Spatial differencing: the recurrence, its first values and the overall minimum."""
from common import *
import c13
import c15
import c17
from c17 import Cfg


def diff_state(an, st, v, d=0):
    """the constant fields of the iterator that inverts the differences"""
    v = an.it.settle(st, v)
    if isinstance(v, Agg):
        if "SpatialDifferencingDecodeIterator" in v.name and v.variant is None or v.name.endswith("OrderSpatialDifferencingDecodeIterator"):
            r = []
            for f in v.fields:
                f = an.it.settle(st, f)
                if isinstance(f, (int, Poly)):
                    r.append(P(f).const)
            return r
        if d < 30:
            for f in v.fields:
                if isinstance(f, (Agg, Ite)):
                    r = diff_state(an, st, f, d + 1)
                    if r is not None:
                        return r
    return None


def sequence(C, an, nx, cfg):
    n = 0
    key = f"order {cfg.order}"
    name = f"order {cfg.order}, {cfg.octs} octets, {cfg.name()}"
    for s, sub, v in c17.start(C, an, cfg, [C.rng.randint(0, 1) for _ in range(cfg.order + 1)]):
        n += 1
        firsts = cfg.firsts(sub)
        work = [(s, [])]
        for i, (miss, d) in enumerate(cfg.wants(sub)):
            nxt = []
            for s0, hist in work:
                before = diff_state(an, s0, an.it.load(s0, (v.cell, v.path)))
                for s1, y in c17.step(C, an, nx, [s0], v):
                    if an_name(an, y) == "None":
                        C.record(C.reach(an, s1, f"no value {i} of {cfg.total}"), f"{name}: every value", key=f"{key}: every value is yielded")
                        continue
                    for cs, g, s2 in c13.leaves(C, an, s1, y.fields[0]):
                        if nan_term(g):
                            require(C, an, s2, miss, f"{name}: missing only where the pattern says so", "a value is missing", key=f"{key}: missing values")
                            nxt.append((s2, hist))
                            continue
                        if miss != ZERO:
                            require(C, an, s2, ONE - miss, f"{name}: the missing patterns are missing", "a value is not missing", key=f"{key}: missing values")
                        k = len(hist)
                        if k < cfg.order:
                            x, what = firsts[k], "first values come from the descriptors"
                        elif cfg.order == 1:
                            x, what = d + hist[-1], "v[n] = d[n] + v[n-1]"
                        else:
                            x, what = d + hist[-1] * 2 - hist[-2], "v[n] = d[n] + 2 v[n-1] - v[n-2]"
                        C.record(C.cmp(an, s2, g, unpacked(sub, x)), f"{name}: {what}", key=f"{key}: {what}")
                        if k > cfg.order:
                            after = diff_state(an, s2, an.it.load(s2, (v.cell, v.path)))
                            if before and after == before:
                                C.ok(f"{key}: the state repeats")
                            else:
                                C.und(f"{key}: the state repeats", f"{before} then {after}")
                        nxt.append((s2, hist + [x]))
            work = nxt if len(nxt) <= 8 else C.rng.sample(nxt, 8)
        for s0, hist in work:
            for s1, y in c17.step(C, an, nx, [s0], v):
                if an_name(an, y) == "None":
                    C.ok(f"{name}: nothing after the last group")
                else:
                    C.record(C.reach(an, s1, f"a value after the {cfg.total} of the groups"), f"{name}: nothing after the last group", key=f"{key}: nothing after the last group")
    if not n:
        C.und(name, "not decoded")


def configs(rng):
    r = []
    for o in (1, 2):
        for octs in (1, 2, 3, 4):
            r.append(Cfg(3, 8, 0, 6, 0, (0,), 1, 1, 0, (0,), 4 if octs == 4 else 5, o, octs))
            r.append(Cfg(3, 12, 0, 2, 3, (2, 0), 1, 2, 2, (1, 0), 3, o, octs))
            for mvm in (1, 2):
                r.append(Cfg(3, 9, mvm, 2, 3, (2, 5, 0), 1, 2, 2, (0, 0, 0), 2, o, octs))
            r.append(Cfg(3, 8, 0, 0, 3, (0, 0, 7), 1 if octs == 4 else 2, 2, 2, (0, 0, 0), 2, o, octs))
            r.append(Cfg(3, 6, 1, 2, 2, (2, 1, 0), 1 if octs == 4 else 2, 2, 2, (0, 0, 0), 2, o, octs))
        r.append(Cfg(3, 8, 1, 3, 0, (0,), 1, 1, 0, (0,), 5, o, 2))
        r.append(Cfg(3, 8, 2, 3, 0, (0,), 1, 1, 0, (0,), 5, o, 2))
        r.append(Cfg(3, 8, 2, 0, 2, (0, 1, 2), 1, 1, 0, (0, 0, 0), 2, o, 2))
        r.append(Cfg(3, 16, 0, 8, 0, (0,), 1, 1, 0, (0,), 8, o, 2))
    for _ in range(10 if TIER == "quick" else 200):
        ng = rng.randint(1, 3)
        wn, lnb = rng.randint(0, 4), rng.randint(0, 4)
        wref = rng.choice([0, 1, 2, 5, 8, 11])
        r.append(Cfg(3, rng.choice([1, 4, 8, 9, 12, 16, 20]), rng.randint(0, 2), wref, wn, tuple(rng.randint(0, min(9, (1 << wn) - 1)) for _ in range(ng)),
                     rng.randint(0, 2), rng.choice([0, 1]), lnb, tuple(rng.randint(0, min(2, (1 << lnb) - 1)) for _ in range(ng)), rng.randint(0, 3), rng.randint(1, 2), rng.randint(1, 4)))
    return r


def run(C):
    an = C.an = An("roots", dict(stream.EXT))
    an.it.unroll_limit = 24
    nx = an.find(c17.NEXT)
    if not nx:
        C.und("decoded values", "no iterator found")
        return
    for cfg in configs(C.rng):
        with C.part(f"order {cfg.order}, {cfg.octs} octets, {cfg.name()}"):
            sequence(C, an, nx[0], cfg)
    C.used(an)
