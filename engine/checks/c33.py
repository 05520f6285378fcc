"""The reference time is the instant of octets 13 to 19 of Section 1, or an error."""
from common import *
from models import all_of, date_valid, time_valid

N = "S1"


def instant(C, want):
    def f(_, st, got):
        an = C.an
        got = an.it.settle(st, got)
        if not isinstance(got, Opq) or got.tag != "instant":
            return ("unk", f"instant expected, got {got!r:.120}")
        return C.allof([C.cmp(an, st, g, w, n) for g, w, n in zip(got.args, want, ("year", "month", "day", "hour", "minute", "second"))])
    return Pred(f, "the instant of octets 13-19")


def run(C):
    an = C.an = An("roots")
    with C.part("reference time"):
        want = [octets(N, 7, 2)] + [octets(N, i, 1) for i in (9, 10, 11, 12, 13)]
        valid = date_valid(*want[:3]) + time_valid(*want[3:])
        n = 0
        for st, p in construct(C, an, "ident", N, min_len=16):
            for s, v in an.run("ident_time", [p], st):
                for s1, y in an.it.settle_all(s, v):
                    n += 1
                    bad = [c for c in valid if s1.decide(c) is False]
                    if an_name(an, y) == "Ok":
                        C.record(C.cmp(an, s1, y, Ok(instant(C, want))), "reference time", key="reference time")
                        for i, c in enumerate(valid):
                            require(C, an, s1, c, f"only valid times (condition {i})", "an invalid time is accepted", key="invalid times")
                    elif bad:
                        C.ok("an error only for invalid times")
                    else:
                        s2 = s1.copy()
                        good = True
                        for c in valid:
                            s2.conds += ((c, 1),)
                            good = good and s2.assume(c, 1)
                        if good:
                            C.record(C.reach(an, s2, "a valid time is refused"), "an error only for invalid times", key="valid times")
                        else:
                            C.ok("an error only for invalid times")
        if n < 2:
            C.und("reference time", f"{n} outcomes")
        C.no_panic(an, "reference time")
        C.used(an)
