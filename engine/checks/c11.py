"""Product definition templates: each element from the octets of its template, for all 65536 template numbers."""
from common import *

N = "S4"


def rng(*rs):
    r = []
    for x in rs:
        r += [x] if isinstance(x, int) else list(range(x[0], x[1] + 1))
    return r


SUPPORTED = rng((0, 15), 20, 30, 31, (32, 35), (40, 49), 51, (53, 63), (67, 68), (70, 73), (76, 88), 91, 254, (1000, 1002), (1100, 1101))
# octet numbers (of Section 4) of the elements, per template
PROCESS, UNIT, SURFACE = {}, {}, {}
for ts, o in ((rng((0, 15), 20, 30, 31, (32, 35)), 12), (rng((40, 43)), 14), (rng((44, 47)), 25), (rng(48, 49), 36), ([51], 12), (rng(55, 56, 59, 62, 63), 18),
              (rng(60, 61), 12), (rng((70, 73)), 17), (rng((76, 79)), 15), (rng(80, 81), 37), (rng(82, 83, 84), 26), ([85], 25), (rng((86, 91)), 12),
              (rng((1000, 1002), (1100, 1101)), 12)):
    for t in ts:
        PROCESS[t] = o
for ts, o in ((rng((0, 15), (32, 34), 51, 60, 61, 86, 87, 91, (1000, 1002), (1100, 1101)), 18), (rng((40, 43)), 20), (rng((44, 47)), 31), (rng(48, 49), 42),
              (rng(55, 56, 59, 62, 63), 24), (rng((70, 73)), 23), (rng((76, 79)), 21), (rng(80, 81), 43), (rng(82, 83, 84), 32), ([85], 31), ([88], 36)):
    for t in ts:
        UNIT[t] = o
for ts, o in ((rng((0, 15), 51, 60, 61, 86, 87, 91, 1100, 1101), 23), (rng((40, 43)), 25), ([44], 34), (rng((45, 47)), 36), (rng(48, 49), 47), (rng(55, 56, 59, 62, 63), 29),
              (rng((70, 73)), 28), (rng((76, 79)), 26), (rng(80, 81), 48), (rng(82, 83, 84), 37), ([85], 36), ([88], 15)):
    for t in ts:
        SURFACE[t] = o
TM = octets(N, 2, 2)


def o(octet, n=1):
    return octets(N, octet - 6, n)


def s(octet, n=1):
    return smag(N, octet - 6, n)


def unit_is(an, want):
    """the stored unit stands for the code `want`, named or not"""
    def f(C, st, got):
        got = C.settle(an, st, got)
        if not isinstance(got, Agg) or got.variant is None:
            return ("unk", f"unit {got!r:.80}")
        n, x = C.vname(an, got), got.fields[0]
        if n == "Name":
            x = C.settle(an, st, x)
            if isinstance(x, Agg):
                x = P(an.d["adts"][x.name]["variants"][x.variant]["discr"])
            elif isinstance(x, SymEnum):
                x = x.discr
        return C.cmpnum(an, st, x, want, "unit")
    return Pred(f, f"unit {want!r}")


def surface(octet):
    return Fields(surface_type=o(octet), scale_factor=s(octet + 1), scaled_value=s(octet + 2, 4))


def run(C):
    for t in sorted(SUPPORTED):
        rows = [("prod_category", 10, 1, lambda an: o(10), "parameter category"), ("prod_number", 11, 1, lambda an: o(11), "parameter number")]
        rows.append(("prod_process", PROCESS.get(t), 1, lambda an: o(PROCESS[t]), "generating process"))
        tl = 2 if t == 44 else 4
        rows.append(("prod_time", UNIT.get(t), 1 + tl, lambda an: Fields(unit=unit_is(an, o(UNIT[t])), value=o(UNIT[t] + 1, tl)), "forecast time"))
        rows.append(("prod_surfaces", SURFACE.get(t), 12, lambda an: Tup(surface(SURFACE[t]), surface(SURFACE[t] + 6)), "fixed surfaces"))
        for root, octet, n, want, what in rows:
            name = f"{what} of template 4.{t}"
            with C.part(name):
                an = An("roots", dict(stream.EXT))
                st = St()
                st.conds += ((eq0(TM - t), 1),)
                st.assume(eq0(TM - t), 1)
                st.add_le0(P((octet or 100) + n - 6) - ln(N))
                k = 0
                for s0, p in construct(C, an, "prod", N, st=st):
                    outs = an.run(root, [p], s0)
                    k += len(outs)
                    C.equal(an, outs, NONE if octet is None else Some(want(an)), name)
                if not k:
                    C.bad(name, "no outcome: the accessor never returns", key=name)
                C.used(an)
    with C.part("other templates"):
        an = An("roots", dict(stream.EXT))
        st = St()
        for t in SUPPORTED:
            st.conds += ((eq0(TM - t), 0),)
            st.assume(eq0(TM - t), 0)
        for s0, p in construct(C, an, "prod", N, st=st):
            for root in ("prod_category", "prod_number", "prod_process", "prod_time", "prod_surfaces"):
                C.equal(an, an.run(root, [p], s0), NONE, f"{root} of other template numbers")
        C.used(an)
