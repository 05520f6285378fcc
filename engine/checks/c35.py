"""Exported files: every value, in order, in the chosen byte order, to the named file; success only when all of it was written."""
from cliworld import *


def run(C):
    for o in ("big-endian", "little-endian"):
        for n in (0, 1, 3, None):
            name = f"{o} export of {n if n is not None else 'any number of'} values"
            with C.part(name):
                an = C.an = An("cli")
                N = P(n) if n is not None else P(atom("sym", "N", lo=0, hi=1 << 40))
                W = Flow(C, an, [o], items=1, n=N)
                good = bad = 0
                for st, v in an.run("gribber::commands::decode::exec"):
                    for s, r in an.it.settle_all(st, v):
                        failed = [e[1] for e in s.events if e[0] == "failed"]
                        if r.variant == 1:
                            bad += 1
                            continue
                        good += 1
                        if failed:
                            C.bad(f"failure to {failed[0]} is reported", f"{name}: success although {failed[0]} failed", key=f"{o}: failed {failed[0]}")
                            continue
                        files = [e[1] for e in s.events if e[0] == "created"]
                        C.record("eq" if files == [T.toks(T.text(o))] else ("ne", f"{files!r:.100}"), f"{o}: file written", key=f"{o}: file")
                        if "k" not in s.ghost:
                            C.bad(f"{o}: a file is written", "success without a file", key=f"{o}: file")
                            continue
                        require(C, an, s, eq0(s.ghost["k"] - N) * eq0(s.ghost["c"]), f"{o}: every value is written", f"{name}: written up to {s.ghost['k']!r}", key=f"{o}: all values")
                        require(C, an, s, eq0(s.ghost["wrong"]), f"{o}: the bytes are the values in order", f"{name}: other bytes", key=f"{o}: bytes")
                        require(C, an, s, eq0(s.ghost["dirty"]), f"{o}: buffered data are written before success", f"{name}: success with data still in the buffer: a failure to write them is lost", key=f"{o}: completion")
                if not good:
                    C.bad(f"{name} succeeds", "no successful path", key=f"{o}: success")
                if not bad:
                    C.bad(f"{name} fails", "no failing path", key=f"{o}: failures")
                C.used(an)
