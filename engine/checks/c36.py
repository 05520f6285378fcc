"""Failures of the command line tool: every one ends in a non-zero exit status and a message; an index that is wrong is an error."""
from cliworld import *

MODES = [("decode", ()), ("decode", ("big-endian",)), ("decode", ("little-endian",)), ("info", ()), ("inspect", ()), ("inspect", ("sections",)),
         ("inspect", ("submessages",)), ("inspect", ("templates",)), ("list", ()), ("list", ("dump",))]


def sessions(C, cmd, opts, items, n=1, prep=None):
    """run the tool: [(state, exit status or None for a normal return, how)]"""
    an = C.an = An("cli")
    W = Flow(C, an, opts, items=items, n=n)
    W.command = cmd
    if prep:
        prep(an, W)
    ends = []

    def div(it, st, name, args, where):
        if name == "std::process::exit":
            ends.append((st.copy(), st.norm(it.as_int(st, args[0])), name))
            return True
        return False
    an.it.hooks["diverge"] = div
    for st, v in an.run("gribber::main"):
        for s, r in an.it.settle_all(st, v):
            if isinstance(r, Agg) and r.name == "core::result::Result":
                ends.append((s, P(r.variant), "returned error" if r.variant else "return"))
            else:
                ends.append((s, ZERO, "return"))
    return an, W, ends


def picked(W, k):
    p = W.pair(k)
    return eq0(p.fields[0] - REQ[0]) * eq0(p.fields[1] - REQ[1])


def missed(C, an, W, s, j, cmd, name):
    what = f"{cmd}: an index in the file is found"
    p = W.pair(j)
    s = s.copy()
    for x, y in zip(p.fields, REQ):
        if not s.assume(eq0(x - y), 1):
            C.ok(what)
            return
        s.conds += ((eq0(x - y), 1),)
    if any(s.norm(c).const not in (None, w) for c, w in s.conds):
        C.ok(what)
        return
    require(C, an, s, ONE - picked(W, j), what, f"{name}: nothing decoded although submessage {j} has the index", key=f"{cmd}: found")


def run(C):
    for cmd, opts in MODES:
        for items in ((0, 1, 2) if cmd == "decode" and not opts else (0, 2)):
            name = " ".join((cmd,) + opts) + f" on {items} submessages"
            with C.part(name):
                an, W, ends = sessions(C, cmd, opts, items)
                failing, fine = set(), 0
                for s, code, how in ends:
                    failed = [e[1] for e in s.events if e[0] == "failed"]
                    coord = [e[1] for e in s.events if e[0] == "coordinates"]
                    if cmd == "decode" and not opts and coord == ["failed"]:
                        failed = failed + ["coordinates"]
                    if items == 0:
                        failed = failed + ["empty"]
                    k = s.ghost.get("chosen")
                    if failed:
                        failing.add(failed[0])
                        if s.decide(eq0(code)) is not False:
                            C.bad(f"{cmd}: {failed[0]} failure reaches the exit status", f"{name}: {how} with status {code!r} although {failed[0]} failed", key=f"{cmd}: {failed[0]}")
                            continue
                        C.ok(f"{cmd}: {failed[0]} failure reaches the exit status")
                        msgs = [e for e in s.events if e[0] == "eprint"]
                        if not msgs and how != "returned error":
                            C.bad(f"{cmd}: {failed[0]} failure has a message", f"{name}: exit without a message", key=f"{cmd}: message")
                        elif msgs and failed[0] not in ("empty", "index", "coordinates") and f"'{failed[0]}'" not in repr(msgs[-1]) and how != "returned error":
                            C.und(f"{cmd}: {failed[0]} failure has a message", f"{name}: the message does not show the error")
                        else:
                            C.ok(f"{cmd}: {failed[0]} failure has a message")
                        continue
                    if cmd == "decode" and k is None:
                        # nothing failed and nothing was decoded: allowed only if no submessage has that index
                        require(C, an, s, ONE - eq0(code), f"{cmd}: an index out of range is an error", f"{name}: {how} with status {code!r}", key=f"{cmd}: out of range")
                        for j in range(items):
                            missed(C, an, W, s, j, cmd, name)
                        failing.add("index out of range")
                        continue
                    fine += 1
                    if cmd == "decode":
                        require(C, an, s, sum((eq0(k - j) * picked(W, j) for j in range(items)), ZERO), f"{cmd}: the submessage decoded has the requested index", f"{name}: submessage {k!r} decoded", key=f"{cmd}: requested index")
                    require(C, an, s, eq0(code), f"{cmd}: success has status 0", f"{name}: {how} with status {code!r} without a failure", key=f"{cmd}: success")
                C.no_panic(an, name)
                C.used(an)
                C.stats[f"{name}"] = f"{len(ends)} ends; failures: {', '.join(sorted(failing))}"
                if items and not fine:
                    C.und(name, "no successful end")
                for w in ("open", "read") + (("index", "decoder", "dispatch") if cmd == "decode" and items else ()):
                    if w not in failing:
                        C.und(name, f"failure to {w} not reached")


def search(C):
    """the command line tool decodes the submessage whose index pair is the requested one"""
    for items in (1, 2, 3):
        name = f"decode among {items} submessages"
        with C.part(name):
            an, W, ends = sessions(C, "decode", ("big-endian",), items)
            for s, code, how in ends:
                if any(e[0] == "failed" for e in s.events):
                    continue
                k = s.ghost.get("chosen")
                if k is None:
                    for j in range(items):
                        missed(C, an, W, s, j, "decode", name)
                else:
                    require(C, an, s, sum((eq0(k - j) * picked(W, j) for j in range(items)), ZERO), "decode: the submessage decoded has the requested index", f"{name}: submessage {k!r} decoded", key="decode: requested index")
            C.used(an)
