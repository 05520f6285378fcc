"""Submessage iteration: order, counts and independence of the calls made before."""
import itertools
from common import *

OPS = ("next", 0, 1, 2, 1 << 40, (1 << 64) - 1)


def file_of(C, an, st, k):
    """a file of k submessages: distinct sections each, every second one without a Section 2; (pointer, [(indices, message index)])"""
    g = an.fresh_args(st, "g_iter")[0]
    v = an.it.load(st, (g.cell, g.path))
    ad = an.d["adts"][v.name]
    fs = [f[0] for f in ad["variants"][0]["fields"]]
    new = list(v.fields)
    subs = C.settle(an, st, v.fields[fs.index("submessages")])
    arr = C.settle(an, st, subs.fields[0]) if isinstance(subs, Agg) else subs
    ety = arr.ety if hasattr(arr, "ety") else None
    entries, want = [], []
    opt = next(n for n in an.d["adts"] if n == "core::option::Option")
    for i in range(k):
        e = an.it.fresh(st, ety, f"sub{i}")
        ef = list(e.fields)
        ix = []
        for j in range(9):
            n = P(9 * i + j)
            if j == 2:
                o = models.some(n) if i % 2 == 0 else models.NONE
                ef[j] = Agg(o.name, o.variant, o.fields, getattr(ef[j], "ty", None) or o.ty)
                ix.append(n if i % 2 == 0 else None)
            else:
                ef[j] = n
                ix.append(n)
        entries.append(Agg(e.name, e.variant, ef, e.ty))
        want.append((ix, ef[9]))
    new[fs.index("submessages")] = models.vec(VArr(entries))
    st.mem[g.cell] = Agg(v.name, v.variant, new, v.ty)
    secs = v.fields[fs.index("sections")]
    n = C.settle(an, st, secs.fields[0]).len if isinstance(secs, Agg) else None
    st.add_le0(P(9 * k) - n)
    return g, want, secs


def section(ix, sects):
    def f(C, st, got):
        an = C.an
        r = C.cmp(an, st, C.fld(an, got, "index"), ix)
        if r != "eq":
            return r
        p = C.fld(an, got, "body")
        i = [x[1] for x in getattr(p, "path", ()) if isinstance(x, tuple) and x and x[0] == "i"]
        if len(i) == 1:
            return C.cmp(an, st, i[0], ix)
        if isinstance(p, Ptr) and any(isinstance(x, int) for x in p.path):
            return C.cmp(an, st, P([x for x in p.path if isinstance(x, int)][-1]), ix)
        return ("unk", f"body {p!r:.80}")
    return Pred(f, f"section {ix}")


def item(C, w):
    ix, mi = w

    def f(C, st, got):
        an = C.an
        got = C.settle(an, st, got)
        m, s = got.fields
        rs = [C.cmp(an, st, C.settle(an, st, m).fields[k], P(an.it.as_int(st, mi.fields[k]))) for k in (0, 1)]
        s = C.settle(an, st, s)
        for j in range(9):
            want = section(ix[j], None) if j != 2 else Some(section(ix[j], None)) if ix[j] is not None else NONE
            rs.append(C.cmp(an, st, s.fields[j], want))
        if locked(an, s):
            rs.append(C.reach(an, st, "the submessage keeps the reader borrowed, so asking for another one while it is held panics"))
        return C.allof(rs)
    return Pred(f, f"submessage {ix[0]}")


def locked(an, v, d=0):
    """the value holds a guard of a borrowed cell"""
    if isinstance(v, Agg):
        return v.name == "cellref" or any(locked(an, x, d + 1) for x in v.fields) if d < 6 else False
    return False


def hint(C, an, it, st, left, name, key):
    outs = an.run("it_hint", [it], st.copy())
    if not outs:
        C.bad(f"{name}: remaining count", "asking for the remaining count panics", None, key)
    C.equal(an, outs, Tup(P(left), Some(P(left))), f"{name}: remaining count", key=key)


def histories(C, an, k, depth):
    st0 = St()
    g, want, secs = file_of(C, an, st0, k)
    (s0, x), = an.run("g_iter", [g], st0)
    it0 = put(an, s0, x)
    name = "sequences of calls"
    todo = [(s0, 0, ())]
    seen = set()
    for d in range(depth + 1):
        nxt = []
        for st, pos, hist in todo:
            what = f"{name}: {k} submessages, after {' '.join(map(str, hist)) or 'nothing'}"
            hint(C, an, it0, st, max(k - pos, 0), what, f"{name}: remaining count")
            for s, x in an.run("it_again", [it0], st.copy()):
                again = put(an, s, x)
                outs = an.run("it_next", [again], s)
                C.equal(an, outs, Some(item(C, want[pos])) if pos < k else NONE, f"{what}: re-iteration", key=f"{name}: re-iteration")
            if d == depth:
                continue
            for op in OPS:
                skip = 0 if op == "next" else op
                outs = an.run("it_next", [it0], st.copy()) if op == "next" else an.run("it_nth", [it0, P(op)], st.copy())
                w = f"{what}: {'next' if op == 'next' else f'nth({op})'}"
                if not outs:
                    C.bad(w, "the call panics", None, f"{name}: panic")
                to = pos + skip
                C.equal(an, outs, Some(item(C, want[to])) if to < k else NONE, w, key=f"{name}: {'next' if op == 'next' else 'nth'}")
                for s, _ in outs:
                    h = hist + (("next" if op == "next" else f"nth({op})"),)
                    p2 = min(to + 1, k)
                    sig = (repr(an.it.load(s, (it0.cell, it0.path))), p2)
                    if sig in seen and d > 1:
                        continue
                    seen.add(sig)
                    nxt.append((s, p2, h))
        if len(C.viol) > 3:
            return
        todo = nxt


def run(C):
    for k in range(5):
        with C.part(f"files of {k} submessages"):
            an = C.an = An("roots", dict(stream.EXT))
            histories(C, an, k, 4)
            C.no_panic(an, "sequences of calls")
            C.used(an)
    with C.part("entry points"):
        an = C.an = An("roots", dict(stream.EXT))
        for root in ("g_iter", "g_submessages", "g_into_iter"):
            st = St()
            g, want, secs = file_of(C, an, st, 2)
            for s, x in an.run(root, [g], st):
                it = put(an, s, x)
                hint(C, an, it, s, 2, root, f"{root}: remaining count")
                C.equal(an, an.run("it_next", [it], s), Some(item(C, want[0])), f"{root}: first submessage", key=f"{root}: first submessage")
        for k in (0, 1, 3):
            st = St()
            g, want, secs = file_of(C, an, st, k)
            C.equal(an, an.run("g_len", [g], st.copy()), P(k), f"number of submessages: {k}", key="number of submessages")
            C.equal(an, an.run("g_is_empty", [g], st), P(int(k == 0)), f"emptiness: {k}", key="emptiness")
        C.used(an)
    with C.part("any position"):
        an = C.an = An("roots", dict(stream.EXT))
        anywhere(C, an)
        C.no_panic(an, "any position")
        C.used(an)


def anywhere(C, an):
    """a file of any number of submessages, jumped into anywhere"""
    st = St()
    g = an.fresh_args(st, "g_iter")[0]
    n = P(atom("sym", "n", lo=0, hi=(1 << 64) - 1))
    name = "any position"
    (s, x), = an.run("g_iter", [g], st)
    total = [y for s1, y in an.run("g_len", [g], s.copy())]
    it = put(an, s, x)
    for s0, t in [(s, P(an.it.as_int(s, total[0])))]:
        for inside in (1, 0, -1):
            s1 = s0.copy()
            if inside < 0:
                # just past the end: one more than the last
                s1 = s0.copy()
                n = t
            if inside >= 0 and not (s1.add_le0(n + 1 - t) if inside else s1.add_le0(t + 1 - n)):
                continue
            for s2, y in an.run("it_nth", [it, n], s1):
                if inside == 1:
                    left = t - n - 1
                    C.equal(an, an.run("it_hint", [it], s2.copy()), Tup(left, Some(left)), f"{name}: remaining count after nth", key=f"{name}: remaining count")
                else:
                    C.equal(an, [(s2, y)], NONE, f"{name}: nothing past the end", key=f"{name}: past the end")
                    C.equal(an, an.run("it_hint", [it], s2.copy()), Tup(ZERO, Some(ZERO)), f"{name}: remaining count past the end", key=f"{name}: past the end")
                    C.equal(an, an.run("it_next", [it], s2.copy()), NONE, f"{name}: next past the end", key=f"{name}: past the end")
