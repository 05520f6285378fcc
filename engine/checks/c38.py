"""Code tables generated from definition files: every entry at its own code, or nothing."""
import itertools
from common import *
import strmodels as T

PLACE = ["Reserved", ")", "Missing", "Reserved for local use", "Future versions", "Missing value", "Reserved for other centres"]
# kinds of rows: text or placeholder with ranges of 1, 2 or 3 codes, and a row without a code
KINDS = [("T", 1), ("T", 2), ("G", 1), ("G", 2), ("U", None)]
LONG = [(("T", 1), ("G", 1), ("T", 2), ("T", 1)), (("T", 1), ("G", 2), ("G", 1), ("T", 1)), (("G", 1), ("T", 1), ("G", 1), ("T", 1)),
        (("T", 3), ("U", None), ("G", 3), ("T", 1)), (("T", 1), ("D", 0), ("T", 1)), (("T", 2), ("D", -1), ("T", 1)), (("T", 1), ("D", -1), ("G", 1), ("T", 1)),
        (("T", 1), ("E", 0), ("T", 1)), (("T", 2), ("E", -1), ("T", 1)), (("G", 3), ("T", 1), ("T", 1), ("G", 1)), (("T", 1), ("G", 1), ("T", 1), ("G", 2), ("T", 2))]


def id_text(C, an, st, name, a, size):
    """the text of a code or code range starting at code a: a string of digits, or two of them with a hyphen between"""
    u8 = an.it.find_ty("u8")
    n = 0 if size is None else 1 if size == 1 else 3
    nums = an.it.__dict__.setdefault("numbers", {})
    arr = SArr(name, P(n), u8, ZERO)
    for i in range(n):
        b = an.it.as_int(st, an.it.arr_get(st, arr, P(i)))
        if i == 1:
            st.assume(eq0(b - 45), 1)
        else:
            st.add_le0(P(48) - b)
            st.add_le0(b - 57)
    nums.pop((name, 2, 1), None)
    if n:
        nums[(name, 0, 1)] = a
    if n == 3:
        nums[(name, 2, 1)] = a + size - 1
        st.add_le0(ONE - a - size)
    return Opq("strb", arr)


def table_of(C, an, st, rows):
    """a code table with the rows of the given kinds; (pointer, [(kind, first code, size, description)])"""
    k = an.find(r"CodeTable::new$")[0]
    (st, v), = an.run_key(k, [Opq("str", "title")], st)
    desc = []
    els = []
    for i, (kind, size) in enumerate(rows):
        a = P(atom("sym", f"code{i}", lo=0, hi=65535))
        if kind in "TD":
            d = T.toks("T", Opq("text", f"description {i}", ""))
        elif kind == "?":
            d = T.text(f"description {i}")
        else:
            d = Opq("str", PLACE[i % len(PLACE)])
        els.append(Agg("tuple", None, [id_text(C, an, st, f"id{i}", a, size), d]))
        desc.append((kind, a, size, d))
    fs = [f[0] for f in an.d["adts"][v.name]["variants"][0]["fields"]]
    new = list(v.fields)
    new[fs.index("data")] = models.vec(VArr(els))
    c = an.it.newcell(st, Agg(v.name, v.variant, new, v.ty), None, "table")
    return st, Ptr(c), desc


def exported(C, an, st, v):
    """the list of texts shown by the exported item, and the text around it"""
    ps = T.pieces(an.it, st, v)
    lists = [p for p in ps if isinstance(p, Opq) and p.tag == "fmt" and p.args[0] == "debug"]
    if len(lists) != 1:
        return None, ps
    x = an.it.settle(st, lists[0].args[2])
    x = an.it.settle(st, x.fields[0]) if isinstance(x, Agg) and x.name == "vec" else x
    return x, ps


def rows_ok(C, an, name, s, out, desc, key):
    n = s.norm(out.len).const
    if n is None:
        C.und(name, "table of undetermined length")
        return
    got = [T.text_of(an.it, s, an.it.arr_get(s, out, P(i))) for i in range(n)]
    live = []
    for kind, a, size, d in desc:
        if kind == "?":
            es = [an.it.settle(s, T.text_eq(an.it, s, d, Opq("str", p))) for p in PLACE]
            ds = [s.decide(e) for e in es]
            kind = "G" if any(x is True for x in ds) else "T"
            if kind == "T":
                for e, x in zip(es, ds):
                    if x is None:
                        s.assume(e, 0)
        live.append((kind, a, size, d))
    if n == 0:
        pos, all_at, texts, empties = ZERO, ONE, 0, 0
        for kind, a, size, d in live:
            if kind in "UDE":
                continue
            all_at = all_at * eq0(a - pos)
            pos = pos + size
            texts += kind == "T"
        if not texts:
            C.ok(name)
            return
        require(C, an, s, ONE - all_at, name, "a table whose codes follow one another is not left empty", key=key)
        return
    for kind, a, size, d in live:
        if kind != "T":
            continue
        for j in range(size):
            at_own = ZERO
            for p, g in enumerate(got):
                if g == d:
                    at_own = at_own + eq0(a + j - p)
            require(C, an, s, at_own, name, f"the text of code {short(a + j)} is at that position of a table of {n}", key=key)
    for p, g in enumerate(got):
        if g == Opq("str", ""):
            C.ok(name)
            continue
        owner = ZERO
        for kind, a, size, d in live:
            if g == d:
                for j in range(size):
                    owner = owner + eq0(a + j - p)
        require(C, an, s, owner, name, f"position {p} holds the text of code {p} or nothing, holds {g!r:.80}", key=key)


def run(C):
    an = An("gen")
    an.it.unroll_limit = 24
    exp = an.find(r"CodeTable::export$")[0]
    cases = []
    for k in (1, 2, 3):
        cases += list(itertools.product(KINDS, repeat=k))
    cases += LONG
    cases += [((("?"), 1),), (("?", 2), ("T", 1)), (("T", 1), ("?", 1), ("T", 1))]
    for rows in cases:
        name = "rows " + " ".join({"T": "text", "G": "gap", "U": "no-code", "D": "descending", "E": "descending-gap", "?": "any"}[k] + (f"*{n}" if (n or 0) > 1 else "") for k, n in rows)
        with C.part(name):
            an.it.havoc.clear()
            st, p, desc = table_of(C, an, St(), rows)
            for s, v in an.run_key(exp, [p, Opq("str", "NAME")], st):
                out, ps = exported(C, an, s, v)
                if out is None or not isinstance(out, ARR):
                    C.und(name, f"exported text {ps!r:.200}")
                    continue
                rows_ok(C, an, name, s, out, desc, "position")
    with C.part("each placeholder leaves a gap"):
        for ph in PLACE:
            an.it.havoc.clear()
            st, p, desc = table_of(C, an, St(), (("T", 1), ("G", 1), ("T", 1)))
            c = st.mem[p.cell]
            fs = [f[0] for f in an.d["adts"][c.name]["variants"][0]["fields"]]
            els = list(c.fields[fs.index("data")].fields[0].el)
            els[1] = Agg("tuple", None, [els[1].fields[0], Opq("str", ph)])
            new = list(c.fields)
            new[fs.index("data")] = models.vec(VArr(els))
            st.mem[p.cell] = Agg(c.name, c.variant, new, c.ty)
            for s, v in an.run_key(exp, [p, Opq("str", "NAME")], st):
                out, ps = exported(C, an, s, v)
                if isinstance(out, ARR):
                    rows_ok(C, an, f"placeholder {ph}", s, out, desc, "gap")
    with C.part("exported item"):
        an.it.havoc.clear()
        st, p, desc = table_of(C, an, St(), (("T", 1),))
        for s, v in an.run_key(exp, [p, Opq("str", "NAME")], st):
            out, ps = exported(C, an, s, v)
            lit = "".join(x if isinstance(x, str) else "\x00" for x in ps)
            if not isinstance(out, ARR):
                continue
            code = [l for l in lit.split("\n") if not l.startswith("///")]
            if any("NAME" in l and l.replace(" ", "") == "constNAME:&[&str]=&\x00;" for l in code) and all(
                    l.startswith("///") or not l or "NAME" in l for l in lit.split("\n")):
                C.ok("exported item")
            else:
                C.und("exported item", f"{lit!r:.200}")
    code_ranges(C, an)
    C.no_panic(an, "generating a table")
    C.used(an)


def code_ranges(C, an):
    """digits and digits-hyphen-digits, read as decimal numbers"""
    fk = an.find(r"CodeRange as .*::from_str$")[0]
    sk = an.find(r"CodeRange::size$")
    u8 = an.it.find_ty("u8")
    for n in range(0, 8):
        with C.part(f"code range of {n} characters"):
            an.it.havoc.clear()
            st = St()
            arr = SArr(f"range{n}", P(n), u8, ZERO)

            def number(s, i, j):
                return P(atom("num", arr.name, P(i), j - i, lo=0, hi=10 ** (j - i) - 1))
            for s, v in an.run_key(fk, [Ptr(an.it.newcell(st, Opq("strb", arr), None, "text"))], st):
                name = f"code range of {n} characters"
                kinds = []
                for i in range(n):
                    b = an.it.as_int(s, an.it.arr_get(s, arr, P(i)))
                    if s.prove_le0(P(48) - b) and s.prove_le0(b - 57):
                        kinds.append("d")
                    elif s.decide(eq0(b - 45)) is True:
                        kinds.append("-")
                    elif not (s.copy().assume(eq0(b - 45), 1)) and not digit_possible(s, b):
                        kinds.append("x")
                    else:
                        kinds.append("?")
                pat = "".join(kinds)
                v = an.it.settle(s, v)
                good = isinstance(v, Agg) and v.variant == 0
                if n and set(pat) == {"d"}:
                    want = (number(s, 0, n), number(s, 0, n))
                elif pat.count("-") == 1 and 0 < pat.index("-") < n - 1 and set(pat) == {"d", "-"}:
                    h = pat.index("-")
                    want = (number(s, 0, h), number(s, h + 1, n))
                else:
                    # not a code or a range: an error, or unspecified (text after the range)
                    if good and (n == 0 or pat[0] in "-x" or set(pat) <= {"x"}):
                        C.bad(name, f"text of shape {pat!r} is read as a code", key="shape")
                    else:
                        C.ok(name)
                    continue
                if want[1] != want[0] and s.decide(le0(want[0] - want[1])) is not True:
                    # a descending range denotes no code
                    s = s.copy()
                    if good and s.decide(le0(want[0] - want[1])) is None and not s.assume(le0(want[0] - want[1]), 1):
                        continue
                    if not good:
                        if s.decide(le0(want[0] - want[1])) is None:
                            C.bad(name, f"range of shape {pat!r} is refused", key="shape")
                        continue
                if not good:
                    C.bad(name, f"code of shape {pat!r} is refused", key="shape")
                    continue
                rg = v.fields[0]
                vs = [an.it.as_int(s, x) for x in rg.fields]
                if len(vs) == 2:
                    for x, w, what in ((vs[0], want[0], "start"), (vs[1], want[1], "end")):
                        C.record(C.cmp(an, s, x, w), name, f"{what} of {pat}", key="shape")
                if sk:
                    s2 = s.copy()
                    if s2.add_le0(want[0] - want[1]):
                        for s3, z in an.run_key(sk[0], [Ptr(an.it.newcell(s2, rg, None, "range"))], s2):
                            C.record(C.cmp(an, s3, z, want[1] - want[0] + 1), name, f"size of {pat}", key="size")


def digit_possible(s, b):
    s = s.copy()
    return s.add_le0(P(48) - b) and s.add_le0(b - 57)
