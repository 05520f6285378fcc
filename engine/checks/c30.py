"""Every code table lookup reads the table of that number at that code.  The analysed copy has marker tables: each entry is the
name of its table and its code, so the returned entry tells which table and code it is."""
import re
from common import *
import frontend

PLAIN = [("look_c00", "COMMON_CODE_TABLE_00"), ("look_c11", "COMMON_CODE_TABLE_11")] + \
        [(f"look_{n}", f"CODE_TABLE_{n}") for n in ("0_0", "1_1", "1_2", "1_3", "1_4", "3_1", "4_0", "4_3", "4_4", "4_5", "5_0")]
D41 = (0, 1, 2, 3, 4, 10, 20)
D42 = {0: [*range(0, 8), *range(13, 21), 190, 191], 1: [0, 1, 2], 2: [0, 3, 4, 5], 3: list(range(7)), 4: list(range(11)), 10: [0, 1, 2, 3, 4, 191], 20: [0, 1, 2]}
MAXLEN = 5


def sym(n, hi):
    return P(atom("sym", n, lo=0, hi=hi))


def found(an, st, v):
    """what a value shows: [(table, code)] and codes reported as not implemented"""
    tabs, miss = [], []
    seen = 0

    def walk(x, d=0):
        nonlocal seen
        seen += 1
        if d > 14 or seen > 4000:
            return
        if isinstance(x, str):
            m = re.match(r"^((?:COMMON_)?CODE_TABLE_\w+):(\d+)$", x)
            if m:
                tabs.append((m.group(1), int(m.group(2))))
            return
        if isinstance(x, Ptr):
            if x.cell[0] == "str":
                walk(x.cell[1], d + 1)
                return
            try:
                walk(an.it.settle(st, an.it.load(st, (x.cell, x.path))), d + 1)
            except (Undecided, Fork, PathDead, KeyError):
                pass
            return
        if isinstance(x, Agg):
            if x.name.endswith("::ConversionError"):
                miss.append(x.fields[0])
                return
            for y in x.fields:
                walk(y, d + 1)
        elif isinstance(x, Opq):
            for y in x.args:
                walk(y, d + 1)
        elif isinstance(x, (tuple, list)):
            for y in x:
                walk(y, d + 1)
        elif isinstance(x, VArr):
            for y in x.el:
                walk(y, d + 1)
    try:
        v = an.it.settle(st, v)
    except (Undecided, Fork, PathDead):
        pass
    walk(v)
    return tabs, miss


def entry(C, table, code):
    """the entry of the table at a code within it"""
    def f(_, st, got):
        an = C.an
        tabs, miss = found(an, st, got)
        if tabs == [(table, code)] and not miss:
            return "eq"
        if len(tabs) == 1 and not miss:
            return C.reach(an, st, f"entry {tabs[0][1]} of {tabs[0][0]} for code {code} of {table}")
        if len(miss) == 1 and not tabs:
            return C.reach(an, st, f"not implemented for code {code} of {table}")
        return ("unk", f"shows {tabs!r} {miss!r:.80}")
    return Pred(f, f"{table}[{code}]")


def unimpl(C, code):
    def f(_, st, got):
        an = C.an
        tabs, miss = found(an, st, got)
        if len(tabs) == 1 and not miss:
            return C.reach(an, st, f"entry {tabs[0][1]} of {tabs[0][0]} for a code without entry")
        if len(miss) == 1 and not tabs:
            return C.cmp(an, st, miss[0], code, "code reported")
        return ("unk", f"shows {tabs!r} {miss!r:.80}")
    return Pred(f, f"not implemented: {code!r}")


def own(C, name, d, p, code):
    """no table, or the one of this discipline and category"""
    def f(_, st, got):
        an = C.an
        tabs, miss = found(an, st, got)
        if len(miss) == 1 and not tabs:
            return C.cmp(an, st, miss[0], code, "code reported")
        if len(tabs) == 1:
            k = [int(x) for x in tabs[0][0].split("_")[4:]]
            same = eq0(P(d) - k[0]) if len(k) == 1 else eq0(P(d) - k[0]) * eq0(P(p) - k[1]) if len(k) == 2 else ZERO
            if tabs[0][0].startswith(name) and st.decide(same) is True:
                return C.cmp(an, st, P(tabs[0][1]), code, "code")
            s = st.copy()
            if s.assume(same, 0):
                s.conds += ((same, 0),)
                return C.reach(an, s, f"entry of {tabs[0][0]} for another discipline or category")
        return ("unk", f"shows {tabs!r} {miss!r:.80}")
    return Pred(f, "own table or none")


def exists(C, table):
    return frontend.table_len(table)


def run(C):
    big = (1 << 64) - 1
    an = C.an = An("roots")
    for root, table in PLAIN:
        n = frontend.table_len(table)
        with C.part(table):
            for code in range(n):
                C.equal(an, an.run(root, [P(code)], St()), entry(C, table, code), f"code {code} of {table}", key=f"{table}: entry")
            c = sym("code", big)
            st = St()
            st.add_le0(P(n) - c)
            C.equal(an, an.run(root, [c], st), unimpl(C, c), f"codes beyond {table}", key=f"{table}: beyond")
    # discipline-dependent tables
    for code in [*range(MAXLEN), None]:
        for root, name in (("look_4_1", "CODE_TABLE_4_1"), ("look_4_2", "CODE_TABLE_4_2")):
            with C.part(f"{name} code {code}"):
                d, p = sym("discipline", 255), sym("category", 255)
                st = St()
                c = P(code) if code is not None else sym("code", big)
                if code is None:
                    st.add_le0(P(MAXLEN + 1) - c)
                outs = an.run(root, [d, c] if root == "look_4_1" else [d, p, c], st)
                cases, rest = [], []
                pairs = [(x, None) for x in D41] if root == "look_4_1" else [(x, y) for x in D42 for y in D42[x]]
                for x, y in pairs:
                    t = f"{name}_{x}" + ("" if y is None else f"_{y}")
                    cond = eq0(d - x) if y is None else eq0(d - x) * eq0(p - y)
                    want = entry(C, t, code) if code is not None and code < frontend.table_len(t) else unimpl(C, c)
                    cases.append(((d, x, p, y), want, t))
                n = 0
                for s, v in outs:
                    for (_, x, _, y), want, t in cases:
                        s1 = s.copy()
                        if fix(s1, d, x) and (y is None or fix(s1, p, y)):
                            C.record(C.cmp(an, s1, v, want), f"{t}, code {code}", key=f"{t}")
                            n += 1
                    C.record(C.cmp(an, s, v, own(C, name, d, p, c)), f"{name}: other pairs, code {code}", key=f"{name}: pairs")
                if n < len(cases):
                    C.und(f"{name}: code {code}", "some pairs not reached")
    C.used(an)
    descriptions(C, big)
    listings(C)


def descriptions(C, big):
    # a lookup result shows the entry or the code
    with C.part("shown results"):
        an = C.an = An("roots")
        for s, v in an.run("look_4_4", [P(1)], St()):
            C.equal(an, an.run("look_show", [put(an, s, v)], s), Tup(Some(entry(C, "CODE_TABLE_4_4", 1)), entry(C, "CODE_TABLE_4_4", 1)), "description and text of an entry", key="shown: entry")
        c = sym("code", big)
        st = St()
        st.add_le0(P(MAXLEN + 1) - c)
        for s, v in an.run("look_4_4", [c], st):
            C.equal(an, an.run("look_show", [put(an, s, v)], s), Tup(NONE, unimpl(C, c)), "description and text of a code without entry", key="shown: none")
        C.used(an)
    with C.part("template descriptions"):
        an = C.an = An("roots")
        for code in [*range(MAXLEN), None]:
            st = St()
            a = an.fresh_args(st, "tmpl_describe")[0]
            v = an.it.settle(st, an.it.load(st, (a.cell, a.path)))
            sect = v.fields[0]
            num = P(code) if code is not None else v.fields[1]
            if code is None:
                st.add_le0(P(MAXLEN + 1) - num)
            else:
                st.mem[a.cell] = Agg(v.name, v.variant, [sect, num], v.ty)
            cs = []
            for k, t in ((3, "CODE_TABLE_3_1"), (4, "CODE_TABLE_4_0"), (5, "CODE_TABLE_5_0")):
                cs.append((eq0(P(sect) - k), Some(entry(C, t, code) if code is not None and code < frontend.table_len(t) else unimpl(C, num))))
            cs.append(([ONE - eq0(P(sect) - k) for k in (3, 4, 5)], NONE))
            C.cases(an, an.run("tmpl_describe", [a], st), cs, f"template description, number {code}", key="template description")
        C.used(an)
    with C.part("parameter descriptions"):
        an = C.an = An("roots")
        for code in [*range(MAXLEN), None]:
            st = St()
            a = an.fresh_args(st, "param_describe")[0]
            v = an.it.settle(st, an.it.load(st, (a.cell, a.path)))
            d, cat, num = C.fld(an, v, "discipline"), C.fld(an, v, "category"), C.fld(an, v, "num")
            if code is not None:
                fix(st, num, code)
            else:
                st.add_le0(P(MAXLEN + 1) - num)
            outs = an.run("param_describe", [a], st)
            for s, r in outs:
                for x in D42:
                    for y in D42[x]:
                        t = f"CODE_TABLE_4_2_{x}_{y}"
                        s1 = s.copy()
                        if fix(s1, d, x) and fix(s1, cat, y):
                            C.record(C.cmp(an, s1, r, Some(entry(C, t, code)) if code is not None and code < frontend.table_len(t) else NONE), f"parameter {x}.{y}.{code}", key="parameter description")
        C.used(an)
    with C.part("surface descriptions"):
        an = C.an = An("roots")
        for code in [*range(MAXLEN), None]:
            st = St()
            t, f, v = sym("type", 255), P(atom("sym", "factor", lo=-128, hi=127)), P(atom("sym", "value", lo=-(1 << 31), hi=(1 << 31) - 1))
            if code is not None:
                fix(st, t, code)
            else:
                st.add_le0(P(MAXLEN + 1) - t)
            for s, x in an.run("surface_new", [t, f, v], st):
                C.equal(an, an.run("surface_describe", [put(an, s, x)], s), Tup(entry(C, "CODE_TABLE_4_5", code) if code is not None and code < frontend.table_len("CODE_TABLE_4_5") else unimpl(C, t), ANY, ANY), f"surface type {code}", key="surface description")
        C.used(an)


def listings(C):
    """the description of a submessage: each element through its own table"""
    with C.part("submessage description"):
        an = C.an = An("roots", dict(stream.EXT))
        st = St()
        n = 0
        for st, sub in submessage(C, an, root="sm_describe"):
            good = all([fix(st, sect_octet(sub, 0, 7), 0), fix(st, sect_octet(sub, 3, 13, 2), 0), fix(st, sect_octet(sub, 4, 8, 2), 0), fix(st, sect_octet(sub, 5, 10, 2), 3),
                        fix(st, sect_octet(sub, 4, 10), 2), fix(st, sect_octet(sub, 4, 11), 1), fix(st, sect_octet(sub, 4, 12), 2), fix(st, sect_octet(sub, 4, 18), 1),
                        fix(st, sect_octet(sub, 4, 23), 0), fix(st, sect_octet(sub, 4, 24), 1), fix(st, sect_octet(sub, 4, 25, 4), 7),
                        fix(st, sect_octet(sub, 4, 29), 1), fix(st, sect_octet(sub, 4, 30), 2), fix(st, sect_octet(sub, 4, 31, 4), 9), fix(st, sub.size[4], 34)])
            if not good:
                continue
            want = [("CODE_TABLE_3_1", 0), ("CODE_TABLE_4_0", 0), ("CODE_TABLE_4_1_0", 2), ("CODE_TABLE_4_2_0_2", 1), ("CODE_TABLE_4_3", 2), ("CODE_TABLE_4_5", 0), ("CODE_TABLE_4_5", 1)]
            for s, v in an.run("sm_describe", [sub.arg], st):
                n += 1
                tabs, miss = found(an, s, v)
                t5 = [t for t in tabs if t[0] == "CODE_TABLE_5_0"] or [("CODE_TABLE_5_0", "none")] * (len(miss))
                rest = [t for t in tabs if t[0] != "CODE_TABLE_5_0"]
                if rest == want and len(t5) == 1:
                    C.ok("submessage description")
                elif rest and len(rest) >= 5:
                    C.record(C.reach(an, s, f"shows {tabs} instead of {want}"), "submessage description", key="submessage description")
                else:
                    C.und("submessage description", f"shows {tabs} {miss!r:.60}")
        if not n:
            C.und("submessage description", "no path")
        C.used(an)
