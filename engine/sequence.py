"""Abstract reachability of the submessage parsers over all section sequences.

A parser (section-valued, or index-valued with its section list) is run one `next()` at a time, its input stream being a hook that
may deliver any section number, a read error or the end of data. After each call the parser's own state is abstracted to: its
enum/bool/small-integer fields, the identity of each section it holds (by its role in the grammar's own record of the history), and
the differences between its counters and the true ones. The states reached this way are finitely many; each is explored with
symbolic counters until nothing new appears, so that what is established holds for histories of any length. A mismatch is confirmed
by replaying a history from the start through the code before it is reported."""
from common import *
from an import *

ALL = list(range(9)) + ["other", "err", "end"]


def sinfo(an):
    return next(n for n in an.d["adts"] if n.endswith("context::SectionInfo"))


def sect(an, num, i):
    a = sinfo(an)
    fs = [f[0] for f in an.d["adts"][a]["variants"][0]["fields"]]
    d = dict(num=P(num) if num != "other" else P(atom("sym", f"num {i}", lo=9, hi=255)), offset=P(atom("sym", f"off {i}", lo=0, hi=1 << 40)),
             size=P(atom("sym", f"size {i}", lo=0, hi=1 << 31)), body=models.some(Opq("body", str(i))))
    return Agg(a, None, [d[f] for f in fs])


class Ghost:
    """what the grammar knows: phase, counters, sections of the message by (name, number, position)"""
    F = ("phase", "m", "k", "n", "s0", "s1", "s2", "s3", "pend", "pushed")

    def __init__(self, **kw):
        for f in self.F:
            setattr(self, f, kw.get(f))

    def copy(self, **kw):
        return Ghost(**{**{f: getattr(self, f) for f in self.F}, **kw})

    @staticmethod
    def start():
        return Ghost(phase="start", m=ZERO, k=ZERO, n=ZERO, s0=None, s1=None, s2=None, s3=None, pend=(), pushed=ZERO)


def step(g, choices):
    """the grammar's verdict on one next(): (expected, new ghost); choices: [(token name, kind)] delivered in this call"""
    q = list(g.pend)
    n = g.n
    for name, kind in choices:
        q.append((name, kind, n))
        n = n + 1
    g = g.copy(n=n, pend=())
    if g.phase == "dead":
        return ("none",), g
    s4 = s5 = s6 = s7 = None

    def more():
        return ("more",), g

    while True:
        if not q:
            return more()
        name, kind, ix = q[0]
        tok = (name, kind, ix)
        if g.phase == "7":
            # the group is complete; the next item only tells whether the message ends here
            if kind in ("err", "end"):
                return (("err", name) if kind == "err" else ("err", "UnexpectedEndOfData")), g.copy(phase="dead")
            toks = (g.s0, g.s1, g.s2, g.s3, s4, s5, s6, s7)
            if kind == 8:
                q.pop(0)
                return ("sub", g.m, g.k, toks, tok), g.copy(phase="start", m=g.m + 1, k=ZERO, s0=None, s1=None, s2=None, s3=None, pend=tuple(q))
            return ("sub", g.m, g.k, toks, None), g.copy(phase="sub", k=g.k + 1, pend=tuple(q))
        q.pop(0)
        if kind == "end":
            if g.phase == "start":
                return ("none",), g.copy(phase="ended")
            return ("err", "UnexpectedEndOfData"), g.copy(phase="dead")
        if kind == "err":
            return ("err", name), g.copy(phase="dead")
        want = {"start": (0,), "0": (1,), "1": (2, 3, 4), "sub": (2, 3, 4), "2": (3,), "3": (4,), "4": (5,), "5": (6,), "6": (7,)}[g.phase]
        if kind not in want:
            return ("err", "InvalidSectionOrder"), g.copy(phase="dead")
        if g.phase == "1" and kind == 4:
            return ("err", "NoGridDefinition"), g.copy(phase="dead")
        if kind < 4:
            g = g.copy(**{f"s{kind}": tok})
        elif kind == 4:
            s4 = tok
        elif kind == 5:
            s5 = tok
        elif kind == 6:
            s6 = tok
        else:
            s7 = tok
        g = g.copy(phase=str(kind))


class Machine:
    """one parser: how to create it, call it and read what it yields"""

    def __init__(self, C, an, what):
        self.C, self.an, self.what = C, an, what
        it = an.it
        it.unroll_limit = 80
        it.hooks["<grib::context::SectionBody as core::clone::Clone>::clone"] = lambda it, st, fn, args, *r: [(st, it.ptr_load(st, args[0]) if isinstance(args[0], Ptr) else args[0])]
        self.script, self.prefix = None, ""
        self.cacher = None
        it.havoc.clear()
        st = St()
        if what == "file":
            it.hooks["<grib::reader::Grib2SectionStream<R> as core::iter::traits::iterator::Iterator>::next"] = self.feed
            return
        if what == "sections":
            it.hooks["<vp_roots::Sects as core::iter::traits::iterator::Iterator>::next"] = self.feed
            (st, v), = an.run(an.find(r"parser_new$")[0], [Agg("feed", None, [])], st)
            self.next = an.find(r"parser_next$")[0]
            self.next = an.key(self.next)
        else:
            it.hooks["<grib::reader::Grib2SectionStream<R> as core::iter::traits::iterator::Iterator>::next"] = self.feed
            inst = r"<&mut grib::reader::Grib2SectionStream<grib::reader::SeekableGrib2Reader<vp_roots::Src>>>$"
            f = it.newcell(st, Agg("feed", None, []), None, "feed")
            self.cacher = it.newcell(st, models.vec(VArr([])), None, "cacher")
            (st, v), = an.run_key(an.find(r"Grib2SubmessageIndexStream.*::new$", inst)[0], [Ptr(f)], st)
            (st, v), = an.run_key(an.find(r"Grib2SubmessageIndexStream.*::with_cacher$", inst)[0], [v, Ptr(self.cacher)], st)
            self.next = an.find(r"Grib2SubmessageIndexStream<I> as .*::next$", inst)[0]
        self.st0 = st
        self.cell = it.newcell(st, v, None, "parser")
        self.v0 = v

    def feed(self, it, st, fn, args, aty, dty, where):
        i = sum(1 for e in st.events if e[0] == "env")
        opts = ALL
        if self.script is not None:
            opts = [self.script[i] if i < len(self.script) else "end"]
        elif i >= 14:
            # no grammar needs so many sections for one submessage: not followed further
            return []
        out = []
        for k in opts:
            s = st.copy() if len(opts) > 1 else st
            name = f"{self.prefix}{i}"
            s.events = s.events + (("env", name, k),)
            if k == "err":
                v = models.some(models.err(Opq("readerr", name)))
            elif k == "end":
                v = models.NONE
            else:
                v = models.some(models.ok(sect(self.an, k, name)))
            out.append((s, v))
        return out

    # ---- reading results
    def result(self, st, r):
        """('none',) | ('err', name) | ('sub', m, k, [8 values], end, raw)"""
        C, an = self.C, self.an
        r = C.settle(an, st, r)
        if r.variant == 0:
            return ("none",)
        r = C.settle(an, st, r.fields[0])
        x = C.settle(an, st, r.fields[0])
        if r.variant == 1:
            if isinstance(x, Opq) and x.tag == "readerr":
                return ("err", x.args[0])
            return ("err", C.vname(an, x) if isinstance(x, Agg) else repr(x)[:60])
        if self.what == "sections":
            m, k, s = x.fields
            s = C.settle(an, st, s)
            return ("sub", P(an.it.as_int(st, m)), P(an.it.as_int(st, k)), list(s.fields[:8]), s.fields[8])
        mi = C.settle(an, st, x.fields[9])
        return ("sub", P(an.it.as_int(st, mi.fields[0])), P(an.it.as_int(st, mi.fields[1])), list(x.fields[:8]), x.fields[8])

    def slot(self, tok, j):
        """pattern of slot j holding the section"""
        if tok is None:
            return NONE
        w = sect(self.an, tok[1], tok[0]) if self.what == "sections" else tok[2]
        return Some(w) if j == 2 else w

    def compare(self, st, got, want):
        """[(aspect, 'eq' | ('ne'|'unk', why), text)]"""
        C, an = self.C, self.an
        out = []
        if want[0] == "more":
            return [("order", ("ne", "") if got[0] == "err" else ("unk", ""), f"after a prefix that may still become valid: {got[:3]!r:.120}")]
        if got[0] != want[0] or got[0] == "err" and got[1] != want[1]:
            w = {"none": "nothing more", "err": f"error {want[1]}" if want[0] == "err" else "", "sub": "a submessage"}[want[0]]
            h = {"none": "nothing more", "err": f"error {got[1]}" if got[0] == "err" else "", "sub": "a submessage"}[got[0]]
            return [("order", ("ne", ""), f"expected {w}, got {h}")]
        out.append(("order", "eq", ""))
        if want[0] == "sub":
            for nm, a, b in (("message", got[1], want[1]), ("submessage", got[2], want[2])):
                out.append(("number", C.cmp(an, st, a, b), f"{nm} number"))
            for j, tok in enumerate(want[3]):
                w = self.slot(tok, j)
                r = C.cmp(an, st, got[3][j], w)
                if j == 2 and r != "eq":
                    g = C.settle(an, st, got[3][2])
                    if isinstance(g, Agg) and (g.variant == 0) != (tok is None):
                        r = ("ne", f"Section 2 {'missing' if tok else 'of another message'}")
                out.append(("section", r, f"Section {j} of the submessage"))
            if want[4] is not None:
                out.append(("section", C.cmp(an, st, got[4], self.slot(want[4], 8)), "End Section of the message's last submessage"))
        return out

    def cached(self, st, got, want, g0, g1, choices):
        """the section list after the call against the sections consumed by it"""
        if self.cacher is None or want[0] != "sub":
            return []
        C, an = self.C, self.an
        v = C.settle(an, st, an.it.load(st, (self.cacher, ())))
        arr = C.settle(an, st, v.fields[0])
        toks = list(g0.pend) + [(n, k, None) for n, k in choices]
        toks = toks[:len(toks) - len(g1.pend)]
        if not isinstance(arr, ARR) or st.norm(arr.len).const is None:
            return [("list", ("unk", "section list"), "")]
        n = st.norm(arr.len).const
        if n != len(toks):
            return [("list", ("ne", ""), f"the section list grows by {n} for {len(toks)} sections")]
        return [("list", C.cmp(an, st, an.it.arr_get(st, arr, P(i)), sect(an, k, nm)), f"section {i} of the list") for i, (nm, k, _) in enumerate(toks)]

    # ---- abstraction
    def leaves(self, v, ty=None):
        """yields (path, kind, value) of the parser's state; kind: small | count | sect | other"""
        an = self.an
        si = sinfo(an)

        def walk(v, path, t):
            if isinstance(v, Agg) and v.name == si:
                yield path, "sect", v
            elif isinstance(v, Agg):
                fts = []
                ad = an.d["adts"].get(v.name)
                if ad and v.variant is not None and v.variant < len(ad["variants"]):
                    fts = [f[1] for f in ad["variants"][v.variant]["fields"]]
                elif ad and len(ad["variants"]) == 1:
                    fts = [f[1] for f in ad["variants"][0]["fields"]]
                yield path, "shape", f"{v.name}#{v.variant}"
                for i, x in enumerate(v.fields):
                    yield from walk(x, path + (i,), fts[i] if i < len(fts) else None)
            elif isinstance(v, Poly):
                tt = an.it.T(t) if isinstance(t, int) else None
                small = tt and (tt["k"] == "bool" or tt["k"] == "int" and tt.get("w", 64) <= 8)
                yield path, "small" if small else "count", v
            elif isinstance(v, Ptr):
                yield path, "shape", f"ptr {v.cell[0] if isinstance(v.cell, tuple) else v.cell}"
            else:
                yield path, "other", v
        yield from walk(v, (), None)

    def rebuild(self, v, new, path=()):
        if path in new:
            return new[path]
        if isinstance(v, Agg) and v.name != sinfo(self.an):
            return Agg(v.name, v.variant, [self.rebuild(x, new, path + (i,)) for i, x in enumerate(v.fields)], v.ty)
        return v

    def settle_deep(self, st, v, d=0):
        v = self.C.settle(self.an, st, v)
        if isinstance(v, Agg) and d < 12:
            return Agg(v.name, v.variant, [self.settle_deep(st, x, d + 1) for x in v.fields], v.ty)
        if isinstance(v, Poly):
            return st.norm(v)
        return v


ROLES = ("s0", "s1", "s2", "s3")
NUMS = ("m", "k", "n")


def canon(M, st, v, g):
    """(key, template value, counters [(path, Poly)], ghost numbers {name: Poly}, ghost roles)"""
    an = M.an
    names = {}
    ghost_roles = []
    gn = {f: st.norm(getattr(g, f)) for f in NUMS}
    for r in ROLES:
        t = getattr(g, r)
        if t is not None:
            names[t[0]] = r
            ghost_roles.append((r, t[1]))
            gn["i" + r] = st.norm(P(t[2]))
    for j, t in enumerate(g.pend):
        names[t[0]] = f"p{j}"
        ghost_roles.append((f"p{j}", t[1]))
        gn[f"ip{j}"] = st.norm(P(t[2]))
    key, counts, new = [g.phase, tuple(ghost_roles)], [], {}
    stale = {}
    for path, kind, x in M.leaves(v):
        if kind == "sect":
            fs = [f[0] for f in an.d["adts"][sinfo(an)]["variants"][0]["fields"]]
            off = st.norm(P(x.fields[fs.index("offset")]))
            nm = None
            for a in off.atoms():
                at_ = A(a) if isinstance(a, int) else a
                if at_.op == "sym" and str(at_.args[0]).startswith("off "):
                    nm = at_.args[0][4:]
            if nm is None:
                if off.const == 0:
                    key.append((path, "default section"))
                    continue
                raise Undecided(f"section {x!r:.80}")
            num = st.norm(P(x.fields[fs.index("num")]))
            role = names.get(nm) or stale.setdefault(nm, f"x{len(stale)}")
            n = num.const if num.const is not None else "other"
            w = sect(an, n, nm)
            if repr(w) != repr(M.settle_deep(st, x)):
                raise Undecided(f"altered section {x!r:.80}")
            new[path] = sect(an, n, role)
            key.append((path, role, n))
        elif kind == "count":
            counts.append((path, x))
            key.append((path, "count"))
        elif kind in ("shape", "small"):
            key.append((path, repr(x)))
        else:
            key.append((path, kind, repr(x)))
    return tuple(key), M.rebuild(v, new), counts, gn


class State:
    def __init__(self, key, tpl, g):
        self.key, self.tpl, self.g = key, tpl, g
        self.gconst = None     # ghost number -> const | "sym"
        self.cand = None       # path -> set of ("c", const) / (ghost number, diff)
        self.hist = ()         # sections delivered on the way from the start

    def join(self, counts, gn):
        changed = False
        if self.gconst is None:
            self.gconst = {f: p.const if p.const is not None else "sym" for f, p in gn.items()}
            self.cand = {}
            for path, p in counts:
                c = set()
                if p.const is not None:
                    c.add(("c", p.const))
                for f, q in gn.items():
                    if (p - q).const is not None:
                        c.add((f, (p - q).const))
                self.cand[path] = c
            return True
        for f, p in gn.items():
            if self.gconst[f] != "sym" and p.const != self.gconst[f]:
                self.gconst[f] = "sym"
                changed = True
        for path, p in counts:
            keep = set()
            for f, d in self.cand[path]:
                q = p if f == "c" else p - gn[f]
                if q.const == d:
                    keep.add((f, d))
            if keep != self.cand[path]:
                self.cand[path] = keep
                changed = True
        return changed

    def instantiate(self, M):
        """(state, parser value, ghost) standing for all the states joined here"""
        st = M.st0.copy()
        nums = {}
        for f, c in self.gconst.items():
            nums[f] = P(c) if c != "sym" else P(atom("sym", f"{f} so far" if f in NUMS else f"index {f}", lo=0, hi=1 << 48))
        for f in nums:
            if f not in NUMS:
                st.add_le0(nums[f] + 1 - nums["n"])
        new, free = {}, False
        for path, c in self.cand.items():
            pick = sorted(c, key=lambda x: (x[0] != "c", x[1] != 0, x[0] in NUMS, str(x)))
            if pick:
                f, d = pick[0]
                new[path] = P(d) if f == "c" else nums[f] + d
            else:
                free = True
                new[path] = P(atom("sym", f"state {path}", lo=0, hi=1 << 48))
        v = M.rebuild(self.tpl, new)
        kinds = dict(self.key[1])
        g = Ghost(phase=self.key[0], m=nums["m"], k=nums["k"], n=nums["n"], pushed=ZERO,
                  pend=tuple((f"p{j}", kinds[f"p{j}"], nums[f"ip{j}"]) for j in range(4) if f"p{j}" in kinds),
                  **{r: (r, kinds[r], nums["i" + r]) if r in kinds else None for r in ROLES})
        st.mem[M.cell] = v
        return st, g, free


def choices_of(st):
    return [(e[1], e[2]) for e in st.events if e[0] == "env"]


ASPECTS = ("order", "number", "section", "list")


def listed(an, st, cell):
    """[(state, array)]: the section list, the state split when what it holds depends on more than the history"""
    r = []
    for s, v in an.it.settle_all(st.copy(), an.it.load(st, (cell, ()))):
        r += an.it.settle_all(s, v.fields[0])
    return r


def replay(C, M, hist, aspects, label):
    """run a concrete history from the start; every mismatch met is a violation. True if one was met"""
    an = M.an
    an.it.havoc.clear()
    M.script, M.prefix = list(hist), "r"
    found = False
    try:
        st = M.st0.copy()
        st.mem[M.cell] = M.v0
        if M.cacher is not None:
            st.mem[M.cacher] = models.vec(VArr([]))
        g = Ghost.start()
        used = seen = 0
        for _ in range(len(hist) + 3):
            outs = an.run_key(M.next, [Ptr(M.cell)], st)
            if len(outs) != 1:
                C.und(label, f"{len(outs)} outcomes of a fixed history")
                return found
            st, r = outs[0]
            ch = choices_of(st)[used:]
            used += len(ch)
            want, g1 = step(g, ch)
            got = M.result(st, r)
            for aspect, res, text in M.compare(st, got, want):
                if aspect in aspects:
                    if isinstance(res, tuple) and res[0] == "ne":
                        found = True
                    if res != "eq" or not found:
                        C.record(res, f"{label}", f"{text} after sections {' '.join(str(k) for _, k in choices_of(st))[-160:]} ({len(choices_of(st))} items)", key=f"{aspect} ({M.what})")
            if M.cacher is not None and "list" in aspects and want[0] == "sub" and got[0] == "sub":
                toks = choices_of(st)
                toks = toks[:len(toks) - len(g1.pend)]
                for s1, arr in listed(an, st, M.cacher):
                    n = s1.norm(arr.len).const
                    if n != len(toks):
                        C.record(C.reach(an, s1, f"the section list holds {n} of the {len(toks)} sections read"), label, f"after {len(toks)} sections", key="section list")
                        found = True
                        continue
                    for i, (nm, k) in list(enumerate(toks))[seen:]:
                        res = C.cmp(an, s1, an.it.arr_get(s1, arr, P(i)), sect(an, k, nm))
                        C.record(res, label, f"section {i} of the list", key="section list")
                        found |= res != "eq" and res[0] == "ne"
                seen = len(toks)
            g = g1
            if got[0] != want[0] or g.phase == "ended":
                break
            if g.phase == "dead" and want[0] == "none":
                break
        return found
    finally:
        M.script, M.prefix = None, ""


def pumped(hist):
    """histories that put the tail of a history after more messages or more groups"""
    out = [list(hist)]
    msg = [0, 1, 3, 4, 5, 6, 7, 8]
    two = [0, 1, 2, 3, 4, 5, 6, 7, 8]
    for m in (1, 2, 3, 9):
        out.append(msg * m + list(hist))
        out.append(two * m + list(hist))
    for k in (1, 2, 3, 9, 300):
        out.append([0, 1, 3] + [4, 5, 6, 7] * (k + 1) + [8] + list(hist))
        out.append([0, 1, 2] + [3, 4, 5, 6, 7] * k + [2, 3, 4, 5, 6, 7, 8] + list(hist))
    out.append(msg * 300 + list(hist))
    return out


def explore(C, M, aspects, limit=60):
    """close the set of abstract states; judge every outcome"""
    an = M.an
    states, work = {}, []
    name = f"every history ({M.what})"
    st = M.st0.copy()
    g = Ghost.start()
    v = M.settle_deep(st, M.v0)
    key, tpl, counts, gn = canon(M, st, v, g)
    s = states[key] = State(key, tpl, g)
    s.join(counts, gn)
    work.append(s)
    suspects, oks = {}, {}
    rounds = npaths = 0
    while work:
        cur = work.pop(0)
        rounds += 1
        if len(states) > limit or rounds > 4 * limit:
            C.und(name, f"{len(states)} abstract states and no closure")
            break
        an.it.havoc.clear()
        st, g, free = cur.instantiate(M)
        if M.cacher is not None:
            st.mem[M.cacher] = models.vec(VArr([]))
        M.prefix = "t"
        base = len(st.conds)
        outs = an.run_key(M.next, [Ptr(M.cell)], st)
        suspects[cur.key] = []
        oks[cur.key] = 0
        for s1, r in outs:
            npaths += 1
            ch = choices_of(s1)
            want, g1 = step(g, ch)
            got = M.result(s1, r)
            hist = cur.hist + tuple(k for _, k in ch)
            bad = False
            for aspect, res, text in M.compare(s1, got, want) + M.cached(s1, got, want, g, g1, ch):
                if res == "eq":
                    if aspect in aspects:
                        oks[cur.key] += 1
                else:
                    bad = True
                    if aspect in aspects:
                        suspects[cur.key].append((hist, aspect, text, res))
            if bad or got[0] == "none" and g1.phase == "ended":
                continue
            if g1.phase == "ended":
                continue
            try:
                v1 = M.settle_deep(s1, s1.mem[M.cell])
                key, tpl, counts, gn = canon(M, s1, v1, g1)
            except Undecided as e:
                C.und(name, str(e)[:120])
                continue
            t = states.get(key)
            if t is None:
                t = states[key] = State(key, tpl, g1)
                t.hist = hist
            if t.join(counts, gn) and t not in work:
                work.append(t)
    C.stats[f"abstract parser states ({M.what})"] = len(states)
    C.stats[f"paths ({M.what})"] = npaths
    C.sample(f"{M.what}: states {[k[:2] for k in states]}")
    done = set()
    for _ in range(sum(oks.values())):
        C.ok(name)
    for hist, aspect, text, res in [x for l in suspects.values() for x in l]:
        sig = (aspect, text)
        if sig in done:
            continue
        done.add(sig)
        ok = False
        for h in pumped(hist):
            if any(k == "other" for k in h):
                pass
            if replay(C, M, h, aspects, f"history ending in {' '.join(map(str, hist[-10:]))}"):
                ok = True
                break
        if not ok:
            C.und(name, f"{text}: {res!r:.100} (no history from the start confirms it)")
    return states


# ---------------------------------------------------------------- whole files

GROUPS = {"a": [3, 4, 5, 6, 7], "b": [2, 3, 4, 5, 6, 7], "c": [4, 5, 6, 7]}


def message(gs):
    return [0, 1] + [x for g in gs for x in GROUPS[g]] + [8]


WHOLE = [[], ["a"], ["b"], ["ac"], ["ba", "a"], ["bcc", "b"], ["ab", "ca"[::-1]], ["a", "b", "a"], ["aba", "bac"]]


def histories():
    hs = [[x for m in w for x in message(m)] for w in WHOLE]
    out = list(hs)
    for h in (hs[1], hs[2], hs[4]):
        for i in range(len(h) + 1):
            for x in ("err", "end", 3, 8, 0, "other"):
                out.append(h[:i] + [x])
    return [list(x) for x in dict.fromkeys(tuple(h) for h in out)]


def expected(hist):
    """('ok', sections, submessages) or ('err', kind) by the grammar"""
    hist = list(hist)
    g, subs, pos = Ghost.start(), [], 0
    while True:
        # deliver items one by one until the verdict is known
        ch = []
        while True:
            want, g1 = step(g, ch)
            if want[0] != "more":
                break
            k = hist[pos] if pos < len(hist) else "end"
            ch.append((str(pos), k))
            pos += 1
        g = g1
        if want[0] == "none":
            return ("ok", [(str(i), k) for i, k in enumerate(hist[:pos]) if k not in ("err", "end")], subs)
        if want[0] == "err":
            return want
        subs.append(want)


def whole_files(C, aspects, hist=None, roots=("open", "open_slice")):
    """Grib2 as read from a stream with the given sections"""
    an = An("roots")
    C.an = an
    M = Machine(C, an, "file")
    for root in roots:
        k = an.key(root)
        for h in histories() if hist is None else hist:
            name = f"{root}: sections {' '.join(map(str, h))}"
            if root != "open" and len(h) % 3:
                continue
            with C.part(name):
                an.it.havoc.clear()
                M.script = h
                st = St()
                outs = an.run_key(k, an.fresh_key_args(st, k) if root == "open_slice" else [Opq("src")], st)
                want = expected(h)
                for st, v in outs:
                    v = C.settle(an, st, v)
                    if (v.variant == 0) != (want[0] == "ok"):
                        if "order" in aspects:
                            C.bad(name, f"expected {'a file' if want[0] == 'ok' else 'error ' + want[1]}, got {'a file' if v.variant == 0 else 'an error'}", key="order (file)")
                        continue
                    if v.variant == 1:
                        if "order" in aspects:
                            e = C.settle(an, st, v.fields[0])
                            x = C.settle(an, st, e.fields[0]) if isinstance(e, Agg) and e.fields else e
                            nm = x.args[0] if isinstance(x, Opq) and x.tag == "readerr" else C.vname(an, x) if isinstance(x, Agg) else repr(x)
                            C.ok(name) if nm == want[1] else C.bad(name, f"expected error {want[1]}, got {nm}", key="order (file)")
                        continue
                    if "order" in aspects:
                        C.ok(name)
                    g = C.settle(an, st, v.fields[0])
                    fs = [f[0] for f in an.d["adts"][g.name]["variants"][0]["fields"]]
                    secs = C.settle(an, st, C.settle(an, st, g.fields[fs.index("sections")]).fields[0])
                    subs = C.settle(an, st, C.settle(an, st, g.fields[fs.index("submessages")]).fields[0])
                    if "list" in aspects:
                        n = st.norm(secs.len).const
                        if n != len(want[1]):
                            C.bad(name, f"section list of {n} for {len(want[1])} sections", key="section list (file)")
                        else:
                            C.record(C.allof([C.cmp(an, st, an.it.arr_get(st, secs, P(i)), sect(an, kd, nm)) for i, (nm, kd) in enumerate(want[1])]), name, "section list", key="section list (file)")
                    n = st.norm(subs.len).const
                    if n != len(want[2]):
                        if "order" in aspects or "list" in aspects:
                            C.bad(name, f"{n} submessages instead of {len(want[2])}", key="submessages (file)")
                        continue
                    for i, w in enumerate(want[2]):
                        x = C.settle(an, st, an.it.arr_get(st, subs, P(i)))
                        got = M.result(st, models.some(models.ok(x)))
                        for aspect, res, text in M.compare(st, got, w):
                            if aspect in aspects or aspect == "section" and "list" in aspects:
                                C.record(res, name, f"submessage {i}: {text}", key=f"{aspect} (file)")
    C.used(an)


def parsers(C, aspects, what=("sections", "indices")):
    for w in what:
        with C.part(f"parser of {w}"):
            an = An("roots")
            C.an = an
            explore(C, Machine(C, an, w), aspects)
            C.used(an)
