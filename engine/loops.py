"""Loops: one generalised state per control/shape partition at the loop header.  Every leaf of the state that the body
changes becomes either an affine function of a ghost iteration counter, an accumulated sequence, or an unconstrained symbol;
linear facts about the symbols are kept only when they hold on entry and are preserved by every path through the body."""
import re
from terms import *
from interp import *
import terms

CAP = 48


# ---------------------------------------------------------------- liveness of locals

def _places_in(rv, use):
    k = rv[0]
    if k == "use":
        _op(rv[1], use)
    elif k == "rep":
        _op(rv[1], use)
    elif k in ("ref", "raw"):
        _pl(rv[2], use)
    elif k == "cast":
        _op(rv[2], use)
    elif k == "bin":
        _op(rv[2], use)
        _op(rv[3], use)
    elif k == "un":
        _op(rv[2], use)
    elif k == "discr":
        _pl(rv[1], use)
    elif k == "agg":
        for o in rv[2]:
            _op(o, use)


def _op(o, use):
    if o[0] in ("cp", "mv"):
        _pl(o[1], use)


def _pl(p, use):
    use.add(p[0])
    for e in p[1]:
        if e[0] == "i" and e != "*":
            use.add(e[1])


def _def(p, use, kill):
    """effect of writing place p"""
    if not p[1]:
        kill.add(p[0])
        return
    for e in p[1]:
        if e == "*":
            use.add(p[0])
        elif e[0] == "i":
            use.add(e[1])
    # a partial write keeps the other fields alive
    use.add(p[0])


def liveness(b):
    r = b.get("_live")
    if r is not None:
        return r
    nb = len(b["blocks"])
    gen, kill, succ = [], [], []
    for stmts, term, _ in b["blocks"]:
        g, k = set(), set()

        def use_of(f):
            u = set()
            f(u)
            g.update(u - k)
        for s in stmts:
            if s[0] == "=":
                use_of(lambda u: _places_in(s[2], u))
                u, kk = set(), set()
                _def(s[1], u, kk)
                g.update(u - k)
                k |= kk
            elif s[0] == "sd":
                use_of(lambda u: _pl(s[1], u))
        t = term
        if t[0] == "switch":
            use_of(lambda u: _op(t[1], u))
        elif t[0] == "drop":
            use_of(lambda u: _pl(t[1], u))
        elif t[0] == "assert":
            use_of(lambda u: _op(t[1], u))
            for o in t[3]:
                if isinstance(o, list) and o and o[0] in ("cp", "mv"):
                    use_of(lambda u: _op(o, u))
        elif t[0] == "call":
            use_of(lambda u: _op(t[1], u))
            for o in t[2]:
                use_of(lambda u: _op(o, u))
            u, kk = set(), set()
            _def(t[3], u, kk)
            g.update(u - k)
            k |= kk
        elif t[0] == "ret":
            if 0 not in k:
                g.add(0)
        gen.append(g)
        kill.append(k)
        succ.append(succs(t))
    live = [set(x) for x in gen]
    ch = True
    while ch:
        ch = False
        for i in range(nb - 1, -1, -1):
            n = set(gen[i])
            for s in succ[i]:
                n |= live[s] - kill[i]
            if n != live[i]:
                live[i] = n
                ch = True
    b["_live"] = live
    return live


# ---------------------------------------------------------------- values as skeleton + leaves

class Splits(Exception):
    def __init__(self, c):
        self.c = c


def leaves(v, out, pos, sk):
    """append (pos, leaf) pairs; sk receives the skeleton"""
    if isinstance(v, Poly):
        out.append((pos, v))
        sk.append("i")
    elif isinstance(v, F):
        out.append((pos, v))
        sk.append("f")
    elif isinstance(v, Agg):
        sk.append(("A", v.name, v.variant, len(v.fields)))
        if v.name == "vec" and isinstance(v.fields[0], ARR):
            out.append((pos + ("b",), v.fields[0]))
            sk.append("arr")
            return
        for i, x in enumerate(v.fields):
            leaves(x, out, pos + (i,), sk)
    elif isinstance(v, VArr):
        sk.append(("V", len(v.el)))
        for i, x in enumerate(v.el):
            leaves(x, out, pos + (("e", i),), sk)
    elif isinstance(v, ARR):
        out.append((pos, v))
        sk.append("arr")
    elif isinstance(v, Ptr):
        sk.append(("P", v.cell))
        for i, e in enumerate(v.path):
            if isinstance(e, tuple) and e[0] in ("i", "sl"):
                sk.append(e[0])
                for j, x in enumerate(e[1:]):
                    out.append((pos + (("pp", i, j),), x))
            else:
                sk.append(e)
        if v.meta is not None:
            for j, x in enumerate(v.meta):
                if isinstance(x, Poly):
                    out.append((pos + (("pm", j),), x))
        sk.append(v.meta is not None)
    elif isinstance(v, Ite):
        raise Splits(v.c)
    elif isinstance(v, Uninit):
        sk.append("U")
    elif isinstance(v, Opq):
        out.append((pos, v))
        sk.append("o")
    elif isinstance(v, SymEnum):
        out.append((pos, v))
        sk.append(("s", v.ty))
    elif isinstance(v, FnV):
        sk.append(v)
    else:
        raise Undecided(f"loop state holds {v!r}")


def rebuild(v, pos, vals):
    """v with leaves replaced by vals (dict pos -> value)"""
    if isinstance(v, (Poly, F, Opq, SymEnum)):
        return vals.get(pos, v)
    if isinstance(v, Agg):
        if v.name == "vec" and isinstance(v.fields[0], ARR):
            return Agg(v.name, v.variant, [vals.get(pos + ("b",), v.fields[0])], v.ty)
        return Agg(v.name, v.variant, [rebuild(x, pos + (i,), vals) for i, x in enumerate(v.fields)], v.ty)
    if isinstance(v, VArr):
        return VArr([rebuild(x, pos + (("e", i),), vals) for i, x in enumerate(v.el)])
    if isinstance(v, ARR):
        return vals.get(pos, v)
    if isinstance(v, Ptr):
        path = []
        for i, e in enumerate(v.path):
            if isinstance(e, tuple) and e[0] in ("i", "sl"):
                path.append((e[0],) + tuple(vals.get(pos + (("pp", i, j),), x) for j, x in enumerate(e[1:])))
            else:
                path.append(e)
        meta = v.meta
        if meta is not None:
            meta = tuple(vals.get(pos + (("pm", j),), x) for j, x in enumerate(meta))
        return Ptr(v.cell, tuple(path), meta)
    return v


def arr_eq(a, b):
    """equality of array contents up to representation"""
    if a == b:
        return True
    a, b = arr_norm(a), arr_norm(b)
    if a == b:
        return True
    if isinstance(a, Cat) and isinstance(b, Cat) and len(a.parts) == len(b.parts):
        return all(arr_eq(x, y) for x, y in zip(a.parts, b.parts))
    if isinstance(a, Comp) and isinstance(b, Comp):
        return a.len == b.len and subst(a.body, {a.var: P(A(b.var))}) == b.body
    return False


def arr_norm(a):
    """flatten concatenations and absorb an element into a preceding comprehension"""
    if not isinstance(a, Cat):
        return a
    ps = []
    for p in a.parts:
        p = arr_norm(p)
        for q in (p.parts if isinstance(p, Cat) else [p]):
            if isinstance(q, VArr):
                if not q.el:
                    continue
                els = list(q.el)
                while els and ps and isinstance(ps[-1], Comp) and subst(ps[-1].body, {ps[-1].var: ps[-1].len}) == els[0]:
                    ps[-1] = Comp(ps[-1].var, ps[-1].body, ps[-1].len + 1)
                    els.pop(0)
                if not els:
                    continue
                q = VArr(els)
                if ps and isinstance(ps[-1], VArr):
                    ps[-1] = VArr(ps[-1].el + q.el)
                    continue
            elif isinstance(q, Comp) and q.len.const == 0:
                continue
            ps.append(q)
    if len(ps) == 1:
        return ps[0]
    if not ps:
        return VArr([])
    return Cat(ps)


# ---------------------------------------------------------------- which symbols vary inside a loop

_num = {}
_rx = re.compile(r"#(\d+)")


def vnum(v):
    """largest creation number of the symbols in v"""
    if isinstance(v, Poly):
        r = 0
        for x in v.atoms():
            n = _num.get(x)
            if n is None:
                a = A(x)
                n = 0
                for y in a.args:
                    n = max(n, vnum(A(y)) if a.op in ("bits", "bitsx") and y is a.args[0] else vnum(y))
                _num[x] = n
            r = max(r, n)
        return r
    if isinstance(v, terms.Atom):
        return vnum(P(v))
    if isinstance(v, str):
        r = 0
        for m in _rx.findall(v):
            r = max(r, int(m))
        return r
    if isinstance(v, (int, float, type(None))):
        return 0
    if isinstance(v, F):
        k = ("f", id(v))
        n = _num.get(k)
        if n is None:
            n = _num[k] = max([vnum(x) for x in v.args], default=0)
        return n
    if isinstance(v, (tuple, list)):
        return max([vnum(x) for x in v], default=0)
    if isinstance(v, Opq):
        return max([vnum(v.tag)] + [vnum(x) for x in v.args])
    if isinstance(v, Agg):
        return max([vnum(x) for x in v.fields], default=0)
    if isinstance(v, Ptr):
        return max(vnum(v.cell), vnum(v.path), vnum(v.meta))
    if isinstance(v, SymEnum):
        return max(vnum(v.name), vnum(v.discr))
    if isinstance(v, Ite):
        return max(vnum(v.c), vnum(v.a), vnum(v.b))
    if isinstance(v, VArr):
        return vnum(v.el)
    if isinstance(v, SArr):
        return max(vnum(v.name), vnum(v.len), vnum(v.off))
    if isinstance(v, Fill):
        return max(vnum(v.val), vnum(v.len))
    if isinstance(v, Cat):
        return vnum(v.parts)
    if isinstance(v, Upd):
        return max(vnum(v.base), vnum(v.off), vnum(v.src))
    if isinstance(v, Rev):
        return vnum(v.base)
    if isinstance(v, Comp):
        return max(vnum(v.body), vnum(v.len))
    if isinstance(v, PView):
        return max(vnum(v.base), vnum(v.off), vnum(v.len))
    return 0


# ---------------------------------------------------------------- types of leaves

def leaf_ty(it, cty, v, pos):
    """type index of the leaf at pos inside a cell of type cty (None when unknown)"""
    t = cty
    for e in pos:
        if t is None:
            return None
        T = it.T(t)
        # single-field wrappers modelled transparently
        if isinstance(v, Agg) and v.ty is not None and v.ty != t and e != "b":
            t = v.ty
            T = it.T(t)
        if e == "b":
            a = T.get("a") or []
            return ("vec", a[0] if a else None)
        if isinstance(e, int):
            if not isinstance(v, Agg) or e >= len(v.fields):
                return None
            if T["k"] == "adt" and "v" in T:
                var = v.variant if (v.variant is not None and isinstance(v.variant, int)) else 0
                try:
                    t = T["v"][var][e]
                except (IndexError, TypeError):
                    return None
            elif T["k"] == "tuple":
                t = T["a"][e] if e < len(T["a"]) else None
            elif T["k"] == "closure":
                t = T["up"][e] if e < len(T["up"]) else None
            else:
                return None
            v = v.fields[e]
        elif e[0] == "e":
            t = T.get("t")
            v = v.el[e[1]]
        else:
            return ("usize",)
    return t


def fresh_leaf(it, st, old, ty, hint):
    it.nsym += 1
    name = f"{hint}#{it.nsym}"
    it.widened.add(name)
    if isinstance(old, Poly):
        if isinstance(ty, int) and it.T(ty)["k"] in ("int", "bool", "char"):
            return it.fresh(st, ty, name)
        if ty == ("usize",):
            return sym(name, 64)
        return P(atom("sym", name))
    if isinstance(old, F):
        return F("sym", (name,), old.w)
    if isinstance(old, SymEnum):
        return it.fresh(st, old.ty, name)
    return Opq("sym", name)


# ---------------------------------------------------------------- heads

class Head:
    def __init__(self, sig, cells, ln):
        self.sig = sig
        self.cells = cells      # cell -> template value (skeleton carrier)
        self.ln = ln
        self.first = None       # (K value, {leafkey: value}) of the first arrival
        self.tmpl = {}          # leafkey -> ("const", v) | ("aff", a, b) | ("hav", v) | ("comp", ...)
        self.K = None
        self.cands = None
        self.lits = {}
        self.n = 0


class Loop:
    def __init__(self, it, key, b, fr, cfg, st, bb):
        self.it, self.key, self.b, self.fr, self.cfg, self.bb = it, key, b, fr, cfg, bb
        self.st0 = st
        it.nsym += 1
        self.mark = it.nsym
        self.id = f"L{it.nsym}"
        self.blocks = cfg.loop[bb]
        live = liveness(b)[bb]
        self.livelocals = live
        self.heads = {}
        self.order = []
        self.dirty = []

    # -- relevant cells of a state
    def cells(self, st):
        fr = self.fr
        keep = {}
        work = []
        for c, v in st.mem.items():
            if c[0] == fr:
                if c[1] in self.livelocals:
                    work.append(c)
            elif isinstance(c[0], int):
                if c[0] < fr:
                    work.append(c)
            elif c in self.st0.mem:
                work.append(c)
        seen = set()
        while work:
            c = work.pop()
            if c in seen or c not in st.mem:
                continue
            seen.add(c)
            v = st.mem[c]
            keep[c] = v
            self.reach(v, work, set())
        return keep

    def reach(self, v, work, done):
        if isinstance(v, Ptr):
            work.append(v.cell)
        elif isinstance(v, Agg):
            for x in v.fields:
                self.reach(x, work, done)
        elif isinstance(v, VArr):
            for x in v.el:
                self.reach(x, work, done)
        elif isinstance(v, Ite):
            self.reach(v.a, work, done)
            self.reach(v.b, work, done)
        elif isinstance(v, Cat):
            for x in v.parts:
                self.reach(x, work, done)
        elif isinstance(v, Fill):
            self.reach(v.val, work, done)
        elif isinstance(v, Opq):
            for x in v.args:
                self.reach(x, work, done)

    def describe(self, st):
        """(signature, {cell: value} of the cells that differ from entry, {leafkey: value})"""
        keep = self.cells(st)
        m0 = self.st0.mem
        sig = []
        lv = {}
        ch = {}
        for c in sorted(keep, key=repr):
            v = keep[c]
            if c in m0 and (m0[c] is v or m0[c] == v) and c not in self.touched:
                continue
            if c in m0:
                self.newtouched.add(c)
            out, sk = [], []
            leaves(v, out, (), sk)
            sig.append((c, tuple(sk)))
            ch[c] = v
            for pos, x in out:
                lv[(c, pos)] = x
        for g in sorted(st.ghost, key=repr):
            x = st.ghost[g]
            if isinstance(x, Poly):
                lv[("ghost", g)] = x
            else:
                sig.append(("g", g, repr(x)))
        return repr(sig), ch, lv

    def hint(self, key):
        c, pos = key
        if c == "ghost":
            return str(pos)
        if c[0] == self.fr:
            n = self.b["locals"][c[1]][1]
            return (n or f"_{c[1]}") + "".join(f".{p}" for p in pos if isinstance(p, int))
        return "m"

    # -- arrivals
    def split_states(self, st):
        """settle conditional values of the loop state"""
        work = [st]
        out = []
        n = 0
        while work:
            s = work.pop()
            try:
                d = self.describe(s)
                out.append((s, d))
            except Splits as e:
                n += 1
                if n > 64:
                    raise Undecided("loop state has too many conditional values")
                c = s.norm(e.c)
                dd = s.decide(c)
                for v in (1, 0):
                    if dd is not None and dd != bool(v):
                        continue
                    s2 = s.copy()
                    if dd is None:
                        s2.nfork += 1
                        s2.conds = s2.conds + ((c, v),)
                        if not s2.assume(c, v):
                            continue
                    for cell, x in list(s2.mem.items()):
                        s2.mem[cell] = settle_ite(s2, x)
                    work.append(s2)
        return out

    def arrive(self, st, kval):
        """integrate a state reaching the header; returns heads that changed"""
        changed = []
        for s, (sig, ch, lv) in self.split_states(st):
            h = self.heads.get(sig)
            if h is None:
                if len(self.heads) >= CAP:
                    raise Undecided("too many loop-state partitions")
                h = Head(sig, ch, None)
                self.heads[sig] = h
                self.order.append(h)
                h.first = (kval, dict(lv))
                h.kconst = kval
                first_inv = kval is not None and kval.const is not None
                for k, x in lv.items():
                    if first_inv and vnum(x) < self.mark:
                        h.tmpl[k] = ("const", x)
                    elif first_inv and vnum(x) >= self.mark:
                        h.tmpl[k] = self.to_havoc(s, h, k, x)
                    else:
                        h.tmpl[k] = ("const", x) if vnum(x) < self.mark else self.to_havoc(s, h, k, x)
                h.K = kval if first_inv else self.newK(h)
                h.entry_k = kval
                changed.append(h)
            else:
                if self.join(s, h, lv, kval):
                    changed.append(h)
        return changed

    def newK(self, h):
        self.it.nsym += 1
        return P(atom("sym", f"k#{self.it.nsym}", lo=0, hi=(1 << 64) - 1))

    def to_havoc(self, st, h, k, x, aff_len=None):
        c, pos = k
        if isinstance(x, ARR):
            self.it.nsym += 1
            nm = f"{self.hint(k)}#{self.it.nsym}"
            self.it.widened.add(nm)
            ln = P(atom("sym", nm + ".len", lo=0, hi=(1 << 63) - 1))
            ety = None
            if isinstance(x, SArr):
                ety = x.ety
            if ety is None:
                ty = leaf_ty(self.it, self.it_cty(st, c), st.mem.get(c, UN), pos)
                if isinstance(ty, tuple) and ty[0] == "vec":
                    ety = ty[1]
                elif isinstance(ty, int):
                    ety = self.it.T(ty).get("t")
            return ("harr", SArr(nm, ln, ety), None)
        ty = None
        if c != "ghost":
            try:
                ty = leaf_ty(self.it, self.it_cty(st, c), st.mem.get(c, UN), pos)
            except (KeyError, TypeError):
                ty = None
        return ("hav", fresh_leaf(self.it, st, x, ty if not isinstance(ty, tuple) or ty == ("usize",) else None, self.hint(k)))

    def it_cty(self, st, c):
        t = st.cty.get(c)
        if isinstance(t, list):
            t = t[0]
        return t

    def val(self, h, k):
        t = h.tmpl[k]
        if t[0] == "const" or t[0] == "hav":
            return t[1]
        if t[0] == "aff":
            return t[1] + t[2] * h.K
        if t[0] == "harr":
            return t[1]
        if t[0] == "comp":
            _, base, var, body, k0 = t
            return arr_norm(Cat([base, Comp(var, body, h.K - k0)]))
        raise AssertionError

    def join(self, st, h, lv, kval):
        """make h cover the arriving leaf values; True when h changed"""
        ch = False
        symbolicK = h.K is not None and h.K.const is None
        if not symbolicK:
            # second arrival: the counter becomes symbolic
            if kval is not None and kval.const is not None and h.K.const == kval.const and all(lv.get(k) == self.val(h, k) for k in h.tmpl):
                return False
            k0 = h.K
            dk = None
            if kval is not None and kval.const is not None and kval.const == k0.const + 1:
                dk = 1
            K = self.newK(h)
            for k in list(h.tmpl):
                old = self.val(h, k)
                new = lv.get(k)
                if same(old, new):
                    h.tmpl[k] = ("const", old)
                    continue
                if dk and isinstance(old, Poly) and isinstance(new, Poly) and vnum(old) < self.mark and vnum(new) < self.mark:
                    beta = new - old
                    h.tmpl[k] = ("aff", old - beta * k0, beta)
                    continue
                h.tmpl[k] = self.generalise(st, h, k, old, new)
            h.K = K
            h.kmin = k0
            ch = True
            return ch
        for k in list(h.tmpl):
            t = h.tmpl[k]
            if t[0] == "hav":
                continue
            new = lv.get(k)
            if t[0] == "const":
                if same(t[1], new):
                    continue
                # affine after all?  (first arrival at symbolic or equal counters)
                h.tmpl[k] = self.generalise(st, h, k, t[1], new)
                ch = True
            elif t[0] == "aff":
                if kval is not None and isinstance(new, Poly) and st.norm(new - (t[1] + t[2] * kval)).const == 0:
                    continue
                h.tmpl[k] = self.to_havoc(st, h, k, self.val(h, k))
                ch = True
            elif t[0] == "harr":
                n = self.harr_step(st, h, k, t, new, kval)
                if n is not None:
                    h.tmpl[k] = n
                    ch = True
            elif t[0] == "comp":
                exp = subst(self.val(h, k), {self.katom(h): kval}) if kval is not None else None
                if exp is not None and isinstance(new, ARR) and arr_eq(arr_norm(exp), arr_norm(new)):
                    continue
                base = t[1]
                h.tmpl[k] = self.to_havoc(st, h, k, self.val(h, k))
                h.tmpl[k] = h.tmpl[k][:2] + ("nocomp",)
                ch = True
        return ch

    def katom(self, h):
        (kk, _), = h.K.m.items()
        return kk[0]

    def generalise(self, st, h, k, old, new):
        if isinstance(old, ARR):
            r = self.to_havoc(st, h, k, old)
            s = r[1]
            if isinstance(new, ARR) and same(old.len, new.len):
                s = SArr(s.name, old.len, s.ety)
            # remember what it started from, to recognise accumulation
            return ("harr", s, (old, h.K if h.K.const is not None else None))
        return self.to_havoc(st, h, k, old)

    def harr_step(self, st, h, k, t, new, kval):
        """t = ('harr', SArr, (initial, k0) | None | 'nocomp')"""
        s = t[1]
        if not isinstance(new, ARR):
            raise Undecided("array leaf changes kind")
        if t[2] is not None and t[2] != "nocomp" and t[2][1] is not None and kval is not None:
            init, k0 = t[2]
            n = arr_norm(new)
            if isinstance(n, Cat) and n.parts[0] == s and len(n.parts) == 2 and isinstance(n.parts[1], VArr) and len(n.parts[1].el) == 1 and kval == h.K + 1:
                v = n.parts[1].el[0]
                ka = self.katom(h)
                self.it.nsym += 1
                var = atom("sym", f"j#{self.it.nsym}", lo=0, hi=(1 << 64) - 1)
                body = subst(v, {ka: P(var) + k0})
                if only_var(body, var, self.mark):
                    return ("comp", init, var.id, body, k0)
            # length may still be affine
            if t[1].len.const is None and isinstance(init.len, Poly):
                d = st.norm(new.len - s.len)
                if d.const is not None and vnum(s.len) >= self.mark and not getattr(h, "lentry", {}).get(k):
                    h.__dict__.setdefault("lentry", {})[k] = True
                    ln = init.len + d * (h.K - k0)
                    return ("harr", SArr(s.name, ln, s.ety), (init, k0))
            if len(t) == 3 and vnum(s.len) >= self.mark and self.katom(h) in s.len.atoms():
                if st.norm(new.len - subst(s.len, {self.katom(h): kval})).const != 0:
                    self.it.nsym += 1
                    return ("harr", SArr(s.name, P(atom("sym", f"{s.name}.len#{self.it.nsym}", lo=0, hi=(1 << 63) - 1)), s.ety), "nocomp")
            return None
        ln = s.len
        if h.K.const is None and self.katom(h) in ln.atoms():
            if kval is not None and st.norm(new.len - subst(ln, {self.katom(h): kval})).const == 0:
                return None
            self.it.nsym += 1
            return ("harr", SArr(s.name, P(atom("sym", f"{s.name}.len#{self.it.nsym}", lo=0, hi=(1 << 63) - 1)), s.ety), "nocomp")
        if vnum(ln) < self.mark and not same(ln, new.len) and st.norm(ln - new.len).const != 0:
            self.it.nsym += 1
            return ("harr", SArr(s.name, P(atom("sym", f"{s.name}.len#{self.it.nsym}", lo=0, hi=(1 << 63) - 1)), s.ety), "nocomp")
        return None

    # -- state at a head
    def state(self, h):
        st = self.st0.copy()
        keepers = None
        fr = self.fr
        for c in list(st.mem):
            if c[0] == fr and c[1] not in self.livelocals and c not in self.reachset:
                del st.mem[c]
        vals = {}
        for (c, pos), _ in h.tmpl.items():
            x = self.val(h, (c, pos))
            if c == "ghost":
                st.ghost[pos] = x
            else:
                vals.setdefault(c, {})[pos] = x
        for c, v in h.cells.items():
            st.mem[c] = rebuild(v, (), vals.get(c, {}))
            if c not in st.cty and c in self.extra_cty:
                st.cty[c] = self.extra_cty[c]
        if h.K.const is None:
            km = getattr(h, "kmin", None)
            if km is not None and km.const:
                st.add_le0(km - h.K)
            # what counts down in an unsigned variable has not gone below zero
            for k, t in h.tmpl.items():
                if t[0] == "aff" and k[0] != "ghost" and P(t[2]).const is not None and P(t[2]).const < 0:
                    ty = leaf_ty(self.it, self.it_cty(st, k[0]), st.mem.get(k[0], UN), k[1])
                    if ty == ("usize",) or isinstance(ty, int) and self.it.T(ty)["k"] == "int" and not self.it.T(ty)["sg"]:
                        if not st.add_le0(-P(self.val(h, k))):
                            raise PathDead()
        for q in (h.cands or ()):
            if not st.add_le0(q):
                raise PathDead()
        st.events = self.st0.events + ((("loop", self.id),) if self.iterated(h) else ())
        st.loops = dict(st.loops)
        lk = (fr, self.bb)
        st.loops[lk] = (0, st.nfork)
        return st

    def iterated(self, h):
        return not (h.K.const == 0)

    def kleaf(self, h):
        return h.K

    def pass_(self, h, final=False):
        """run the body once from head h; returns (backs, exits)"""
        st = self.state(h)
        if h.cands:
            self.equate(st, h)
        backs, exits, outs = [], [], []
        base = st.events
        self.it.exec_from(self.key, self.b, self.fr, [(st, self.bb)], outs, (self.blocks, self.bb, backs, exits))
        for s in backs:
            suf = s.events[len(base):]
            if suf:
                self.records.setdefault(repr(suf), suf)
        if outs:
            raise Undecided("return inside a loop region")
        return backs, exits

    def equate(self, st, h):
        """leaves known to differ by something constant are written in terms of one of them"""
        own = [p for p in self.int_leaves(h).values()]
        ids = {list(p.m)[0][0] for p in own}
        qs = set(h.cands or ())
        m = {}
        for q in qs:
            if -q not in qs or len([a for a in q.atoms() if a in ids]) != 2:
                continue
            for a in sorted((a for a in q.atoms() if a in ids), reverse=True):
                c = q.m.get((a,))
                if c in (1, -1) and a not in m and not any(a in e.atoms() for e in m.values()):
                    e = P(A(a)) - q * c
                    if a not in e.atoms() and not any(x in m for x in e.atoms()):
                        m[a] = e
                        break
        if not m:
            return
        memo = {}
        for c, v in st.mem.items():
            st.mem[c] = subst(v, m, memo)
        st.ghost = {g: subst(v, m, memo) if not isinstance(v, str) else v for g, v in st.ghost.items()}

    # -- invariants
    def int_leaves(self, h):
        r = {}
        for k, t in h.tmpl.items():
            if t[0] == "hav" and isinstance(t[1], Poly):
                r[k] = t[1]
            elif t[0] == "harr":
                if len(t[1].len.m) == 1 and t[1].len.const is None and vnum(t[1].len) >= self.mark:
                    (kk, c), = t[1].len.m.items()
                    if len(kk) == 1 and c == 1 and A(kk[0]).op == "sym":
                        r[k + ("len",)] = t[1].len
        return r

    def arrival_sub(self, h, lv, kval):
        """substitution head symbol -> arriving value"""
        m = {}
        for k, p in self.int_leaves(h).items():
            (kk, _), = p.m.items()
            x = lv.get(k[:2])
            if len(k) == 3:
                x = x.len
            m[kk[0]] = x
        if h.K.const is None and kval is not None:
            m[self.katom(h)] = kval
        return m

    def candidates(self, h, arrivals):
        cs = []

        def add(q):
            if isinstance(q, Poly) and q.const is None and q not in cs and len(q.m) <= 8:
                cs.append(q)
        own = {list(p.m)[0][0]: p for p in self.int_leaves(h).values()}
        if h.K.const is None:
            own[self.katom(h)] = h.K
        for (st, lv, kval) in arrivals:
            sub = self.arrival_sub(h, lv, kval)
            for a, x in sub.items():
                if not isinstance(x, Poly):
                    continue
                p = own[a]
                if vnum(x) < self.mark:
                    add(p - x)
                    add(x - p)
                l, hh = st.bounds(x)
                at = A(a)
                if l > at.lo:
                    add(P(int(l)) - p)
                if hh < at.hi:
                    add(p - int(hh))
            # facts over the arriving values
            facts = list(st.lin)
            for a, x in sub.items():
                if not isinstance(x, Poly):
                    continue
                for y in x.atoms():
                    r = st.iv.get(y)
                    if r:
                        if r[0] != -INF:
                            facts.append(P(int(r[0])) - P(A(y)))
                        if r[1] != INF:
                            facts.append(P(A(y)) - int(r[1]))
            # solve arriving value = head symbol for one of its atoms
            inv = []
            for a, x in sub.items():
                if not isinstance(x, Poly):
                    continue
                for kk, c in x.m.items():
                    if len(kk) == 1 and c in (1, -1) and vnum(P(A(kk[0]))) >= self.mark:
                        rest = x - Poly({kk: c})
                        inv.append((kk[0], (own[a] - rest) * c))
                        break
            for q in facts[-60:]:
                ats = q.atoms()
                m = {y: e for y, e in inv if y in ats}
                q2 = subst(q, m) if m else q
                if m:
                    m2 = {y: e for y, e in inv if y in q2.atoms()}
                if all(vnum(P(A(y))) < self.mark or y in own for y in q2.atoms()):
                    add(q2)
            # differences between leaves that advance together
            items = [(own[a], x) for a, x in sub.items() if isinstance(x, Poly)]
            for i in range(len(items)):
                for j in range(i):
                    d = items[i][1] - items[j][1]
                    if vnum(d) < self.mark:
                        add(items[i][0] - items[j][0] - d)
                        add(d - items[i][0] + items[j][0])
        return cs[:80]

    def run(self):
        it = self.it
        self.touched = set()
        self.records = {}
        self.extra_cty = {}
        work0 = self.st0
        # cells the body may change are discovered on the way; a newly changed cell restarts the analysis
        for restart in range(40):
            self.newtouched = set()
            self.heads, self.order = {}, []
            self.reachset = set(self.cells(self.st0))
            it.obl_off += 1
            try:
                self.arrive(self.st0, ZERO)
                n = 0
                pending = list(self.order)
                while pending:
                    h = pending.pop(0)
                    n += 1
                    if n > 400:
                        raise Undecided("loop analysis does not stabilise")
                    backs, _ = self.pass_(h)
                    for s in backs:
                        kval = h.K + 1
                        for x in self.arrive(s, kval):
                            if x not in pending:
                                pending.append(x)
                    if self.newtouched - self.touched:
                        break
                if self.newtouched - self.touched:
                    self.touched |= self.newtouched
                    continue
                self.invariants()
            finally:
                it.obl_off -= 1
            if self.newtouched - self.touched:
                self.touched |= self.newtouched
                continue
            break
        else:
            raise Undecided("loop state does not stabilise")

    def invariants(self):
        it = self.it
        # candidates
        arr = {id(h): [] for h in self.order}
        for h in self.order:
            h.cands = None

        def collect():
            for h in self.order:
                arr[id(h)] = []
            self.gather(self.st0, ZERO, arr)
            for h in self.order:
                try:
                    backs, _ = self.pass_(h)
                except PathDead:
                    continue
                for s in backs:
                    self.gather(s, h.K + 1, arr)
        collect()
        for h in self.order:
            h.cands = self.candidates(h, arr[id(h)])
            # only what holds on first arrival can be an invariant
        for rnd in range(12):
            if not any(h.cands for h in self.order):
                break
            collect()
            dropped = False
            for h in self.order:
                keep = []
                for q in h.cands:
                    ok = True
                    for st, lv, kval in arr[id(h)]:
                        m = {a: x for a, x in self.arrival_sub(h, lv, kval).items() if isinstance(x, Poly)}
                        if not st.prove_le0(subst(q, m)):
                            ok = False
                            break
                    if ok:
                        keep.append(q)
                    else:
                        dropped = True
                h.cands = keep
            if not dropped:
                break
        else:
            for h in self.order:
                h.cands = []

    def gather(self, st, kval, arr):
        for s, (sig, ch, lv) in self.split_states(st):
            h = self.heads.get(sig)
            if h is None:
                raise Undecided("loop partition appears late")
            arr[id(h)].append((s, lv, kval))


def same(a, b):
    if a is b:
        return True
    if isinstance(a, ARR) and isinstance(b, ARR):
        return arr_eq(a, b)
    return a == b


def only_var(v, var, mark):
    """the value depends on nothing that varies in the loop besides var"""
    import uuid
    probe = sym("vp-probe", 64)
    return vnum(subst(v, {var.id: probe})) < mark


def settle_ite(st, v):
    if isinstance(v, Ite):
        d = st.decide(v.c)
        if d is None:
            return v
        return settle_ite(st, v.a if d else v.b)
    if isinstance(v, Agg) and v.fields:
        fs = [settle_ite(st, x) for x in v.fields]
        if all(x is y for x, y in zip(fs, v.fields)):
            return v
        return Agg(v.name, v.variant, fs, v.ty)
    if isinstance(v, VArr):
        fs = [settle_ite(st, x) for x in v.el]
        if all(x is y for x, y in zip(fs, v.el)):
            return v
        return VArr(fs)
    return v


def run_loop(it, key, b, fr, cfg, st, bb, work):
    """append the states leaving the loop to work"""
    for s in it.presplit(st) if hasattr(it, "presplit") else [st]:
        L = Loop(it, key, b, fr, cfg, s, bb)
        L.run()
        if it.loop_hook:
            it.loop_hook(L)
        done = []
        for h in L.order:
            try:
                backs, exits = L.pass_(h, True)
            except PathDead:
                continue
            done.append((h, backs, exits))
        approx = len({tb for h, backs, exits in done for _, tb in exits}) > 1 and any(backs for _, backs, _ in done)
        for h, backs, exits in done:
            for s2, tb in exits:
                if approx and L.iterated(h):
                    # that no earlier round left the loop elsewhere is not part of the summary
                    s2.ghost["~approx"] = "1"
                if h.K.const is None:
                    s2 = resolve_k(it, s2, L.katom(h), h)
                if L.records and L.iterated(h):
                    it.loop_records[L.id] = list(L.records.values())
                work.append((s2, tb, 0, False))


def resolve_k(it, st, ka, h):
    """at the exit, replace the iteration counter by what the path conditions equate it with"""
    val = None
    lo, hi = st.ab(A(ka))
    if lo == hi:
        val = P(int(lo))
    else:
        for q in st.lin:
            c = q.m.get((ka,))
            if c in (1, -1) and all(ka not in k or k == (ka,) for k in q.m):
                if st.prove_le0(-q):
                    e = (P(A(ka)) * c - q) * c
                    if ka not in e.atoms():
                        val = e
                        break
    if val is None:
        return st
    m = {ka: val}
    memo = {}
    for c, v in st.mem.items():
        if mentions(v, ka):
            st.mem[c] = subst(v, m, memo)
    st.ghost = {g: subst(v, m, memo) if not isinstance(v, str) else v for g, v in st.ghost.items()}
    st.events = tuple(subst(e, m, memo) for e in st.events)
    st.lin = tuple(q2 for q2 in (subst(q, m, memo) for q in st.lin) if q2.const is None)
    if ka in st.iv:
        del st.iv[ka]
    return st


def mentions(v, ka):
    return True
