"""Reports, comparisons and command-line driver of the checks."""
import json, os, random, sys, time, traceback, hashlib
import frontend
from terms import *
from interp import *
import interp, models, evalterm
from evalterm import Env, EvalFail, assignments, base_atoms, ufuns
from an import An, load
import stream

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"


def consts_of(x, out=None, seen=None, d=0):
    """boundary constants of the comparisons in a term"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if d > 40 or id(x) in seen:
        return out
    if isinstance(x, Poly):
        for k in x.m:
            for i in k:
                a = A(i)
                if a.id in seen:
                    continue
                seen.add(a.id)
                if a.op in ("eq", "le") and isinstance(a.args[0], Poly):
                    c = a.args[0].m.get((), 0)
                    out |= {abs(int(c))} if c == int(c) else set()
                for g in a.args:
                    consts_of(g, out, seen, d + 1)
    elif isinstance(x, F):
        seen.add(id(x))
        for g in x.args:
            consts_of(g, out, seen, d + 1)
    elif isinstance(x, (tuple, list)):
        for g in x:
            consts_of(g, out, seen, d + 1)
    return out


def has32(x):
    """some step of the float term is in single precision"""
    return isinstance(x, F) and (x.w == 32 or any(has32(y) for y in x.args))


class _Any:
    def __repr__(self):
        return "_"


ANY = _Any()


class V:
    """pattern: variant `name` with field patterns"""
    def __init__(self, name, *fields):
        self.name, self.fields = name, fields

    def __repr__(self):
        return self.name + (f"({', '.join(map(repr, self.fields))})" if self.fields else "")


class Pred:
    """pattern: fn(chk, st, got) -> 'eq' | 'unk' | ('ne', why)"""
    def __init__(self, fn, what):
        self.fn, self.what = fn, what

    def __repr__(self):
        return self.what


def Ok(x): return V("Ok", x)
def Err(x=ANY): return V("Err", x)
def Some(x): return V("Some", x)
NONE = V("None")


class Tup:
    def __init__(self, *fields):
        self.fields = fields

    def __repr__(self):
        return f"({', '.join(map(repr, self.fields))})"


class Fields:
    """pattern: struct with the given public fields"""
    def __init__(self, **kw):
        self.kw = kw

    def __repr__(self):
        return "{" + ", ".join(f"{k}: {v!r}" for k, v in self.kw.items()) + "}"


class IteP:
    """pattern: want a if the condition holds, b otherwise"""
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f"if {self.c!r} then {self.a!r} else {self.b!r}"


# ---------------------------------------------------------------- specification terms

def octets(name, off, n, sg=False):
    """big-endian integer of n octets at (0-based) offset off of the named byte sequence"""
    r = ZERO
    for i in range(n):
        r = r * 256 + byte(name, off + i)
    return r


def byte(name, i):
    return P(atom("elem", name, P(i), lo=0, hi=255, w=8))


def smag(name, off, n):
    """sign-magnitude integer"""
    top = byte(name, off)
    (k, _), = top.m.items()
    s = bits(A(k[0]), 7, 1)
    m = bits(A(k[0]), 0, 7)
    for i in range(1, n):
        m = m * 256 + byte(name, off + i)
    return m - 2 * s * m


def smag_of(p, n=8):
    """sign-magnitude reading of an unsigned n-bit quantity"""
    p = P(p)
    (k, c), = p.m.items()
    assert c == 1 and len(k) == 1
    s, m = bits(A(k[0]), n - 1, 1), bits(A(k[0]), 0, n - 1)
    return m - 2 * s * m


def fpow10(e, w=64):
    return fpow(w, fconst(10.0, w), e if isinstance(e, F) else P(e))


def ln(name):
    return P(atom("len", name, lo=0, hi=(1 << 63) - 1))


def i2f(p, w=64):
    p = P(p)
    if p.const is not None and abs(p.const) < (1 << 24):
        return fconst(float(p.const), w)
    return F("i2f", (p,), w)


def fc(x, w=64):
    return fconst(x, w)


def fadd(a, b): return fop("add", a.w, a, b)
def fsub(a, b): return fop("sub", a.w, a, b)
def fmul(a, b): return fop("mul", a.w, a, b)
def fdiv(a, b): return fop("div", a.w, a, b)


class Chk:
    def __init__(self, pid, level="proof"):
        self.pid = pid
        self.level = level
        self.obs = []          # (status, name, detail, site)
        self.t0 = time.time()
        self.rng = random.Random(SEED)
        self.fns = set()
        self.stats = {}
        self.samples = []
        self.assume = []
        self.viol = {}
        self.notes = []
        self.cur = "?"
        self.errors = []
        self.known = load_known(pid)
        self.nsub = 0

    # ---- recording
    def ok(self, name, detail=""):
        self.obs.append(("ok", name, detail))

    def und(self, name, detail=""):
        self.obs.append(("undecided", name, detail))

    def bad(self, name, detail, site=None, key=None):
        """key identifies the violation for the known-findings file: no line numbers"""
        key = key or name
        self.obs.append(("violation", name, detail))
        if key not in self.viol:
            self.viol[key] = dict(obligation=name, detail=detail, site=site)
            if key not in self.known:
                # a violation is established: the remaining obligations get little more time
                interp.DEADLINE = min(interp.DEADLINE, time.time() + 60)
                evalterm.DEADLINE[0] = min(evalterm.DEADLINE[0], time.time() + 30)

    def record(self, r, name, detail="", site=None, key=None):
        if r == "eq":
            self.ok(name)
        elif r == "unk" or (isinstance(r, tuple) and r[0] == "unk"):
            self.und(name, (r[1] if isinstance(r, tuple) else "") + " " + detail)
        else:
            self.bad(name, f"{r[1]} {detail}", site, key)

    def part(self, name):
        return Part(self, name)

    def sample(self, x):
        if len(self.samples) < 12:
            self.samples.append(str(x)[:600])

    def used(self, an):
        """note the functions an analysis session covered"""
        for f in an.it.called:
            b = an.d["bodies"].get(f)
            if b and b.get("local"):
                self.fns.add(b["path"])
            elif b and b["path"].startswith(("grib", "<grib")):
                self.fns.add(b["path"])
        self.stats["abstract steps"] = self.stats.get("abstract steps", 0) + an.it.steps

    # ---- comparison of abstract values
    def cmp(self, an, st, got, want, path="", d=0):
        """'eq', ('unk', why) or ('ne', why)"""
        r = self.cmp_(an, st, got, want, path, d)
        if r != "eq" and r[0] == "ne" and st.ghost.get("~approx"):
            return ("unk", r[1] + ", on a path through a loop that can end in several ways")
        return r

    def cmp_(self, an, st, got, want, path="", d=0):
        it = an.it
        if want is ANY:
            return "eq"
        if isinstance(want, Pred):
            return want.fn(self, st, got)
        if d > 14:
            return ("unk", path + ": too deep")
        if isinstance(got, Ptr) and not isinstance(want, Ptr):
            try:
                if got.meta is not None:
                    got = models.seq_val(it, st, got)
                else:
                    got = it.load(st, (got.cell, got.path))
            except (Undecided, Fork, PathDead) as e:
                return ("unk", f"{path}: {e}")
            return self.cmp(an, st, got, want, path, d + 1)
        if isinstance(got, F) and got.op == "ite":
            got = Ite(*got.args)
        if isinstance(got, Ite):
            dd = st.decide(got.c)
            if dd is not None:
                return self.cmp(an, st, got.a if dd else got.b, want, path, d + 1)
            return self.both(an, st, got.c, got.a, got.b, want, want, path, d)
        if isinstance(want, (IteP, Ite)):
            dd = st.decide(want.c)
            if dd is not None:
                return self.cmp(an, st, got, want.a if dd else want.b, path, d + 1)
            return self.both(an, st, want.c, got, got, want.a, want.b, path, d)
        if isinstance(want, bool):
            want = P(int(want))
        if isinstance(want, int):
            want = P(want)
        if isinstance(want, float):
            if isinstance(got, F):
                want = fconst(want, got.w)
        if isinstance(want, (Poly, F)):
            return self.cmpnum(an, st, got, want, path)
        if isinstance(want, V):
            return self.cmpvar(an, st, got, want, path, d)
        if isinstance(want, Tup):
            got = self.settle(an, st, got)
            if isinstance(got, Agg) and len(got.fields) == len(want.fields):
                return self.allof([self.cmp(an, st, g, w, f"{path}.{i}", d + 1) for i, (g, w) in enumerate(zip(got.fields, want.fields))])
            return ("unk", f"{path}: tuple expected, got {got!r:.80}")
        if isinstance(want, Fields):
            got = self.settle(an, st, got)
            if not isinstance(got, Agg):
                return ("unk", f"{path}: struct expected, got {got!r:.80}")
            rs = []
            for k, w in want.kw.items():
                g = self.fld(an, got, k)
                if g is None:
                    rs.append(("unk", f"{path}: no field {k}"))
                else:
                    rs.append(self.cmp(an, st, g, w, f"{path}.{k}", d + 1))
            return self.allof(rs)
        if isinstance(want, ARR):
            return self.cmparr(an, st, got, want, path, d)
        if got == want:
            return "eq"
        if isinstance(want, Agg):
            got = self.settle(an, st, got)
            if isinstance(got, Agg) and got.name == want.name:
                if got.variant != want.variant:
                    return self.reach(an, st, f"{path}: variant {got!r:.100} instead of {want!r:.100}")
                if len(got.fields) == len(want.fields):
                    return self.allof([self.cmp(an, st, g, w, f"{path}.{i}", d + 1) for i, (g, w) in enumerate(zip(got.fields, want.fields))])
        if isinstance(want, Opq) and isinstance(got, Opq) and got.tag == want.tag and len(got.args) == len(want.args):
            r = self.allof([self.cmp(an, st, g, w, f"{path}.{i}", d + 1) if not isinstance(w, (str, int)) else ("eq" if g == w else ("ne?", f"{path}: {g!r} instead of {w!r}")) for i, (g, w) in enumerate(zip(got.args, want.args))])
            if isinstance(r, tuple) and r[0] == "ne?":
                return self.reach(an, st, r[1])
            return r
        if isinstance(want, SymEnum) and isinstance(got, SymEnum):
            return ("unk", f"{path}: {got!r} instead of {want!r}")
        return ("unk", f"{path}: {got!r:.120} instead of {want!r:.120}")

    def both(self, an, st, c, ga, gb, wa, wb, path, d):
        rs = []
        for v, g, w in ((1, ga, wa), (0, gb, wb)):
            s = st.copy()
            s.conds = s.conds + ((c, v),)
            if s.assume(c, v):
                rs.append(self.cmp(an, s, g, w, path, d + 1))
        return self.allof(rs)

    def allof(self, rs):
        u = "eq"
        for r in rs:
            if r == "eq":
                continue
            if r[0].startswith("ne"):
                return r
            if u == "eq":
                u = r
        return u

    def settle(self, an, st, v):
        try:
            return an.it.settle(st, v)
        except (Undecided, Fork, PathDead):
            return v

    def fld(self, an, v, name):
        ad = an.d["adts"].get(v.name) or load(["grib"])["grib"]["adts"].get(v.name)
        if not ad:
            return None
        fs = ad["variants"][v.variant or 0]["fields"]
        for i, f in enumerate(fs):
            if f[0] == name:
                return v.fields[i]
        return None

    def vname(self, an, v):
        ad = an.d["adts"].get(v.name)
        if not ad:
            return {("option", 0): "None"}.get((v.name, v.variant))
        return ad["variants"][v.variant]["name"]

    def cmpvar(self, an, st, got, want, path, d):
        got = self.settle(an, st, got)
        if isinstance(got, Agg) and got.variant is not None:
            n = self.vname(an, got)
            if n is None:
                return ("unk", f"{path}: enum {got.name}")
            if n != want.name:
                return self.reach(an, st, f"{path}: {n}{'' if not got.fields else '(..)'} instead of {want!r:.160}")
            if want.fields and len(want.fields) == len(got.fields):
                return self.allof([self.cmp(an, st, g, w, f"{path}.{n}" + (f".{i}" if len(got.fields) > 1 else ""), d + 1) for i, (g, w) in enumerate(zip(got.fields, want.fields))])
            if want.fields:
                return ("unk", f"{path}: fields of {n}")
            return "eq"
        if isinstance(got, SymEnum):
            ad = an.d["adts"].get(an.it.T(got.ty)["n"])
            if ad:
                for i, v in enumerate(ad["variants"]):
                    if v["name"] == want.name:
                        r = self.cmpnum(an, st, got.discr, P(v["discr"]), path + ".discriminant")
                        if r == "eq" and want.fields:
                            return self.cmpvar(an, st, an.it.as_variant(st, got, i), want, path, d + 1)
                        return r
        return ("unk", f"{path}: {got!r:.100} instead of {want!r:.100}")

    def tainted(self, got, want):
        bg = {b for b in base_atoms(got) if fresh(b)}
        bw = {b for b in base_atoms(want) if fresh(b)}
        x = bg - bw
        if x:
            return f"depends on unresolved {sorted(map(repr, x))[0]}"
        ug, uw = ufuns(got), ufuns(want)
        if ug - uw:
            return f"depends on uninterpreted {sorted(ug - uw)[0]}"
        return None

    def enumerate(self, an, st, got, want, path):
        """decides equality by evaluating both terms for every value of the few octets they depend on"""
        atoms = set()
        for b in base_atoms((got, want)):
            if not isinstance(b, Atom) or b.op not in ("sym", "elem") or b.lo in (-INF, INF) or b.hi in (-INF, INF):
                return None
            atoms.add(b)
        if any(isinstance(x, F) for x in (got, want)) and not isinstance(want, F):
            return None
        for b in atoms:
            if b.op == "elem" and base_atoms(b.args[1]) & atoms:
                return None
        atoms = sorted(atoms, key=lambda a: a.id)
        dom, size = [], 1
        for a in atoms:
            lo, hi = a.lo, a.hi
            r = st.iv.get(a.id)
            if r:
                lo, hi = max(lo, r[0]), min(hi, r[1])
            dom.append(range(int(lo), int(hi) + 1))
            size *= max(0, int(hi) - int(lo) + 1)
        if not atoms or size > 70000:
            return None
        diff = []
        import itertools
        env = Env(self.rng, st.iv)
        env.types = an.d["types"]
        for vs in itertools.product(*dom):
            env.clear()
            env.fv.clear()
            for a, v in zip(atoms, vs):
                env.v[env.key(a)] = v
            try:
                if isinstance(want, Poly):
                    x, y = env.num(got), env.num(want)
                    same = x == y
                else:
                    x, y = env.f(got), env.f(want)
                    same = x == y or (x != x and y != y) or (abs(x - y) <= 3e-6 * max(abs(x), abs(y)))
            except (EvalFail, OverflowError, RecursionError):
                return None
            if not same:
                diff.append((vs, x, y))
        if env.uf:
            return None
        if not diff:
            return "eq"
        self.rng.shuffle(diff)
        for vs, x, y in diff[:12]:
            for e2 in assignments(st, self.rng, 3, [(eq0(P(a) - v), 1) for a, v in zip(atoms, vs)], types=an.d["types"]):
                return ("ne", f"{path}: {short(got)} instead of {short(want)}; e.g. {x} instead of {y} for {witness(e2, (got, want), st)}")
        return None

    def feq(self, st, a, b):
        """float terms of one structure over integers proved equal"""
        if a is b:
            return True
        if isinstance(a, F) and isinstance(b, F):
            if a.op != b.op or a.w != b.w or len(a.args) != len(b.args):
                return False
            if all(self.feq(st, x, y) for x, y in zip(a.args, b.args)):
                return True
            return a.op in ("add", "mul") and self.feq(st, a.args[0], b.args[1]) and self.feq(st, a.args[1], b.args[0])
        if isinstance(a, Poly) and isinstance(b, Poly):
            dif = st.norm(a - b)
            if not dif.m:
                return True
            return not st.norm(canon(dif)).m or (dif.const is None and st.prove_le0(dif) and st.prove_le0(-dif))
        return a == b

    def cmpnum(self, an, st, got, want, path):
        it = an.it
        got = self.settle(an, st, got)
        if isinstance(want, Poly):
            try:
                g = it.as_int(st, got)
            except Undecided as e:
                return ("unk", f"{path}: {e}")
            dif = st.norm(g - want)
            if dif.const == 0:
                return "eq"
            if dif.const is None and st.prove_le0(dif) and st.prove_le0(-dif):
                return "eq"
            if not st.norm(canon(dif)).m:
                return "eq"
            got = g
        else:
            if not isinstance(got, F):
                return ("unk", f"{path}: number expected, got {got!r:.80}")
            if got is want or self.feq(st, got, want):
                return "eq"
        tn = self.tainted(got, want)
        if tn:
            return ("unk", f"{path}: {tn}")
        r = self.enumerate(an, st, got, want, path)
        if r is not None:
            return r
        # different normal forms: look for an assignment of the path telling them apart
        n = m = 0
        pool2 = [c + d for c in consts_of((got, want)) for d in (-1, 0, 1)][:60]
        def envs():
            hs = float_inputs((got, want)) if isinstance(want, F) else None
            for _ in range(30 if hs else 0):
                extra = []
                for kind, bs in hs:
                    if kind == "exp":
                        v = [self.rng.choice((0, 0x80)) for _ in bs[:-1]] + [self.rng.randint(0, 14) | (self.rng.choice((0, 0x80)) if len(bs) == 1 else 0)]
                    else:
                        import struct
                        x = self.rng.choice((0.0, 1.0, -1.5, self.rng.uniform(-300, 300), self.rng.uniform(-2, 2)))
                        v = list(struct.pack(">f" if len(bs) == 4 else ">d", x))
                    extra += [(eq0(P(a) - y), 1) for a, y in zip(bs, v)]
                yield from assignments(st, self.rng, 1, extra, types=an.d["types"], pool2=pool2)
            yield from assignments(st, self.rng, 60 if pool2 else 40, types=an.d["types"], pool2=pool2)
        for env in envs():
            n += 1
            try:
                if isinstance(want, Poly):
                    x, y = env.num(got), env.num(want)
                    if x != y:
                        return ("ne", f"{path}: {short(got)} instead of {short(want)}; e.g. {x} instead of {y} for {witness(env, (got, want), st)}")
                else:
                    env.mag, env.over = 0, False
                    env.fv.clear()
                    x, y = env.f(got), env.f(want)
                    if env.over:
                        continue
                    if x != x or y != y:
                        if (x != x) != (y != y):
                            return ("ne", f"{path}: {short(got)} instead of {short(want)}; e.g. {x} instead of {y} for {witness(env, (got, want), st)}")
                    elif x != y:
                        if math_inf(x) or math_inf(y):
                            m += 1
                            continue
                        rel, ab = (3e-6, 1e-9) if has32(got) or has32(want) else (1e-12, 1e-14)
                        tol = rel * max(abs(x), abs(y), 1e-30) + ab * min(env.mag, 1e300)
                        if abs(x - y) > tol:
                            return ("ne", f"{path}: {short(got)} instead of {short(want)}; e.g. {x!r} instead of {y!r} for {witness(env, (got, want), st)}")
                m += 1
            except (EvalFail, OverflowError, RecursionError):
                continue
        if isinstance(want, F) and m >= 8:
            # equal on every sampled assignment of the two expression trees; equality of normal forms is not established
            return ("unk", f"{path}: {short(got)} vs {short(want)}: no difference found, forms differ")
        if isinstance(want, Poly):
            return ("unk", f"{path}: {short(got)} vs {short(want)}" + ("" if n else " (no assignment for this path)"))
        return ("unk", f"{path}: {short(got)} vs {short(want)}")

    def cmparr(self, an, st, got, want, path, d):
        got = self.settle(an, st, got)
        if isinstance(got, Agg) and got.name in ("vec", "box"):
            got = self.settle(an, st, got.fields[0])
            if isinstance(got, Agg) and got.name in ("vec", "box", "sl"):
                got = self.settle(an, st, got.fields[0])
        if not isinstance(got, ARR):
            return ("unk", f"{path}: array expected, got {got!r:.100}")
        if got == want:
            return "eq"
        r = self.cmpnum(an, st, got.len, want.len, path + ".len")
        if r != "eq":
            return r
        n = st.norm(want.len).const
        if n is not None and n <= 64:
            rs = []
            for i in range(n):
                try:
                    rs.append(self.cmp(an, st, an.it.arr_get(st, got, P(i)), an.it.arr_get(st, want, P(i)), f"{path}[{i}]", d + 1))
                except (Undecided, Fork, PathDead) as e:
                    rs.append(("unk", f"{path}[{i}]: {e}"))
            return self.allof(rs)
        # element at an arbitrary index
        an.it.nsym += 1
        i = P(atom("sym", f"idx@{an.it.nsym}", lo=0, hi=(1 << 62)))
        s = st.copy()
        if not s.add_le0(i + 1 - want.len):
            return "eq"
        try:
            return self.cmp(an, s, an.it.arr_get(s, got, i), an.it.arr_get(s, want, i), f"{path}[i]", d + 1)
        except (Undecided, PathDead) as e:
            return ("unk", f"{path}[i]: {e}")
        except Fork as f:
            rs = []
            for v in (1, 0):
                s2 = s.copy()
                if s2.assume(f.c, v):
                    s2.conds = s2.conds + ((f.c, v),)
                    try:
                        rs.append(self.cmp(an, s2, an.it.arr_get(s2, got, i), an.it.arr_get(s2, want, i), f"{path}[i]", d + 1))
                    except (Undecided, PathDead, Fork) as e:
                        rs.append(("unk", f"{path}[i]: {e}"))
            return self.allof(rs)

    def reach(self, an, st, why):
        """a structural difference counts only if the path is feasible"""
        if st.ghost.get("~approx"):
            return ("unk", f"{why}, on a path through a loop that can end in several ways")
        tn = [b for c, _ in st.conds for b in base_atoms(c) if fresh(b)]
        for env in assignments(st, self.rng, 25, types=an.d["types"]):
            return ("ne", f"{why}; e.g. for {witness(env, [c for c, _ in st.conds], st)}")
        return ("unk", f"{why}, on a path without a known witness" + (f" (uninterpreted {sorted(evalterm.REJECTED)[:2]})" if evalterm.REJECTED else ""))

    # ---- specification by cases
    def cases(self, an, outs, cases, name, site=None, key=None):
        """every outcome must agree with the specified value of every case it is compatible with"""
        hit = [0] * len(cases)
        for st, v in outs:
            for i, (c, want) in enumerate(cases):
                s = st.copy()
                cs = c if isinstance(c, (list, tuple)) else [c]
                good = True
                for x in cs:
                    x = P(x)
                    if s.decide(x) is None:
                        s.conds = s.conds + ((x, 1),)
                    if not s.assume(x, 1):
                        good = False
                        break
                if not good:
                    continue
                hit[i] += 1
                r = self.cmp(an, s, v, want)
                nm = f"{name}" + (f" [case {i}: {c!r:.60}]" if len(cases) > 1 else "")
                self.record(r, nm, "", site, key or name)
        return hit

    def equal(self, an, outs, want, name, site=None, key=None):
        return self.cases(an, outs, [(ONE, want)], name, site, key)

    def no_panic(self, an, name, site=None, skip=(), classes=None):
        """no panic obligation failed in this session"""
        for (fn, kind, msg), o in an.it.obl.items():
            k = f"{kind} in {fn}: {msg}"
            if not o["bad"]:
                self.ok(f"{name}: {k}")
                continue
            r = ("unk", "left to the library") if any(x in k for x in skip) else self.panic_witness(an, o)
            if r[0] == "ne":
                self.bad(f"{name}: {k}", f"line {o['line']}; {r[1]}", f"{fn}:{o['line']}", key=classes and classes(kind, o) or k)
            else:
                self.und(f"{name}: {k}", f"line {o['line']}; {r[1]}")

    def panic_witness(self, an, o):
        why = "not established"
        for st, cond, stack in o["cex"]:
            extra = [(cond, 0)] if cond.const is None else []
            if cond.const == 1:
                continue
            if st.ghost.get("~approx") or any(isinstance(b, Atom) and fresh(b) and (str(b.args[0]).startswith("_") or widened(an, str(b.args[0]))) for b in base_atoms(cond)):
                why = "depends on the result of a summarised loop"
                continue
            for env in assignments(st, self.rng, 25, extra, types=an.d["types"]):
                return ("ne", f"reached via {' > '.join(x for x in stack if not x.startswith('core'))} for {witness(env, [c for c, _ in st.conds] + [cond], st)}")
        return ("unk", why)

    # ---- finishing
    def finish(self):
        n = {"ok": 0, "undecided": 0, "violation": 0}
        for s, _, _ in self.obs:
            n[s] += 1
        unknown, matched = {}, {}
        for k, v in self.viol.items():
            e = match_known(self.known, k, v)
            (matched if e else unknown)[k] = (v, e)
        cov = dict(obligations=len(self.obs), discharged=n["ok"], undecided=n["undecided"],
                   checker_cmd=f"./check {self.pid}",
                   trusted_base=["rustc nightly front end (MIR of the current tree)", "engine/: abstract interpreter and its models of std and external crates",
                                 "marker code tables (each entry names its table and code) substituted for the ones the build script generates (the WMO files are absent)"],
                   functions_analysed=len(self.fns), functions=sorted(self.fns)[:80], samples=self.samples or [o[1] for o in self.obs[:5]] or ["none"],
                   rule=self.rule if hasattr(self, "rule") else "abstract value flow compared with the specification term by normal form", **self.stats)
        und = [dict(obligation=a, why=b[:300]) for s, a, b in self.obs if s == "undecided"]
        if und:
            cov["undecided_list"] = und[:60]
        if self.errors:
            cov["analysis_errors"] = self.errors[:20]
        if matched:
            cov["known_findings"] = sorted(matched)
        level = self.level
        if level == "other" or (level == "proof" and (und or self.errors)):
            cov["explanation"] = ("Abstract interpretation of the MIR of the current tree; obligations listed as undecided were not established and are not claimed. "
                                  + " ".join(self.notes))
            if level == "proof" and (und or self.errors):
                level = "other"
        ev = dict(property=self.pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level, coverage=cov,
                  assumptions=self.assume or ["models of std and external crates in engine/models.py are faithful"],
                  wall_s=round(time.time() - self.t0, 2), violations=len(unknown))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in sorted(matched):
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        print(f"{self.pid}: {len(self.obs)} obligations, {n['ok']} discharged, {n['undecided']} undecided, {len(unknown)} new violations, "
              f"{len(matched)} known; {len(self.fns)} functions; {ev['wall_s']} s")
        for u in und[:8]:
            print("  undecided:", u["obligation"][:200], "|", u["why"][:300])
        for e in self.errors[:5]:
            print("  analysis error:", e[:400])
        if unknown:
            rp = os.path.join(VERIF, "evidence", self.pid + ".violation.json")
            with open(rp, "w") as f:
                json.dump({k: v for k, (v, _) in unknown.items()}, f, indent=1)
            for k, (v, _) in list(unknown.items())[:10]:
                print(f"  {k}\n    {v['detail'][:900]}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        return 0


class Part:
    """a group of obligations: analysis failures inside make it undecided"""
    def __init__(self, chk, name):
        self.chk, self.name = chk, name

    def __enter__(self):
        return self

    def __exit__(self, t, e, tb):
        if t is None:
            return True
        if issubclass(t, (KeyboardInterrupt, SystemExit, frontend.FrontendError)):
            return False
        self.chk.und(self.name, f"{t.__name__}: {str(e)[:300]}")
        if os.environ.get("VP_TRACE"):
            traceback.print_exception(t, e, tb)
        if not issubclass(t, (Undecided, PathDead, Fork)):
            self.chk.errors.append(f"{self.name}: {t.__name__}: {str(e)[:200]} at " + " < ".join(f"{f.name}:{f.lineno}" for f in reversed(traceback.extract_tb(tb)[-4:])))
        return True


def math_inf(x):
    return x in (float("inf"), float("-inf"))


def float_inputs(xs):
    """the octets that make exponents and float bit patterns: [(kind, [octets in order])]"""
    out, seen = [], set()

    def order(p):
        bs = [b for b in base_atoms(p) if isinstance(b, Atom) and b.op == "elem" and b.w == 8]
        return sorted(bs, key=lambda b: repr(b.args[1]).zfill(30))

    def walk(x):
        if isinstance(x, tuple):
            for y in x:
                walk(y)
        elif isinstance(x, F):
            p = None
            if x.op == "powi" and isinstance(x.args[1], Poly):
                p, k = x.args[1], "exp"
            elif x.op == "frombits" and isinstance(x.args[0], Poly):
                p, k = x.args[0], "bits"
            if p is not None:
                bs = order(p)
                if k == "bits":
                    bs = sorted(bs, key=lambda b: -next((c for m, c in p.m.items() if len(m) == 1 and A(m[0]) is b), 0))
                    if len(bs) not in (4, 8):
                        bs = []
                key = (k, tuple(b.id for b in bs))
                if bs and key not in seen and not any(set(key[1]) & set(o) for _, o in seen):
                    seen.add(key)
                    out.append((k, bs))
            for y in x.args:
                walk(y)
        elif isinstance(x, Ite):
            walk(x.a)
            walk(x.b)
    walk(tuple(xs))
    return out


def widened(an, name):
    """a value of a summarised loop, or a part of one"""
    i = name.index("#") + 1
    while i < len(name) and name[i].isdigit():
        i += 1
    return name[:i] in an.it.widened


def fresh(b):
    """symbols invented by the analysis (loop heads, unknown results)"""
    if isinstance(b, Atom):
        return "#" in str(b.args[0])
    if isinstance(b, F):
        return "#" in str(b.args[0])
    return "#" in str(b[1])


def short(x):
    r = repr(x)
    return r if len(r) < 240 else r[:240] + "..."


def witness(env, terms, st):
    bs = set()
    for t in terms:
        bs |= base_atoms(t)
    out = []
    for b in bs:
        try:
            if isinstance(b, Atom):
                out.append(f"{b!r}={env.atom(b)}")
            elif isinstance(b, F):
                out.append(f"{b!r}={env.f(b)}")
        except (EvalFail, RecursionError):
            pass
    out.sort()
    return ", ".join(out[:14]) + (" ..." if len(out) > 14 else "") if out else "any input"


# ---------------------------------------------------------------- known findings

def load_known(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=" + pid + " "):
                r.append(l.split(" ", 2)[2])
    return r


def match_known(known, key, v):
    for k in known:
        if k == key:
            return k
    return None


def main(pid, run, level="proof"):
    c = Chk(pid, level)
    try:
        run(c)
    except frontend.FrontendError as e:
        print(f"{pid}: the current tree cannot be analysed: {e}")
        return 2
    return c.finish()
