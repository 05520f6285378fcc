"""Abstract interpreter over the dumped MIR: value-graph domain (terms.py), field-sensitive memory, trace partitioning on
undetermined branches with merging at call returns, loops by generalised states with inductively checked invariants."""
import re, time, sys
from fractions import Fraction
from terms import *
import terms

sys.setrecursionlimit(20000)


# ---------------------------------------------------------------- values

class Agg:
    """struct / tuple / closure / known enum variant"""
    __slots__ = ("name", "variant", "fields", "ty")

    def __init__(self, name, variant, fields, ty=None):
        self.name, self.variant, self.fields, self.ty = name, variant, tuple(fields), ty

    def __eq__(self, o):
        return self is o or (isinstance(o, Agg) and self.name == o.name and self.variant == o.variant and self.fields == o.fields)

    def __hash__(self):
        return hash((self.name, self.variant, self.fields))

    def __repr__(self):
        return f"{(self.name or '').split('::')[-1]}{'' if self.variant is None else '#' + str(self.variant)}({', '.join(map(repr, self.fields))})"


class Ptr:
    """pointer to a place; meta: None (thin) or ('sl', off, len) element at the end of path for slices"""
    __slots__ = ("cell", "path", "meta")

    def __init__(self, cell, path=(), meta=None):
        self.cell, self.path, self.meta = cell, path, meta

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.cell == o.cell and self.path == o.path and self.meta == o.meta

    def __hash__(self):
        return hash((self.cell, self.path))

    def __repr__(self):
        return f"&{self.cell}{list(self.path)}" + (f"~{self.meta}" if self.meta else "")


class Ite:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, Ite) and self.c == o.c and self.a == o.a and self.b == o.b

    def __hash__(self):
        return hash((self.c, self.a, self.b))

    def __repr__(self):
        return f"ite({self.c!r}, {self.a!r}, {self.b!r})"


class SymEnum:
    """enum of unknown variant; payload of variant v is fresh(ty, name.v)"""
    __slots__ = ("ty", "name", "discr")

    def __init__(self, ty, name, discr):
        self.ty, self.name, self.discr = ty, name, discr

    def __eq__(self, o):
        return isinstance(o, SymEnum) and self.name == o.name and self.ty == o.ty

    def __hash__(self):
        return hash((self.ty, self.name))

    def __repr__(self):
        return f"?{self.name}"


class Opq:
    """opaque value identified by tag and arguments (strings, errors, library objects, generic parameters)"""
    __slots__ = ("tag", "args")

    def __init__(self, tag, *args):
        self.tag, self.args = tag, args

    def __eq__(self, o):
        return isinstance(o, Opq) and self.tag == o.tag and self.args == o.args

    def __hash__(self):
        return hash((self.tag, self.args))

    def __repr__(self):
        return f"{self.tag}" + (f"({', '.join(map(repr, self.args))})" if self.args else "")


class FnV:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn

    def __eq__(self, o):
        return isinstance(o, FnV) and self.fn.get("inst", self.fn["p"]) == o.fn.get("inst", o.fn["p"])

    def __hash__(self):
        return hash(self.fn.get("inst", self.fn["p"]))

    def __repr__(self):
        return f"fn {self.fn['p']}"


class Uninit:
    def __repr__(self):
        return "uninit"

    def __eq__(self, o):
        return isinstance(o, Uninit)

    def __hash__(self):
        return 7


UN = Uninit()


# array-like contents
class VArr:
    __slots__ = ("el",)

    def __init__(self, el):
        self.el = tuple(el)

    @property
    def len(self):
        return P(len(self.el))

    def __eq__(self, o):
        return self is o or (isinstance(o, VArr) and self.el == o.el)

    def __hash__(self):
        return hash(self.el)

    def __repr__(self):
        return f"[{', '.join(map(repr, self.el[:8]))}{', ...' if len(self.el) > 8 else ''}]"


class SArr:
    """symbolic array: element i is element off+i of the named sequence"""
    __slots__ = ("name", "len", "ety", "off")

    def __init__(self, name, len, ety, off=ZERO):
        self.name, self.len, self.ety, self.off = name, len, ety, off

    def __eq__(self, o):
        return isinstance(o, SArr) and self.name == o.name and self.len == o.len and self.off == o.off

    def __hash__(self):
        return hash((self.name, self.len, self.off))

    def __repr__(self):
        return f"{self.name}[{self.off!r}..+{self.len!r}]"


class Fill:
    __slots__ = ("val", "len")

    def __init__(self, val, len):
        self.val, self.len = val, len

    def __eq__(self, o):
        return isinstance(o, Fill) and self.val == o.val and self.len == o.len

    def __hash__(self):
        return hash((self.val, self.len))

    def __repr__(self):
        return f"[{self.val!r}; {self.len!r}]"


class Cat:
    """concatenation of array contents"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    @property
    def len(self):
        r = ZERO
        for p in self.parts:
            r = r + p.len
        return r

    def __eq__(self, o):
        return isinstance(o, Cat) and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return " ++ ".join(map(repr, self.parts))


class Upd:
    """base with [off, off+src.len) replaced by src"""
    __slots__ = ("base", "off", "src")

    def __init__(self, base, off, src):
        self.base, self.off, self.src = base, off, src

    @property
    def len(self):
        return self.base.len

    def __eq__(self, o):
        return isinstance(o, Upd) and (self.base, self.off, self.src) == (o.base, o.off, o.src)

    def __hash__(self):
        return hash((self.base, self.off, self.src))

    def __repr__(self):
        return f"{self.base!r}{{{self.off!r}:={self.src!r}}}"


class Rev:
    """reversed array content"""
    __slots__ = ("base",)

    def __init__(self, base):
        self.base = base

    @property
    def len(self):
        return self.base.len

    def __eq__(self, o):
        return isinstance(o, Rev) and self.base == o.base

    def __hash__(self):
        return hash(("rev", self.base))

    def __repr__(self):
        return f"rev({self.base!r})"


class Comp:
    """array whose element i is body[var := i]"""
    __slots__ = ("var", "body", "len")

    def __init__(self, var, body, len):
        self.var, self.body, self.len = var, body, len

    def __eq__(self, o):
        return isinstance(o, Comp) and self.var == o.var and self.body == o.body and self.len == o.len

    def __hash__(self):
        return hash((self.var, self.len))

    def __repr__(self):
        return f"[{self.body!r} for {A(self.var)!r} < {self.len!r}]"


class PView:
    """elements off..off+len of an array content"""
    __slots__ = ("base", "off", "len")

    def __init__(self, base, off, len):
        self.base, self.off, self.len = base, off, len

    def __eq__(self, o):
        return isinstance(o, PView) and self.base == o.base and self.off == o.off and self.len == o.len

    def __hash__(self):
        return hash((self.base, self.off, self.len))

    def __repr__(self):
        return f"{self.base!r}[{self.off!r}..+{self.len!r}]"


ARR = (VArr, SArr, Fill, Cat, Upd, Rev, Comp, PView)


class Fork(Exception):
    def __init__(self, c):
        self.c = c


class Undecided(Exception):
    """the abstraction cannot interpret a construct"""


class NeedHavoc(Exception):
    def __init__(self, fid, h):
        self.fid, self.h = fid, h


class PathDead(Exception):
    pass


# ---------------------------------------------------------------- state

class St:
    __slots__ = ("mem", "iv", "lin", "known", "events", "conds", "nfork", "cty", "loops", "ghost")

    def __init__(self):
        self.mem = {}
        self.iv = {}
        self.lin = ()
        self.known = {}
        self.events = ()
        self.conds = ()  # sequence of (cond poly, 0/1) decided by forking
        self.nfork = 0
        self.cty = {}
        self.loops = {}
        self.ghost = {}

    def copy(self):
        n = St.__new__(St)
        n.mem = dict(self.mem)
        n.iv = dict(self.iv)
        n.lin = self.lin
        n.known = dict(self.known)
        n.events = self.events
        n.conds = self.conds
        n.nfork = self.nfork
        n.cty = self.cty
        n.loops = dict(self.loops)
        n.ghost = dict(self.ghost)
        return n

    # -- bounds
    def ab(self, a):
        lo, hi = a.lo, a.hi
        r = self.iv.get(a.id)
        if r is not None:
            if r[0] > lo:
                lo = r[0]
            if r[1] < hi:
                hi = r[1]
        if lo == hi:
            return lo, hi
        if a.op == "bits":
            r = self.iv.get(a.args[0])
            if r is not None and r[0] == r[1]:
                x = (int(r[0]) >> a.args[1]) & ((1 << a.args[2]) - 1)
                return x, x
        if a.op == "div":
            l, h = self.bounds(a.args[0])
            c = a.args[1]
            if l != -INF:
                lo = max(lo, int(l) // c)
            if h != INF:
                hi = min(hi, int(h) // c)
        elif a.op == "pow2":
            l, h = self.bounds(a.args[0])
            if l >= 0 and l != INF:
                lo = max(lo, 1 << int(min(l, 200)))
            if h <= 200:
                hi = min(hi, 1 << int(h))
        elif a.op == "le" and r is None:
            l, h = self.bounds(a.args[0])
            if h <= 0:
                return 1, 1
            if l > 0:
                return 0, 0
        elif a.op == "eq" and r is None:
            l, h = self.bounds(a.args[0])
            if l > 0 or h < 0:
                return 0, 0
            if l == h == 0:
                return 1, 1
        return lo, hi

    def bounds(self, p):
        lo = hi = 0
        for k, c in p.m.items():
            if not k:
                lo += c
                hi += c
                continue
            if len(k) == 1:
                l, h = self.ab(A(k[0]))
            else:
                l, h = 1, 1
                for x in k:
                    l2, h2 = self.ab(A(x))
                    cs = [imul(l, l2), imul(l, h2), imul(h, l2), imul(h, h2)]
                    l, h = min(cs), max(cs)
            if c >= 0:
                lo += imul(l, c)
                hi += imul(h, c)
            else:
                lo += imul(h, c)
                hi += imul(l, c)
        return lo, hi

    def norm(self, p):
        if not isinstance(p, Poly) or p.const is not None:
            return p
        iv = self.iv
        need = False
        for k in p.m:
            for x in k:
                a = A(x)
                if x in iv or a.op in ("eq", "le", "div", "ite") or a.op == "bits" and a.args[0] in iv:
                    l, h = self.ab(a)
                    if l == h:
                        need = True
        if not need:
            return p
        r = {}
        for k, c in p.m.items():
            nk = []
            for x in k:
                l, h = self.ab(A(x))
                if l == h:
                    c = c * int(l)
                else:
                    nk.append(x)
            if c:
                nk = tuple(nk)
                n = r.get(nk, 0) + c
                if n:
                    r[nk] = n
                else:
                    r.pop(nk, None)
        return mk(r)

    def implicit(self, atoms):
        out = []
        for x in atoms:
            a = A(x)
            if a.op == "div":
                p, c = a.args
                d = P(a) * c
                out.append(d - p)
                out.append(p - d - (c - 1))
            elif a.op in ("min", "max", "fact"):
                for q in a.args[-1] if a.op == "fact" else minmax_facts(a):
                    out.append(q)
        return out

    def prove_le0(self, p, depth=5):
        p = self.norm(p)
        if self.bounds(p)[1] <= 0:
            return True
        facts = [self.norm(q) for q in self.lin]
        ats = set(p.atoms())
        for q in facts:
            ats |= q.atoms()
        facts += self.implicit(ats)
        facts = [q for q in facts if q.const is None]
        prod = []
        return self._prove(p, facts, depth, set())

    def _prove(self, p, facts, depth, seen):
        lo, hi = self.bounds(p)
        if hi <= 0:
            return True
        if lo > 0:
            return False
        if depth == 0 or p in seen or len(seen) > 400:
            return False
        seen.add(p)
        # monomials sorted by how much they hurt
        hurts = []
        for k, c in p.m.items():
            if not k:
                continue
            l, h = self.bounds(Poly({k: c}))
            hurts.append((h - min(l, h) if h != INF else INF, h, k, c))
        hurts.sort(key=lambda t: (-t[1], t[2]))
        for _, h, k, c in hurts:
            if h != INF and h <= 0 and depth < 3:
                continue
            for q in facts:
                qc = q.m.get(k)
                if qc is None or (qc > 0) != (c > 0):
                    continue
                f = Fraction(c, qc)
                if f.denominator == 1:
                    f = f.numerator
                p2 = p - q * f if f != 1 else p - q
                if self._prove(p2, facts, depth - 1, seen):
                    return True
        return False

    def decide(self, c):
        """True/False/None for a 0/1 polynomial"""
        c = self.norm(c)
        v = c.const
        if v is not None:
            return bool(v)
        v = self.known.get(c)
        if v is not None:
            return bool(v)
        if len(c.m) == 1:
            (k, co), = c.m.items()
            if len(k) == 1 and co == 1:
                return self.decide_atom(A(k[0]))
            if co == 1:
                rs = [self.decide_atom(A(x)) for x in k]
                if any(r is False for r in rs):
                    return False
                if all(r is True for r in rs):
                    return True
                return None
        if len(c.m) == 2 and c.m.get(()) == 1:
            r = self.decide(ONE - c)
            return None if r is None else not r
        lo, hi = self.bounds(c)
        if lo >= 1:
            return True
        if hi <= 0:
            return False
        return None

    def decide_atom(self, a):
        l, h = self.ab(a)
        if l == h:
            return bool(l)
        if a.op == "le":
            p = a.args[0]
            if self.prove_le0(p):
                return True
            if self.prove_le0(ONE - p):
                return False
        elif a.op == "eq":
            p = self.norm(a.args[0])
            c = p.const
            if c is not None:
                return c == 0
            if self.prove_le0(ONE - p) or self.prove_le0(p + 1):
                return False
            if self.prove_le0(p) and self.prove_le0(-p):
                return True
        return None

    # -- assumptions (return False on contradiction); mutates self
    def set_iv(self, a, lo, hi):
        l, h = self.ab(a)
        lo, hi = max(lo, l), min(hi, h)
        if lo > hi:
            return False
        self.iv[a.id] = (lo, hi)
        if a.op == "bits" and lo == hi:
            pass
        return True

    def add_le0(self, p):
        p = self.norm(p)
        lo, hi = self.bounds(p)
        if lo > 0:
            return False
        if hi <= 0:
            return True
        ks = [k for k in p.m if k]
        if len(ks) == 1 and len(ks[0]) == 1:
            a = A(ks[0][0])
            c = p.m[ks[0]]
            b = p.m.get((), 0)
            if isinstance(c, int) and isinstance(b, int):
                if c > 0:
                    if not self.set_iv(a, -INF, (-b) // c):
                        return False
                else:
                    if not self.set_iv(a, ceildiv(b, -c), INF):
                        return False
                if a.op == "div":
                    q, d = a.args
                    l, h = self.ab(a)
                    if h != INF:
                        return self.add_le0(q - (d * h + d - 1))
                return True
        if p not in self.lin:
            if len(self.lin) < 200:
                self.lin = self.lin + (p,)
            if self.prove_le0(ONE - p, 3):
                return False
        return True

    watch = None

    def assume(self, c, v):
        r = self.assume0(c, v)
        if r and St.watch is not None:
            St.watch(self)
        return r

    def assume0(self, c, v):
        c = self.norm(c)
        k = c.const
        if k is not None:
            return bool(k) == bool(v)
        if len(c.m) == 2 and c.m.get(()) == 1 and all(x == -1 for kk, x in c.m.items() if kk):
            return self.assume0(ONE - c, not v)
        if len(c.m) == 1:
            (kk, co), = c.m.items()
            if co == 1:
                if len(kk) > 1 and self.known.get(c, int(v)) != int(v):
                    return False
                if len(kk) == 1:
                    return self.assume_atom(A(kk[0]), v)
                if v:
                    return all(self.assume_atom(A(x), True) for x in kk)
                und = [x for x in kk if self.decide_atom(A(x)) is not True]
                if len(und) == 1:
                    return self.assume_atom(A(und[0]), False)
        # product of complemented factors: (1-x)(1-y) = 1 - x - y + xy
        fs = factor01(c)
        if fs is not None:
            if v:
                return all(self.assume0(f, True) for f in fs)
            und = [f for f in fs if self.decide(f) is not True]
            if len(und) == 1:
                return self.assume0(und[0], False)
        self.known[c] = int(v)
        self.known[ONE - c] = 1 - int(v)
        fs = factor01(ONE - c)
        if fs is not None and not v:
            return all(self.assume0(f, True) for f in fs)
        lo, hi = self.bounds(c)
        return not (v and hi < 1) and not (not v and lo > 0)

    def assume_atom(self, a, v):
        l, h = self.ab(a)
        if l == h:
            return bool(l) == bool(v)
        self.iv[a.id] = (int(v), int(v))
        if a.op == "le":
            p = a.args[0]
            return self.add_le0(p if v else ONE - p)
        if a.op == "eq":
            p = self.norm(a.args[0])
            if v:
                c = p.m.get((), 0)
                q = p - c
                ks = list(q.m)
                if len(ks) == 1 and len(ks[0]) == 1 and isinstance(c, int):
                    co = q.m[ks[0]]
                    if (-c) % co:
                        return False
                    return self.set_iv(A(ks[0][0]), -c // co, -c // co)
                for sg in (1, -1):
                    ps = pieces(q * sg)
                    val = -c * sg
                    if ps is not None:
                        if val < 0:
                            return False
                        rest = val
                        for s, b, lo, n in ps:
                            m = ((1 << n) - 1) << s
                            bv = (val & m) >> s
                            rest &= ~m
                            pb = bits(b, lo, n)
                            (kk, cc), = pb.m.items()
                            if not self.set_iv(A(kk[0]), bv, bv):
                                return False
                        return rest == 0
                return self.add_le0(p) and self.add_le0(-p)
            ks = [k for k in p.m if k]
            if len(ks) == 1 and len(ks[0]) == 1:
                at = A(ks[0][0])
                co = p.m[ks[0]]
                b = -p.m.get((), 0)
                if co and b % co == 0:
                    x = b // co
                    l, h = self.ab(at)
                    if l == h == x:
                        return False
                    if l == x:
                        return self.set_iv(at, x + 1, INF)
                    if h == x:
                        return self.set_iv(at, -INF, x - 1)
            else:
                lo, hi = self.bounds(p)
                if lo == 0:
                    return self.add_le0(ONE - p)
                if hi == 0:
                    return self.add_le0(p + 1)
                if self.prove_le0(p, 3):
                    return self.add_le0(p + 1)
                if self.prove_le0(-p, 3):
                    return self.add_le0(ONE - p)
            return True
        return True


def ceildiv(a, b):
    return -((-a) // b)


def imul(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b


_mmf = {}


def minmax_facts(a):
    return ()


def factor01(c):
    """factor 1 - x - y + xy as [(1-x),(1-y)]; also x*(1-y) forms.  Returns list of factors or None"""
    ks = sorted((k for k in c.m if k), key=len)
    if c.m.get((), 0) == 1:
        singles = [k for k in ks if len(k) == 1 and c.m[k] == -1]
        if len(singles) >= 2 and len(singles) <= 6:
            pr = ONE
            fs = []
            for k in singles:
                f = ONE - Poly({k: 1})
                fs.append(f)
                pr = pr * f
            if pr == c:
                return fs
    elif ks:
        common = set(ks[0])
        for k in ks[1:]:
            common &= set(k)
        if common and len(ks) > 1:
            cm = tuple(sorted(common))
            rest = Poly({tuple(x for x in k if x not in common): v for k, v in c.m.items()})
            fs = [Poly({(x,): 1}) for x in cm]
            pr = rest
            for f in fs:
                pr = pr * f
            if pr == c:
                sub = factor01(rest)
                return fs + (sub if sub else [rest])
    return None


# ---------------------------------------------------------------- interpreter

DEADLINE = time.time() + 330


class Interp:
    def __init__(self, dump, hooks=None, models=None):
        self.d = dump
        self.types = dump["types"]
        self.bodies = dump["bodies"]
        self.adts = dump["adts"]
        self.hooks = hooks or {}
        self.models = models
        self.fid = 0
        self.obl = {}      # key -> dict(kind, fn, ok, st, msg)
        self.nob = 0
        self.stack = []
        self.visited = set()
        self.called = set()
        self.loop_records = {}
        self.steps = 0
        self.ext = None
        self.max_steps = 4_000_000
        self.havoc = set()       # (fnkey, header)
        self.unroll_limit = 3
        self.unroll_max = 4000
        self.files = dump["files"]
        self.cfg_cache = {}
        self.consts = {}
        self.nsym = 0
        self.widened = set()    # names of values of summarised loops that are known only by their type
        self.assume_ok = True    # continue after a failed assert assuming it holds
        self.obl_off = 0
        self.merge = True
        self.trace = False
        self.und = []
        self.cells = 0
        self.unmodelled = set()
        self.loop_hook = None

    # ---- types
    def T(self, i):
        return self.types[i]

    def tn(self, i):
        return self.types[i]["s"]

    def is_int(self, t):
        return t["k"] in ("int", "bool", "char")

    def rng(self, t):
        if t["k"] == "bool":
            return 0, 1
        if t["k"] == "char":
            return 0, 0x10ffff
        w = t["w"]
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if t["sg"] else (0, (1 << w) - 1)

    def find_ty(self, name):
        for i, t in enumerate(self.types):
            if t["s"] == name:
                return i
        raise Undecided(f"type {name} not found")

    # ---- fresh values
    def fresh(self, st, ti, name, depth=0):
        t = self.T(ti)
        k = t["k"]
        if k == "bool":
            return P(atom("sym", name, lo=0, hi=1, w=1))
        if k == "int":
            return sym(name, t["w"], t["sg"])
        if k == "char":
            return sym(name, 21, False, hi=0x10ffff)
        if k == "float":
            return F("sym", (name,), t["w"])
        if k == "tuple":
            return Agg("tuple", None, [self.fresh(st, x, f"{name}.{i}", depth + 1) for i, x in enumerate(t["a"])], ti)
        if k in ("ref", "ptr"):
            return self.fresh_ptr(st, t["t"], name, depth)
        if k == "array":
            if "len" in t and t["len"] <= 64:
                return VArr([self.fresh_elem(st, t["t"], name, P(i)) for i in range(t["len"])])
            if "len" in t:
                return SArr(name, P(t["len"]), t["t"])
        if k == "adt":
            n = t["n"]
            h = self.models.FRESH.get(n) if self.models else None
            if h:
                r = h(self, st, ti, t, name, depth)
                if r is not None:
                    return r
            ad = self.adts.get(n)
            if ad and "v" in t and None not in sum(t["v"], []):
                if ad["kind"] == "struct":
                    if depth > 12:
                        return Opq("sym", name)
                    fs = [f[0] for f in ad["variants"][0]["fields"]]
                    return Agg(n, None, [self.fresh(st, ft, f"{name}.{fn}", depth + 1) for ft, fn in zip(t["v"][0], fs)], ti)
                if ad["kind"] == "enum":
                    if not ad["variants"]:
                        return Opq("never", name)
                    ds = [v["discr"] for v in ad["variants"]]
                    if len(ds) == 1:
                        return Agg(n, 0, [self.fresh(st, ft, f"{name}.{i}", depth + 1) for i, ft in enumerate(t["v"][0])], ti)
                    d = sym(f"discr({name})", None, lo=min(ds), hi=max(ds))
                    if len(ds) == 2 and ds == [0, 1]:
                        d = P(atom("sym", f"discr({name})", lo=0, hi=1, w=1))
                    return SymEnum(ti, name, d)
        if k == "closure" and not t["up"]:
            return Agg("closure", None, [], ti)
        if k == "fndef":
            return FnV(t["c"])
        return Opq("sym", name, t["s"])

    def fresh_ptr(self, st, ti, name, depth=0):
        t = self.T(ti)
        cell = ("h", name)
        if cell not in st.mem:
            if t["k"] == "slice":
                st.mem[cell] = SArr(name, self.lensym(name), t["t"])
            elif t["k"] == "str":
                st.mem[cell] = Opq("strbuf", name)
                return Ptr(cell, (), None)
            else:
                st.mem[cell] = self.fresh(st, ti, "*" + name, depth + 1)
            st.cty[cell] = ti
        if t["k"] == "slice":
            return Ptr(cell, (), (ZERO, st.mem[cell].len))
        return Ptr(cell, (), None)

    def lensym(self, name):
        return P(atom("len", name, lo=0, hi=(1 << 63) - 1))

    def fresh_elem(self, st, ety, name, idx):
        if ety is None:
            return Opq("elem", name, idx)
        t = self.T(ety)
        if t["k"] == "int":
            lo, hi = self.rng(t)
            return P(atom("elem", name, idx, lo=lo, hi=hi, w=None if t["sg"] else t["w"]))
        if t["k"] == "float":
            return F("elem", (name, idx), t["w"])
        return self.fresh(st, ety, f"{name}[{idx!r}]", 1)

    # ---- memory
    def newcell(self, st, v, ti=None, tag="a"):
        self.cells += 1
        c = (tag, self.cells)
        st.mem[c] = v
        if ti is not None:
            st.cty[c] = ti
        return c

    def arr_get(self, st, arr, idx):
        idx = st.norm(idx)
        if isinstance(arr, Ite):
            d = st.decide(arr.c)
            if d is None:
                raise Fork(arr.c)
            return self.arr_get(st, arr.a if d else arr.b, idx)
        if isinstance(arr, VArr):
            c = idx.const
            if c is not None:
                if 0 <= c < len(arr.el):
                    return arr.el[c]
                raise PathDead()
            if arr.el and all(e == arr.el[0] for e in arr.el):
                return arr.el[0]
            lo, hi = st.bounds(idx)
            lo, hi = max(0, lo), min(hi, len(arr.el) - 1)
            if hi < lo:
                raise PathDead()
            if all(isinstance(e, Poly) and e.const is not None for e in arr.el):
                a = atom("sel", tuple(e.const for e in arr.el), idx, lo=min(e.const for e in arr.el), hi=max(e.const for e in arr.el))
                return P(a)
            if hi - lo < 16:
                last = None
                for v in range(int(lo), int(hi) + 1):
                    c = eq0(idx - v)
                    d = st.decide(c)
                    if d:
                        return arr.el[v]
                    if d is None:
                        if last is not None:
                            raise Fork(last[1])
                        last = (v, c)
                if last is None:
                    raise PathDead()
                return arr.el[last[0]]
            return Opq("select", arr, idx)
        if isinstance(arr, SArr):
            return self.fresh_elem(st, arr.ety, arr.name, arr.off + idx)
        if isinstance(arr, Fill):
            return arr.val
        if isinstance(arr, Cat):
            off = ZERO
            for p in arr.parts:
                c = le0(off + p.len - idx)  # idx >= off+len -> beyond
                d = st.decide(c)
                if d is None:
                    raise Fork(c)
                if not d:
                    return self.arr_get(st, p, idx - off)
                off = off + p.len
            raise PathDead()
        if isinstance(arr, Upd):
            c1 = le0(arr.off - idx)
            d = st.decide(c1)
            if d is None:
                raise Fork(c1)
            if not d:
                return self.arr_get(st, arr.base, idx)
            c2 = le0(idx + 1 - arr.off - arr.src.len)
            d = st.decide(c2)
            if d is None:
                raise Fork(c2)
            return self.arr_get(st, arr.src, idx - arr.off) if d else self.arr_get(st, arr.base, idx)
        if isinstance(arr, Rev):
            return self.arr_get(st, arr.base, arr.base.len - 1 - idx)
        if isinstance(arr, Comp):
            return subst(arr.body, {arr.var: idx})
        if isinstance(arr, PView):
            return self.arr_get(st, arr.base, arr.off + idx)
        if isinstance(arr, Opq):
            return Opq("elem", arr, idx)
        raise Undecided(f"index into {arr!r}")

    def arr_set(self, st, arr, idx, v):
        idx = st.norm(idx)
        c = idx.const
        if isinstance(arr, Ite):
            d = st.decide(arr.c)
            if d is None:
                raise Fork(arr.c)
            return self.arr_set(st, arr.a if d else arr.b, idx, v)
        if isinstance(arr, VArr) and c is not None:
            if not 0 <= c < len(arr.el):
                raise PathDead()
            el = list(arr.el)
            el[c] = v
            return VArr(el)
        if isinstance(arr, Opq):
            return Opq("upd", arr, idx)
        return Upd(arr, idx, VArr([v]))

    def arr_slice(self, st, arr, off, ln):
        """content of arr[off..off+ln] as array value"""
        off, ln = st.norm(off), st.norm(ln)
        if isinstance(arr, Opq):
            return PView(arr, off, ln)
        if isinstance(arr, Ite):
            d = st.decide(arr.c)
            if d is None:
                raise Fork(arr.c)
            return self.arr_slice(st, arr.a if d else arr.b, off, ln)
        if off.const == 0 and st.norm(arr.len - ln).const == 0:
            return arr
        if isinstance(arr, VArr) and off.const is not None and ln.const is not None:
            return VArr(arr.el[off.const:off.const + ln.const])
        if isinstance(arr, SArr):
            return SArr(arr.name, ln, arr.ety, arr.off + off)
        if isinstance(arr, Fill):
            return Fill(arr.val, ln)
        if ln.const is not None and ln.const <= 64:
            return VArr([self.arr_get(st, arr, off + i) for i in range(ln.const)])
        if isinstance(arr, Upd):
            # entirely inside the update or entirely outside
            d = st.decide(le0(arr.off - off))
            if d:
                if st.decide(le0(off + ln - arr.off - arr.src.len)):
                    return self.arr_slice(st, arr.src, off - arr.off, ln)
                if st.decide(le0(arr.off + arr.src.len - off)):
                    return self.arr_slice(st, arr.base, off, ln)
            elif st.decide(le0(off + ln - arr.off)):
                return self.arr_slice(st, arr.base, off, ln)
            return PView(arr, off, ln)
        if isinstance(arr, PView):
            return PView(arr.base, arr.off + off, ln)
        if isinstance(arr, Opq):
            return PView(arr, off, ln)
        return PView(arr, off, ln)

    def get(self, st, v, path):
        for e in path:
            v = self.get1(st, v, e)
        return v

    def get1(self, st, v, e):
        if isinstance(v, Ite):
            d = st.decide(v.c)
            if d is None:
                raise Fork(v.c)
            return self.get1(st, v.a if d else v.b, e)
        if isinstance(e, int):
            if isinstance(v, Agg):
                if v.name == "box":
                    return v
                if e < len(v.fields):
                    return v.fields[e]
                raise Undecided(f"field {e} of {v!r}")
            if isinstance(v, (F,)):
                return v
            if isinstance(v, Ptr):
                return v      # NonNull / Unique wrappers are transparent
            if isinstance(v, Opq):
                return Opq("field", v, e)
            if isinstance(v, Uninit):
                return UN
            if isinstance(v, ARR):
                return Opq("field", v, e)
            if isinstance(v, Poly):
                return v
            raise Undecided(f"field {e} of {v!r}")
        if e == "b" or e == "bx":
            if isinstance(v, Agg) and v.name in ("vec", "box"):
                return v.fields[0]
            if isinstance(v, Opq):
                return Opq("field", v, e)
            raise Undecided(f"buffer of {v!r}")
        if e[0] == "v":
            return self.as_variant(st, v, e[1])
        if e[0] == "i":
            return self.arr_get(st, v, e[1])
        if e[0] == "sl":
            return self.arr_slice(st, v, e[1], e[2])
        raise Undecided(f"projection {e}")

    def as_variant(self, st, v, k):
        if isinstance(v, Agg):
            if v.variant != k:
                raise PathDead()
            return v
        if isinstance(v, SymEnum):
            t = self.T(v.ty)
            return Agg(t["n"], k, [self.fresh(st, ft, f"{v.name}.{self.adts[t['n']]['variants'][k]['name']}.{i}", 2) for i, ft in enumerate(t["v"][k])], v.ty)
        if isinstance(v, Opq):
            return Opq("as", v, k)
        if isinstance(v, Uninit):
            return Agg(None, k, [UN] * 8)
        raise Undecided(f"variant {k} of {v!r}")

    def put(self, st, v, path, nv):
        if not path:
            return nv
        e = path[0]
        if isinstance(v, Ite):
            d = st.decide(v.c)
            if d is None:
                raise Fork(v.c)
            return self.put(st, v.a if d else v.b, path, nv)
        if isinstance(e, int):
            if isinstance(v, Agg):
                fs = list(v.fields)
                while len(fs) <= e:
                    fs.append(UN)
                fs[e] = self.put(st, fs[e], path[1:], nv)
                return Agg(v.name, v.variant, fs, v.ty)
            if isinstance(v, Uninit):
                fs = [UN] * (e + 1)
                fs[e] = self.put(st, UN, path[1:], nv)
                return Agg(None, None, fs)
            if isinstance(v, (Ptr, Opq)):
                if len(path) == 1 and isinstance(v, Ptr):
                    return nv
                return Opq("upd", v, e)
            raise Undecided(f"store to field {e} of {v!r}")
        if e == "b" or e == "bx":
            if isinstance(v, Opq):
                return Opq("upd", v, e)
            return Agg(v.name, v.variant, [self.put(st, v.fields[0], path[1:], nv)], v.ty)
        if e[0] == "v":
            return self.put(st, self.as_variant(st, v, e[1]), path[1:], nv)
        if e[0] == "i":
            if len(path) == 1:
                return self.arr_set(st, v, e[1], nv)
            old = self.arr_get(st, v, e[1])
            return self.arr_set(st, v, e[1], self.put(st, old, path[1:], nv))
        if e[0] == "sl":
            off, ln = e[1], e[2]
            if len(path) > 1:
                nv = self.put(st, self.arr_slice(st, v, off, ln), path[1:], nv)
            return self.arr_write(st, v, off, nv)
        raise Undecided(f"store through {e}")

    def arr_write(self, st, arr, off, src):
        off = st.norm(off)
        if isinstance(arr, VArr) and off.const is not None and isinstance(src, VArr):
            el = list(arr.el)
            el[off.const:off.const + len(src.el)] = src.el
            return VArr(el)
        if off.const == 0 and st.norm(src.len - arr.len).const == 0:
            return src
        if isinstance(arr, Upd) and isinstance(arr.src, SArr) and isinstance(src, SArr) and arr.src.name == src.name:
            # adjacent pieces of the same sequence
            l1 = arr.src.len
            if st.norm(off - arr.off - l1).const == 0 and st.norm(src.off - arr.src.off - l1).const == 0:
                return self.arr_write(st, arr.base, arr.off, SArr(src.name, st.norm(l1 + src.len), src.ety, arr.src.off))
        if isinstance(arr, VArr) and isinstance(src, Fill) and src.len.const is not None and off.const is not None:
            return self.arr_write(st, arr, off, VArr([src.val] * src.len.const))
        return Upd(arr, off, src)

    def load(self, st, addr):
        cell, path = addr
        v = st.mem.get(cell, UN)
        return self.get(st, v, path)

    def store(self, st, addr, v):
        cell, path = addr
        st.mem[cell] = self.put(st, st.mem.get(cell, UN), path, v) if path else v

    def deref(self, st, v):
        """pointer value -> (address, meta)"""
        if isinstance(v, Ite):
            d = st.decide(v.c)
            if d is None:
                raise Fork(v.c)
            return self.deref(st, v.a if d else v.b)
        if isinstance(v, Agg) and v.fields and v.name and ("NonNull" in v.name or "Unique" in v.name or "Pin" in v.name):
            return self.deref(st, v.fields[0])
        if isinstance(v, Agg) and v.name == "box":
            c = self.newcell(st, v, None, "bt")
            return (c, ("bx",)), self.box_meta(v)
        if isinstance(v, Ptr):
            return (v.cell, v.path), v.meta
        if isinstance(v, Opq):
            cell = ("o", v)
            if cell not in st.mem:
                st.mem[cell] = Opq("deref", v)
            return (cell, ()), None
        raise Undecided(f"dereference of {v!r}")

    def ptr_load(self, st, p):
        """value behind a pointer (array content for slices)"""
        (c, path), meta = self.deref(st, p)
        if meta is not None:
            return self.arr_slice(st, self.load(st, (c, path)), meta[0], meta[1])
        return self.load(st, (c, path))

    # ---- places
    def addr(self, st, fr, place):
        local, proj, _ = place
        cell = (fr, local)
        path = ()
        meta = None
        for e in proj:
            if e == "*":
                v = self.load(st, (cell, path))
                v = self.settle(st, v)
                if isinstance(v, Agg) and v.name == "box":
                    path = path + ("bx",)
                    meta = self.box_meta(v)
                else:
                    (cell, path), meta = self.deref(st, v)
            elif e[0] == "f":
                if any(path[-1:] == x for x in ()) or not self.is_box(st, cell, path):
                    path = path + (e[1],)
                meta = None
            elif e[0] == "i":
                idx = self.load(st, ((fr, e[1]), ()))
                off = meta[0] if meta is not None else ZERO
                path = path + (("i", off + idx),)
                meta = None
            elif e[0] == "c":
                off, mn, fe = e[1], e[2], e[3]
                if meta is not None:
                    b, ln = meta
                else:
                    arr = self.load(st, (cell, path))
                    b, ln = ZERO, self.arrlen(arr)
                idx = b + off if not fe else b + ln - off
                path = path + (("i", idx),)
                meta = None
            elif e[0] == "s":
                if meta is not None:
                    b, ln = meta
                else:
                    arr = self.load(st, (cell, path))
                    b, ln = ZERO, self.arrlen(arr)
                fr_, to, fe = e[1], e[2], e[3]
                meta = (b + fr_, ln - fr_ - to if fe else P(to - fr_))
            elif e[0] == "d":
                path = path + (("v", e[1]),)
            else:
                raise Undecided(f"projection {e}")
        return cell, path, meta

    def settle(self, st, v):
        while isinstance(v, Ite):
            d = st.decide(v.c)
            if d is None:
                raise Fork(v.c)
            v = v.a if d else v.b
        return v

    def settle_all(self, st, v):
        """[(state, value)] with the conditional structure at the top of v resolved"""
        if not isinstance(v, Ite):
            return [(st, v)]
        d = st.decide(v.c)
        out = []
        for b in (1, 0):
            if d is not None and d != bool(b):
                continue
            s = st
            if d is None:
                s = st.copy()
                s.nfork += 1
                s.conds = s.conds + ((st.norm(v.c), b),)
                if not s.assume(v.c, b):
                    continue
            out += self.settle_all(s, v.a if b else v.b)
        return out

    def arrlen(self, arr):
        if isinstance(arr, Opq):
            return self.lensym(repr(arr))
        return arr.len

    def box_meta(self, v):
        c = v.fields[0]
        if isinstance(c, ARR) and (v.variant == "sl"):
            return (ZERO, c.len)
        return None

    def is_box(self, st, cell, path):
        v = st.mem.get(cell)
        if v is None:
            return False
        try:
            v = self.get(st, v, path)
        except (Undecided, PathDead):
            return False
        if isinstance(v, Ite):
            v = self.settle(st, v)
        return isinstance(v, Agg) and v.name == "box"

    def read_place(self, st, fr, place):
        c, p, meta = self.addr(st, fr, place)
        v = self.load(st, (c, p))
        if meta is not None:
            v = self.arr_slice(st, v, meta[0], meta[1])
        return v

    # ---- operands
    def operand(self, st, fr, o):
        if o[0] in ("cp", "mv"):
            v = self.read_place(st, fr, o[1])
            if isinstance(v, Poly):
                v = st.norm(v)
            elif o[0] == "cp" and isinstance(v, Agg) and v.name == "box" and o[1][1][-1:] == ["*"] and self.own_code():
                # only dereferences copy a box out of a reference: keep pointing at the original's content
                c, p, _ = self.addr(st, fr, o[1])
                return Ptr(c, p + ("bx",), self.box_meta(v))
            return v
        if o[0] == "k":
            return self.constant(st, fr, o[1])
        if o[0] == "val":
            return o[1]
        if o[0] == "rt":
            # runtime checks (e.g. UbChecks, overflow checks): off
            return ZERO
        raise Undecided(f"operand {o}")

    def own_code(self):
        return bool(self.stack) and self.stack[-1][0].lstrip("<").startswith("grib")

    def op_ty(self, o):
        if o[0] in ("cp", "mv"):
            return o[1][2]
        return o[1].get("t")

    def constant(self, st, fr, k):
        if "fn" in k:
            return FnV(k["fn"])
        t = self.T(k["t"])
        if "v" in k:
            v = int(k["v"])
            if t["k"] == "float":
                import struct
                if t["w"] == 32:
                    return fconst(struct.unpack(">f", v.to_bytes(4, "big"))[0], 32)
                return fconst(struct.unpack(">d", v.to_bytes(8, "big"))[0], 64)
            return P(v)
        if "str" in k:
            return self.str_ptr(st, k["str"])
        if "bytes" in k:
            cell = ("kb", tuple(k["bytes"]))
            st.mem.setdefault(cell, VArr([P(x) for x in k["bytes"]]))
            inner = self.T(t["t"])
            if inner["k"] == "array":
                return Ptr(cell, ())
            return Ptr(cell, (), (ZERO, P(len(k["bytes"]))))
        if "prom" in k:
            body = self.cur_body(fr)
            return self.promoted(st, body, k["prom"])
        if "static" in k:
            key = "const " + k["static"]
            if key in self.bodies:
                v = self.const_value(st, key)
                cell = ("static", k["static"])
                st.mem.setdefault(cell, v)
                return Ptr(cell, ())
            v = self.ext_const(st, key)
            if v is not None:
                cell = ("static", k["static"])
                st.mem.setdefault(cell, v)
                return Ptr(cell, ())
            return Opq("static", k["static"])
        if "def" in k:
            key = "const " + k["def"]
            if key in self.bodies:
                return self.const_value(st, key)
            h = self.models.CONSTS.get(k["def"]) if self.models else None
            if h:
                return h(self, st, t, k)
            v = self.ext_const(st, key)
            if v is not None:
                return v
            return self.const_by_type(st, t, k)
        if k.get("zst") or t["k"] in ("tuple", "adt", "closure"):
            return self.const_by_type(st, t, k)
        return Opq("const", k.get("d", ""), t["s"])

    def const_by_type(self, st, t, k):
        if t["k"] == "tuple" and not t["a"]:
            return Agg("tuple", None, [])
        if t["k"] == "closure":
            return Agg("closure", None, [], k["t"])
        if t["k"] == "fndef":
            return FnV(t["c"])
        if t["k"] == "adt":
            ad = self.adts.get(t["n"])
            if ad and ad["kind"] == "struct" and not ad["variants"][0]["fields"]:
                return Agg(t["n"], None, [], k["t"])
            if ad and ad["kind"] == "enum":
                d = k.get("d", "")
                d = d.replace("const ", "").strip()
                last = d.split("::")[-1]
                for i, v in enumerate(ad["variants"]):
                    if v["name"] == last and not v["fields"]:
                        return Agg(t["n"], i, [], k["t"])
                # the null pointer as an optional reference
                pay = self.T(t["v"][1][0]) if t["n"] == "core::option::Option" and t["v"][1] else {}
                if pay.get("k") == "ref" and re.match(r"\{transmute\(0x0+\): ", d):
                    return Agg(t["n"], 0, [], k["t"])
        return Opq("const", k.get("def") or k.get("d", ""), t["s"])

    def str_ptr(self, st, s):
        cell = ("str", s)
        st.mem.setdefault(cell, Opq("str", s))
        return Ptr(cell, ())

    def const_value(self, st, key):
        if key not in self.consts:
            s2 = St()
            s2.cty = st.cty
            self.obl_off += 1
            try:
                outs = self.run_body(key, self.bodies[key]["b"], [], s2, self.bodies[key])
            finally:
                self.obl_off -= 1
            if len(outs) != 1:
                raise Undecided(f"constant {key} does not evaluate")
            self.consts[key] = (outs[0][1], outs[0][0].mem)
        v, mem = self.consts[key]
        for c, x in mem.items():
            st.mem.setdefault(c, x)
        return v

    def ext_const(self, st, key):
        """a constant of a crate dumped separately"""
        if self.ext is None or not self.ext():
            return None
        o = self.ext()
        if key not in o.bodies:
            return None
        if ("ext", key) not in self.consts:
            s2 = St()
            try:
                v = o.const_value(s2, key)
                v = untyped(v)
                mem = {("x",) + c if c[0] != "str" else c: untyped(x) for c, x in s2.mem.items()}
            except Undecided:
                v, mem = None, {}
            self.consts[("ext", key)] = (v, mem)
        v, mem = self.consts[("ext", key)]
        for c, x in mem.items():
            st.mem.setdefault(c, x)
        return v

    def promoted(self, st, body, n):
        key = ("prom", id(body), n)
        if key not in self.consts:
            s2 = St()
            s2.cty = st.cty
            self.obl_off += 1
            try:
                outs = self.run_body(key, body["promoted"][n], [], s2, body)
            finally:
                self.obl_off -= 1
            if len(outs) != 1:
                raise Undecided("promoted constant does not evaluate")
            self.consts[key] = (outs[0][1], outs[0][0].mem)
        v, mem = self.consts[key]
        for c, x in mem.items():
            st.mem.setdefault(c, x)
        return v

    def cur_body(self, fr):
        return self.frames[fr]

    frames = {}

    # ---- rvalues
    def wrap(self, p, t, st, what="wrap"):
        """value of the integer p reduced to type t"""
        lo, hi = self.rng(t)
        l, h = st.bounds(p)
        if l >= lo and h <= hi:
            return p
        if (l < lo or h > hi) and st.prove_le0(p - hi) and st.prove_le0(lo - p):
            return p
        w = t.get("w", 8)
        if not t.get("sg"):
            if p.const is not None:
                return P(p.const % (1 << w))
            if l >= 0:
                r = mask_p(p, (1 << w) - 1)
                if r is not None:
                    return r
            # signed atom reinterpretation: conditional
            if l >= -(1 << w) and h <= hi:
                c = le0(p + 1)  # negative
                return ite(c, p + (1 << w), p)
            # opaque: at least drop what is a multiple of 2^w
            q = Poly({k: c for k, c in p.m.items() if c % (1 << w)})
            return P(atom("mod", q, w, lo=0, hi=(1 << w) - 1, w=w))
        if p.const is not None:
            v = p.const % (1 << w)
            return P(v - (1 << w) if v >> (w - 1) else v)
        if l >= 0:
            r = mask_p(p, (1 << w) - 1)
            if r is not None:
                top = shr_p(r, w - 1)
                return r - top * (1 << w)
            if h < (1 << w):
                return ite(le0(p - hi), p, p - (1 << w))
        if l >= lo - (1 << w) and h <= hi and what == "wrap":
            return ite(le0(p + 1 - lo), p + (1 << w), p)
        if h <= hi + (1 << w) and l >= lo:
            return ite(le0(p - hi), p, p - (1 << w))
        return P(atom("smod", p, w, lo=lo, hi=hi))

    def cast(self, st, kind, v, tt, ft):
        if isinstance(v, Ite):
            d = st.decide(v.c)
            if d is None:
                raise Fork(v.c)
            return self.cast(st, kind, v.a if d else v.b, tt, ft)
        if kind.startswith("IntToInt"):
            if isinstance(v, Agg) and v.variant is not None:
                v = P(self.adts[v.name]["variants"][v.variant]["discr"])
            if isinstance(v, SymEnum):
                v = v.discr
            if not isinstance(v, Poly):
                return Opq("cast", v, tt["s"])
            return self.wrap(v, tt, st)
        if kind.startswith("IntToFloat"):
            if isinstance(v, Poly):
                c = v.const
                if c is not None and abs(c) < (1 << 24 if tt["w"] == 32 else 1 << 53):
                    return fconst(float(c), tt["w"])
                return F("i2f", (v,), tt["w"])
            return F("i2f", (v,), tt["w"])
        if kind.startswith("FloatToInt"):
            if isinstance(v, F) and v.op == "const":
                x = fval(v)
                lo, hi = self.rng(tt)
                return P(max(lo, min(hi, int(x))))
            if isinstance(v, F) and v.op == "i2f" and isinstance(v.args[0], Poly):
                l, h = st.bounds(v.args[0])
                lo, hi = self.rng(tt)
                m = (1 << 24) if v.w == 32 else (1 << 53)
                if l >= max(lo, -m) and h <= min(hi, m):
                    return v.args[0]
            lo, hi = self.rng(tt)
            return P(atom("f2i", v, lo=lo, hi=hi, w=None if tt.get("sg") else tt["w"]))
        if kind.startswith("FloatToFloat"):
            if isinstance(v, F):
                if v.w == tt["w"]:
                    return v
                if v.op == "const" and tt["w"] == 64:
                    return fconst(fval(v), 64)
                if v.op == "nan":
                    return F("nan", (), tt["w"])
                return F("fcast", (v,), tt["w"])
            return v
        if kind.startswith("PointerCoercion") or kind.startswith("PtrToPtr") or "Transmute" in kind or kind.startswith("Unsize"):
            if "Unsize" in kind:
                return self.unsize(st, v, tt, ft)
            if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind or "MutToConst" in kind:
                return v
            if "Transmute" in kind:
                return self.transmute(st, v, tt, ft)
            return v
        if kind.startswith("FnPtrToPtr"):
            return v
        if kind.startswith("PointerExposeProvenance") or kind.startswith("PointerWithExposed"):
            return Opq("ptrint", v)
        if kind.startswith("Subtype"):
            return v
        raise Undecided(f"cast {kind}")

    def transmute(self, st, v, tt, ft):
        if tt["k"] in ("ptr", "ref"):
            while isinstance(v, Agg) and v.fields:
                v = v.fields[0]
            return v
        if tt["k"] == "adt" and isinstance(v, Ptr):
            return v
        if isinstance(v, Poly) and tt["k"] == "int":
            return self.wrap(v, tt, st)
        if isinstance(v, Poly) and tt["k"] == "float":
            return F("frombits", (v,), tt["w"])
        if isinstance(v, F) and tt["k"] == "int":
            if v.op == "frombits":
                return v.args[0]
            return P(atom("f2bits", v, lo=0, hi=(1 << tt["w"]) - 1, w=tt["w"]))
        if isinstance(v, VArr) and tt["k"] == "int":
            # native (little endian) bytes
            r = ZERO
            for i, e in enumerate(v.el):
                r = r + e * (1 << (8 * i))
            return self.wrap(r, tt, st)
        if isinstance(v, Poly) and tt["k"] == "array":
            n = tt["len"]
            u = self.wrap(v, {"k": "int", "w": 8 * n, "sg": False}, st)
            r = []
            for i in range(n):
                x = shr_p(u, 8 * i)
                x = mask_p(x, 255) if x is not None else None
                if x is None:
                    x = P(atom("byteof", u, i, lo=0, hi=255, w=8))
                r.append(x)
            return VArr(r)
        if ft["s"] == tt["s"]:
            return v
        if isinstance(v, Agg) and len(v.fields) == 1:
            return self.transmute(st, v.fields[0], tt, ft)
        return Opq("transmute", v, tt["s"])

    def unsize(self, st, v, tt, ft):
        if isinstance(v, Agg) and v.name == "box":
            if isinstance(v.fields[0], ARR) and "dyn" not in tt["s"]:
                return Agg("box", "sl", v.fields)
            return v
        if isinstance(v, Agg) and v.fields:
            fs = list(v.fields)
            fs[0] = self.unsize(st, fs[0], tt, ft)
            return Agg(v.name, v.variant, fs, v.ty)
        if isinstance(v, Ptr) and v.meta is None:
            try:
                arr = self.load(st, (v.cell, v.path))
            except Undecided:
                return v
            if isinstance(arr, ARR) and "[" in tt["s"] and "dyn" not in tt["s"]:
                return Ptr(v.cell, v.path, (ZERO, arr.len))
        return v

    def rvalue(self, st, fr, rv, dty):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "rep":
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            if isinstance(n, int):
                return VArr([v] * n) if n <= 64 else Fill(v, P(n))
            raise Undecided("repeat of generic length")
        if k in ("ref", "raw"):
            pl = rv[2]
            # reborrow of a whole pointer keeps it as is
            c, p, meta = self.addr(st, fr, pl)
            return Ptr(c, p, meta)
        if k == "cast":
            if "Transmute" in rv[1] and rv[2][0] in ("cp", "mv") and self.T(rv[3])["k"] in ("ptr", "ref"):
                c, p, meta = self.addr(st, fr, rv[2][1])
                if self.is_box(st, c, p):
                    return Ptr(c, p + ("bx",), self.box_meta(self.settle(st, self.load(st, (c, p)))))
            v = self.operand(st, fr, rv[2])
            if isinstance(v, FnV) or (isinstance(v, Agg) and v.name == "closure"):
                return v
            return self.cast(st, rv[1], v, self.T(rv[3]), self.T(rv[4]))
        if k == "bin":
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            return self.binop(st, rv[1], a, b, self.T(self.op_ty(rv[2])), self.T(self.op_ty(rv[3])))
        if k == "un":
            a = self.operand(st, fr, rv[2])
            t = self.T(self.op_ty(rv[2]))
            if rv[1] == "Not":
                if t["k"] == "bool":
                    return ONE - self.as_int(st, a)
                a = self.as_int(st, a)
                lo, hi = self.rng(t)
                return (P(hi) - a) if not t["sg"] else (-a - 1)
            if rv[1] == "Neg":
                if isinstance(a, F):
                    return fop("neg", a.w, a)
                return self.wrap(-self.as_int(st, a), t, st)
            if rv[1] == "PtrMetadata":
                if isinstance(a, Ite):
                    d = st.decide(a.c)
                    if d is None:
                        raise Fork(a.c)
                    a = a.a if d else a.b
                if isinstance(a, Ptr) and a.meta is not None:
                    return a.meta[1]
                if isinstance(a, Ptr):
                    x = self.load(st, (a.cell, a.path))
                    if isinstance(x, Opq) and x.tag == "str":
                        return P(len(x.args[0].encode()))
                    if isinstance(x, ARR):
                        return x.len
                    return self.lensym(repr(x))
                return self.lensym(repr(a))
            raise Undecided(f"unary {rv[1]}")
        if k == "discr":
            v = self.read_place(st, fr, rv[1])
            return self.discr(st, v)
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in rv[2]]
            kk = rv[1]
            if kk[0] == "tuple":
                return Agg("tuple", None, ops, dty)
            if kk[0] == "array":
                return VArr(ops)
            if kk[0] == "adt":
                ad = self.adts[kk[1]]
                if ad["kind"] == "union":
                    return Agg(kk[1], None, ops, dty)
                return Agg(kk[1], kk[2] if ad["kind"] == "enum" else None, ops, dty)
            if kk[0] == "closure":
                return Agg("closure", None, ops, kk[2])
            # raw pointers from parts
            if ops and isinstance(ops[0], Ptr):
                p = ops[0]
                if len(ops) > 1 and isinstance(ops[1], Poly):
                    return self.slice_from(st, p, ops[1])
                return p
            return Opq("agg", str(kk), *ops)
        if k == "tls":
            return Opq("tls", rv[1])
        raise Undecided(f"rvalue {k}")

    def slice_from(self, st, p, ln):
        """slice pointer of ln elements starting at element pointer p"""
        if p.path and isinstance(p.path[-1], tuple) and p.path[-1][0] == "i":
            return Ptr(p.cell, p.path[:-1], (p.path[-1][1], ln))
        return Ptr(p.cell, p.path, (p.meta[0] if p.meta else ZERO, ln))

    def discr(self, st, v):
        if isinstance(v, Ite):
            d = st.decide(v.c)
            if d is not None:
                return self.discr(st, v.a if d else v.b)
            return ite(v.c, self.discr(st, v.a), self.discr(st, v.b))
        if isinstance(v, Agg) and v.variant is not None:
            ad = self.adts.get(v.name)
            if ad:
                return P(ad["variants"][v.variant]["discr"])
            return P(v.variant)
        if isinstance(v, SymEnum):
            return v.discr
        if isinstance(v, Opq):
            return P(atom("discr", v))
        if isinstance(v, Uninit):
            self.nsym += 1
            return P(atom("sym", f"uninit#{self.nsym}"))   # only reached for optimised-away assumptions
        raise Undecided(f"discriminant of {v!r}")

    def as_int(self, st, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, Ite):
            return ite(v.c, self.as_int(st, v.a), self.as_int(st, v.b))
        if isinstance(v, SymEnum):
            return v.discr
        if isinstance(v, Agg) and v.variant is not None and v.name in self.adts:
            return P(self.adts[v.name]["variants"][v.variant]["discr"])
        if isinstance(v, Agg) and len(v.fields) == 1:
            return self.as_int(st, v.fields[0])
        if isinstance(v, (Opq, Uninit)):
            return P(atom("opq", v))
        if isinstance(v, Ptr):
            return P(atom("addrof", v))
        raise Undecided(f"integer expected, got {v!r}")

    def as_f(self, st, v, w=64):
        if isinstance(v, F):
            return v
        if isinstance(v, Ite):
            d = st.decide(v.c)
            if d is not None:
                return self.as_f(st, v.a if d else v.b, w)
            return F("ite", (v.c, self.as_f(st, v.a, w), self.as_f(st, v.b, w)), w)
        return F("opq", (v,), w)

    def binop(self, st, op, a, b, ta, tb):
        if ta["k"] == "float":
            x, y = self.as_f(st, a, ta["w"]), self.as_f(st, b, ta["w"])
            w = ta["w"]
            if op in ("Add", "Sub", "Mul", "Div", "Rem"):
                return fop(op.lower(), w, x, y)
            if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                return self.fcmp(op, x, y)
            raise Undecided(f"float op {op}")
        if ta["k"] in ("ptr", "ref", "fnptr"):
            if op in ("Eq", "Ne"):
                r = self.ptr_eq(st, a, b)
                return r if op == "Eq" else ONE - r
            if op == "Offset":
                n = self.as_int(st, b)
                return self.ptr_offset(st, a, n)
            raise Undecided(f"pointer op {op}")
        if op == "Cmp":
            x, y = self.as_int(st, a), self.as_int(st, b)
            lt = le0(x - y + 1)
            eq = eq0(x - y)
            d1 = st.decide(lt)
            if d1 is None:
                raise Fork(lt)
            if d1:
                return Agg("core::cmp::Ordering", 0, [])
            d2 = st.decide(eq)
            if d2 is None:
                raise Fork(eq)
            return Agg("core::cmp::Ordering", 1 if d2 else 2, [])
        x, y = self.as_int(st, a), self.as_int(st, b)
        x, y = st.norm(x), st.norm(y)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if op == "Eq":
                return self.cond_eq(st, x, y)
            if op == "Ne":
                return ONE - self.cond_eq(st, x, y)
            if op == "Lt":
                return le0(x - y + 1)
            if op == "Le":
                return le0(x - y)
            if op == "Gt":
                return le0(y - x + 1)
            return le0(y - x)
        isb = ta["k"] == "bool"
        if op in ("BitAnd", "BitOr", "BitXor"):
            if isb or (st.bounds(x)[0] >= 0 and st.bounds(x)[1] <= 1 and st.bounds(y)[0] >= 0 and st.bounds(y)[1] <= 1):
                if op == "BitAnd":
                    return x * y
                if op == "BitOr":
                    return x + y - x * y
                return x + y - 2 * x * y
            return self.bitop(st, op, x, y, ta)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul"):
            r = x + y if base == "Add" else x - y if base == "Sub" else x * y
            if len(r.m) > 400:
                r = P(atom("big", base, x, y))
            if op.endswith("WithOverflow"):
                lo, hi = self.rng(ta)
                fits = self.fits(st, r, lo, hi)
                return Agg("tuple", None, [r, (ONE - le0(r - hi) * le0(P(lo) - r)) if not fits else ZERO])
            if "Unchecked" in op:
                return r
            return self.wrap(r, ta, st)
        if base in ("Shl", "Shr"):
            lo, hi = self.rng(ta)
            w = ta["w"]
            c = y.const
            if base == "Shl":
                if c is not None:
                    c %= w
                    if ta["sg"] and x.const is not None:
                        return self.wrap(x * (1 << c), ta, st)
                    return self.wrap(x * (1 << c), ta, st)
                r = x * P(atom("pow2", y, lo=1))
                if x.const is not None and x.const >= 0 and st.bounds(y)[1] + x.const.bit_length() <= w - (1 if ta["sg"] else 0):
                    return r
                return self.wrap(r, ta, st)
            if c is not None:
                c %= w
                if c == 0:
                    return x
                r = shr_p(x, c) if st.bounds(x)[0] >= 0 else None
                if r is not None:
                    return r
                return self.div(st, x, 1 << c)
            l, h = st.bounds(x)
            return P(atom("shr", x, y, lo=0 if l >= 0 else -INF, hi=h, w=None))
        if base in ("Div", "Rem"):
            c = y.const
            if c is not None and c > 0 and st.bounds(x)[0] >= 0:
                q = None
                if c & (c - 1) == 0:
                    q = shr_p(x, c.bit_length() - 1)
                    if q is not None:
                        return q if base == "Div" else mask_p(x, c - 1)
                q = self.div(st, x, c)
                return q if base == "Div" else x - q * c
            if c == 1:
                return x if base == "Div" else ZERO
            if x.const is not None and c:
                q = abs(x.const) // abs(c)
                if (x.const < 0) != (c < 0):
                    q = -q
                return P(q) if base == "Div" else x - c * q
            l, h = st.bounds(x)
            ly, hy = st.bounds(y)
            if l >= 0 and ly >= 1:
                d = atom("divs", x, y, lo=0, hi=h)
                if base == "Div":
                    return P(d)
                return P(atom("rems", x, y, lo=0, hi=min(h, hy - 1)))
            if base == "Div":
                m = max(abs(l), abs(h))
                return P(atom("sdiv", x, y, lo=-m, hi=m))
            return P(atom("srem", x, y, lo=-max(abs(ly), abs(hy)) if l < 0 else 0, hi=max(abs(ly), abs(hy))))
        raise Undecided(f"op {op}")

    def fits(self, st, r, lo, hi):
        l, h = st.bounds(r)
        if l >= lo and h <= hi:
            return True
        return (h <= hi or st.prove_le0(r - hi)) and (l >= lo or st.prove_le0(P(lo) - r))

    def div(self, st, x, c):
        """floor(x / c), c > 0 constant; pulls out exact multiples"""
        q = ZERO
        rest = {}
        for k, co in x.m.items():
            d, m = divmod(co, c) if k else (0, co)
            if k:
                if m == 0:
                    q = q + Poly({k: d})
                else:
                    rest[k] = co
            else:
                d, m = divmod(co, c)
                q = q + d
                if m:
                    rest[()] = m
        r = Poly(rest)
        if not rest:
            return q
        l, h = st.bounds(r)
        if l >= 0 and h < c:
            return q
        if r.const is not None:
            return q + r.const // c
        # nested floor division
        if len(r.m) == 1:
            (k, co), = r.m.items()
            if co == 1 and len(k) == 1 and A(k[0]).op == "div":
                p2, c2 = A(k[0]).args
                return q + self.div(st, p2, c * c2)
        return q + P(atom("div", r, c, lo=(l // c if l != -INF else -INF), hi=(h // c if h != INF else INF)))

    def bitop(self, st, op, x, y, t):
        if x.const is not None and y.const is None:
            x, y = y, x
        w = t["w"]
        full = (1 << w) - 1
        neg = False
        if st.bounds(x)[0] < 0 or st.bounds(y)[0] < 0:
            if x.const is not None and y.const is not None:
                r = {"BitAnd": x.const & y.const, "BitOr": x.const | y.const, "BitXor": x.const ^ y.const}[op]
                return P(r)
            lo, hi = self.rng(t)
            return P(atom(op, x, y, lo=lo, hi=hi))
        c = y.const
        if c is not None:
            if x.const is not None:
                return P({"BitAnd": x.const & c, "BitOr": x.const | c, "BitXor": x.const ^ c}[op])
            m = mask_p(x, c)
            if m is not None:
                if op == "BitAnd":
                    return m
                if op == "BitOr":
                    return mask_p(x, full & ~c) + c
                # xor: complement the masked bits
                return mask_p(x, full & ~c) + self.compl(m, c)
            if op == "BitAnd" and c & (c + 1) == 0:
                return x - self.div(st, x, c + 1) * (c + 1)
        px, py = pieces(x), pieces(y)
        if px is not None and py is not None:
            mx = sum(((1 << n) - 1) << s for s, b, lo, n in px)
            my = sum(((1 << n) - 1) << s for s, b, lo, n in py)
            if mx & my == 0:
                return x + y if op != "BitAnd" else ZERO
            if x == y:
                return {"BitAnd": x, "BitOr": x, "BitXor": ZERO}[op]
            # bitwise combination bit by bit
            if w <= 64:
                r = ZERO
                for i in range(w):
                    bx = mask_p(shr_p(x, i), 1)
                    by = mask_p(shr_p(y, i), 1)
                    if op == "BitAnd":
                        r = r + bx * by * (1 << i)
                    elif op == "BitOr":
                        r = r + (bx + by - bx * by) * (1 << i)
                    else:
                        r = r + (bx + by - 2 * bx * by) * (1 << i)
                if len(r.m) <= 70:
                    return r
        # disjoint by alignment: x multiple of 2^k, 0 <= y < 2^k
        for a, b in ((x, y), (y, x)):
            g = 0
            for k, co in a.m.items():
                g = g | co if isinstance(co, int) else 1
            k2 = (g & -g) if g else 0
            if k2 and st.bounds(b)[1] < k2 and st.bounds(b)[0] >= 0:
                return a + b if op != "BitAnd" else ZERO
        lo, hi = 0, full
        if op == "BitAnd":
            hi = min(st.bounds(x)[1], st.bounds(y)[1])
        return P(atom(op, *sorted((x, y), key=lambda q: repr(q)), lo=lo, hi=hi, w=w))

    def compl(self, m, c):
        return P(c) - m

    def cond_eq(self, st, x, y):
        if y.const is not None and x.const is None:
            # multi-piece compare to zero of a single bit etc. is handled by eq0
            pass
        return eq0(x - y)

    def fcmp(self, op, x, y):
        if x.op == "const" and y.op == "const":
            a, b = fval(x), fval(y)
            return P(int({"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b, "Eq": a == b, "Ne": a != b}[op]))
        if x.op == "nan" or y.op == "nan":
            return P(int(op == "Ne"))
        if op in ("Gt", "Ge"):
            x, y = y, x
            op = {"Gt": "Lt", "Ge": "Le"}[op]
        # the sign of a scaled integer
        for z, e, flip in ((x, y, False), (y, x, True)):
            if z.op == "const" and fval(z) == 0:
                s = self.scaled_int(e)
                if s is not None:
                    s = ZERO - s if flip else s
                    if op in ("Eq", "Ne"):
                        return eq0(s) if op == "Eq" else ONE - eq0(s)
                    return le0(ONE - s) if op == "Lt" else le0(ZERO - s)
        if op in ("Eq", "Ne"):
            if x is y and False:
                pass
            a = P(atom("feq", *sorted((x, y), key=repr), lo=0, hi=1, w=1))
            return a if op == "Eq" else ONE - a
        return P(atom("f" + op.lower(), x, y, lo=0, hi=1, w=1))

    def scaled_int(self, e):
        """an integer of the same sign as the float, if it is an integer times constants that cannot vanish"""
        if e.op == "i2f" and isinstance(e.args[0], Poly):
            return e.args[0]
        if e.op == "neg":
            s = self.scaled_int(e.args[0])
            return None if s is None else ZERO - s
        if e.op == "mul":
            for c, r in (e.args, e.args[::-1]):
                if isinstance(c, F) and c.op == "const" and isinstance(r, F) and 1e-12 <= abs(fval(c)) <= 1e12:
                    s = self.scaled_int(r) if r.op != "mul" else None
                    return None if s is None else s if fval(c) > 0 else ZERO - s
        return None

    def ptr_eq(self, st, a, b):
        if a == b:
            return ONE
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.cell != b.cell:
                return ZERO
            if a.path[:-1] == b.path[:-1] and a.path and b.path and isinstance(a.path[-1], tuple) and isinstance(b.path[-1], tuple) and a.path[-1][0] == b.path[-1][0] == "i":
                return eq0(a.path[-1][1] - b.path[-1][1])
        return P(atom("ptreq", a, b, lo=0, hi=1, w=1))

    def ptr_offset(self, st, a, n):
        if isinstance(a, Ptr):
            if a.path and isinstance(a.path[-1], tuple) and a.path[-1][0] == "i":
                return Ptr(a.cell, a.path[:-1] + (("i", a.path[-1][1] + n),))
            if a.meta:
                return Ptr(a.cell, a.path + (("i", a.meta[0] + n),))
            arr = self.load(st, (a.cell, a.path))
            if isinstance(arr, ARR):
                return Ptr(a.cell, a.path + (("i", n),))
        return Opq("ptradd", a, n)

    # ---- obligations
    def site(self):
        return self.stack[-1] if self.stack else "?"

    def loc_of(self, body, term_or_line):
        return None

    def oblige(self, st, ok, kind, msg, where, cond=None, ty=None):
        """record a panic obligation; ok True = discharged"""
        if self.obl_off:
            return
        # attribute to the innermost analysed-crate function
        loc = None
        for s in reversed(self.stack):
            if s[2]:
                loc = s
                break
        fn = loc[0] if loc else (self.stack[0][0] if self.stack else "?")
        line = where if (loc is self.stack[-1]) else (loc[1] if loc else where)
        key = (fn, kind, msg)
        o = self.obl.setdefault(key, dict(n=0, bad=0, line=line, stack=None, conds=None, cex=[]))
        o["n"] += 1
        if not ok:
            o["bad"] += 1
            o.setdefault("types", set()).add(ty)
            if len(o["cex"]) < 8:
                o["cex"].append((st.copy(), cond if cond is not None else ZERO, [s[0] for s in self.stack]))
            if o["stack"] is None:
                o["stack"] = [s[0] for s in self.stack]
                o["line"] = line
                o["conds"] = st.conds
        return ok

    # ---- calls
    def call(self, st, fn, args, argtys, dty, where, target=True):
        """fn: callee record {p, rp, inst, ...}. returns [(st, value)]"""
        name = fn.get("rp") or fn["p"]
        for h in (self.hooks.get(name), self.hooks.get(fn["p"])):
            if h is not None:
                r = h(self, st, fn, args, argtys, dty, where)
                if r is not NotImplemented:
                    return r
        m = self.models.lookup(self, fn, name) if self.models else None
        if m is not None:
            r = m(self, st, fn, args, argtys, dty, where)
            if r is not NotImplemented:
                return r
        inst = fn.get("inst")
        if inst in self.bodies:
            if fn["p"].startswith("core::ops::function::Fn") and fn["p"] != name and len(args) == 2 and isinstance(args[1], Agg) and args[1].name == "tuple":
                selfty = self.T(self.bodies[inst]["b"]["locals"][1][0]) if self.bodies[inst]["b"]["argc"] else None
                a0 = args[0]
                if "{closure" in name:
                    if selfty["k"] == "ref" and not isinstance(a0, Ptr):
                        a0 = Ptr(self.newcell(st, a0, None, "cl"))
                    return self.call_body(st, inst, [a0] + list(args[1].fields), where)
                return self.call_body(st, inst, list(args[1].fields), where)
            return self.call_body(st, inst, args, where)
        # calling a closure / fn item through the Fn traits
        if self.models:
            r = self.models.generic_call(self, st, fn, args, argtys, dty, where)
            if r is not NotImplemented:
                return r
        raise Undecided(f"call of {name}")

    def call_value(self, st, f, args, where):
        """call a function value (FnV / closure) with a list of arguments"""
        if isinstance(f, Ite):
            d = st.decide(f.c)
            if d is None:
                raise Fork(f.c)
            f = f.a if d else f.b
        if isinstance(f, Ptr):
            tgt = self.load(st, (f.cell, f.path))
            if isinstance(tgt, (FnV, Ptr)):
                return self.call_value(st, tgt, args, where)
            if isinstance(tgt, Agg) and tgt.name == "closure":
                t = self.T(tgt.ty)
                b = self.bodies.get(t["inst"])
                if b is None:
                    raise Undecided("closure body missing")
                selfty = self.T(b["b"]["locals"][1][0])
                self_arg = f if selfty["k"] == "ref" else tgt
                return self.call_closure(st, t["inst"], self_arg, args, where)
            raise Undecided(f"call of {tgt!r}")
        if isinstance(f, FnV):
            if f.fn.get("inst") not in self.bodies and "{constructor" in f.fn.get("p", ""):
                pass
            c = self.ctor(f.fn, args)
            if c is not None:
                return [(st, c)]
            return self.call(st, f.fn, args, None, None, where)
        if isinstance(f, Agg) and f.name == "closure":
            t = self.T(f.ty)
            b = self.bodies.get(t["inst"])
            if b is None:
                raise Undecided("closure body missing")
            selfty = self.T(b["b"]["locals"][1][0])
            if selfty["k"] == "ref":
                cell = self.newcell(st, f, f.ty, "cl")
                return self.call_closure(st, t["inst"], Ptr(cell), args, where)
            return self.call_closure(st, t["inst"], f, args, where)
        raise Undecided(f"call of value {f!r}")

    def call_closure(self, st, inst, self_arg, args, where):
        return self.call_body(st, inst, [self_arg] + list(args), where)

    def ctor(self, fn, args):
        """tuple struct / variant constructor used as a function"""
        p = fn["p"]
        for suffix in ("::{constructor#0}", "::{Ctor#0}", "::{ctor}"):
            if p.endswith(suffix):
                p = p[:-len(suffix)]
        if p in self.adts and self.adts[p]["kind"] == "struct":
            return Agg(p, None, args)
        if "::" in p:
            base, v = p.rsplit("::", 1)
            ad = self.adts.get(base)
            if ad and ad["kind"] == "enum":
                for i, x in enumerate(ad["variants"]):
                    if x["name"] == v:
                        return Agg(base, i, args)
        return None

    def call_body(self, st, key, args, where=None):
        b = self.bodies[key]
        if len(self.stack) > 90:
            raise Undecided(f"call depth at {key}")
        self.called.add(key)
        self.stack.append((b["path"], where, b["local"]))
        try:
            nf0 = st.nfork
            pre = len(st.conds)
            prev_events = st.events
            outs = self.run_body(key, b["b"], args, st, b, True)
            if self.merge and len(outs) > 1:
                outs = self.merge_outs(outs, pre)
            return outs
        except Undecided as e:
            if not hasattr(e, "stk"):
                e.stk = [(x[0], x[1]) for x in self.stack]
            raise
        finally:
            self.stack.pop()

    def run_body(self, key, b, args, st, owner, prune=False):
        while True:
            try:
                return self._run_body(key, b, args, st, owner, prune)
            except NeedHavoc as e:
                if e.fid != self.ctx(key):
                    raise
                self.havoc.add((e.fid, e.h))

    def ctx(self, key):
        return tuple((s[0], s[1]) for s in self.stack) + (str(key),)

    def cfg(self, key, b):
        k = id(b)
        r = self.cfg_cache.get(k)
        if r is None:
            r = self.cfg_cache[k] = Cfg(b)
        return r

    def _run_body(self, key, b, args, st, owner, prune):
        self.fid += 1
        fr = self.fid
        self.frames[fr] = owner
        st = st.copy()
        n = b["argc"]
        args = list(args)
        if b.get("spread") is not None and len(args) != n:
            # closure called through Fn traits with a tuple
            pass
        if len(args) != n:
            if len(args) == 2 and isinstance(args[1], Agg) and args[1].name == "tuple" and n == 1 + len(args[1].fields):
                args = [args[0]] + list(args[1].fields)
            elif b.get("spread") is not None:
                s = b["spread"]
                args = args[:s - 1] + [Agg("tuple", None, args[s - 1:])]
            else:
                raise Undecided(f"arity of {key}: {len(args)} for {n}")
        elif b.get("spread") is not None:
            s = b["spread"]
            if not (isinstance(args[s - 1], Agg) and args[s - 1].name == "tuple"):
                args = args[:s - 1] + [Agg("tuple", None, args[s - 1:])]
        for i, a in enumerate(args):
            st.mem[(fr, i + 1)] = a
        for i, l in enumerate(b["locals"]):
            st.cty[(fr, i)] = l[0]
        outs = []
        self.exec_from(key, b, fr, [(st, 0)], outs, None)
        return self.prune(fr, outs) if prune else outs

    def prune(self, fr, outs):
        """forget the locals of a finished frame (references to them cannot escape)"""
        for s, v in outs:
            m = s.mem
            for c in [c for c in m if c[0] == fr]:
                del m[c]
        return outs

    def exec_from(self, key, b, fr, work, outs, region):
        """run until return.  region: None or (blocks, header, backs, exits): stay inside the loop body, collecting the
        states that come back to the header and those that leave"""
        cfg = self.cfg(key, b)
        work = [(s, bb, 0, region is not None) for s, bb in work]
        while work:
            st, bb, i0, skip = work.pop()
            try:
                self.step_block(key, b, fr, cfg, st, bb, i0, skip, work, outs, region)
            except PathDead:
                continue

    def step_block(self, key, b, fr, cfg, st, bb, i0, skip, work, outs, region):
        while True:
            self.steps += 1
            if self.steps > self.max_steps or (self.steps & 1023 == 0 and time.time() > DEADLINE):
                raise Undecided("step budget exhausted")
            if not skip:
                if region is not None:
                    if bb == region[1]:
                        region[2].append(st)
                        return
                    if bb not in region[0]:
                        region[3].append((st, bb))
                        return
                if bb in cfg.headers:
                    st = self.at_header(key, b, fr, cfg, st, bb, work)
                    if st is None:
                        return
            skip = False
            stmts, term, cleanup = b["blocks"][bb]
            i = i0
            i0 = 0
            n = len(stmts)
            try:
                while i < n:
                    s = stmts[i]
                    if s[0] == "=":
                        self.cur_line = s[3]
                        v = self.rvalue(st, fr, s[2], s[1][2])
                        self.assign(st, fr, s[1], v)
                    elif s[0] == "sd":
                        c, p, meta = self.addr(st, fr, s[1])
                        old = self.load(st, (c, p))
                        t = self.T(s[1][2])
                        fs = old.fields if isinstance(old, Agg) else ()
                        self.store(st, (c, p), Agg(t.get("n"), s[2], fs, s[1][2]))
                    i += 1
                snap = st.copy() if term[0] in ("call", "drop", "assert") else st
                nxt = self.terminator(key, b, fr, snap, bb, term, work, outs)
            except Fork as f:
                self.do_fork(f.c, st, bb, i, work)
                return
            if nxt is None:
                return
            st, bb = nxt

    def assign(self, st, fr, place, v):
        if not place[1]:
            st.mem[(fr, place[0])] = v
        else:
            c, p, meta = self.addr(st, fr, place)
            if meta is not None:
                p = p + (("sl", meta[0], meta[1]),)
            self.store(st, (c, p), v)

    def do_fork(self, c, st, bb, i, work):
        c0 = st.norm(c)
        for v in (1, 0):
            s = st.copy()
            s.nfork += 1
            s.conds = s.conds + ((c0, v),)
            if s.assume(c0, v):
                # resume at statement i; i == len(stmts) re-executes the terminator
                work.append((s, bb, i, True))

    def terminator(self, key, b, fr, st, bb, term, work, outs):
        k = term[0]
        if k == "goto":
            return st, term[1]
        if k == "switch":
            v = self.operand(st, fr, term[1])
            t = self.T(term[4])
            x = self.as_int(st, v)
            x = st.norm(x)
            c = x.const
            if t["k"] == "int" and t["sg"]:
                w = t["w"]
                tg = [((int(a) - (1 << w)) if int(a) >> (w - 1) else int(a), bbk) for a, bbk in term[2]]
            else:
                tg = [(int(a), bbk) for a, bbk in term[2]]
            if c is not None:
                for a, bbk in tg:
                    if a == c:
                        return st, bbk
                return st, term[3]
            # undetermined: partition
            cur = st
            for a, bbk in tg:
                cond = eq0(x - a)
                d = cur.decide(cond)
                if d is True:
                    return (cur, bbk)
                if d is False:
                    continue
                s1 = cur.copy()
                s1.nfork += 1
                s1.conds = s1.conds + ((cond, 1),)
                if s1.assume(cond, 1):
                    work.append((s1, bbk, 0, False))
                s2 = cur.copy()
                s2.nfork += 1
                s2.conds = s2.conds + ((cond, 0),)
                if not s2.assume(cond, 0):
                    return None
                cur = s2
            if self.b_unreachable(b, term[3]):
                # exhaustive match: the discriminant is one of the listed values
                return None
            return cur, term[3]
        if k == "ret":
            v = st.mem.get((fr, 0), Agg("tuple", None, []))
            if isinstance(v, Uninit):
                v = Agg("tuple", None, [])
            outs.append((st, v))
            return None
        if k in ("unreachable", "resume"):
            return None
        if k == "drop":
            self.drop(st, fr, term)
            r = self.run_drop(st, fr, term)
            if r is not None:
                for s2 in r[1:]:
                    work.append((s2, term[2], 0, False))
                if not r:
                    return None
                return r[0], term[2]
            return st, term[2]
        if k == "assert":
            self.do_assert(st, fr, term)
            return st, term[4]
        if k == "call":
            return self.do_call(key, b, fr, st, bb, term, work)
        raise Undecided(f"terminator {k}")

    def b_unreachable(self, b, bb):
        st, term, _ = b["blocks"][bb]
        return term[0] == "unreachable"

    def drop(self, st, fr, term):
        pass

    def run_drop(self, st, fr, term):
        h = self.hooks.get("drop")
        if h is None:
            return None
        return h(self, st, fr, term)

    def do_assert(self, st, fr, term):
        cond = self.operand(st, fr, term[1])
        exp = term[2]
        msg = term[3]
        c = self.as_int(st, cond)
        if not exp:
            c = ONE - c
        desc = self.assert_desc(st, fr, msg)
        where = term[-1]
        if msg[0] == "overflow" and len(msg) == 4 and msg[1] in ("Add", "Sub", "Mul"):
            x = self.as_int(st, self.operand(st, fr, msg[2]))
            y = self.as_int(st, self.operand(st, fr, msg[3]))
            t = self.T(self.op_ty(msg[2]))
            lo, hi = self.rng(t)
            r = x + y if msg[1] == "Add" else x - y if msg[1] == "Sub" else x * y
            ok = st.norm(c).const == 1 or self.fits(st, r, lo, hi)
            self.oblige(st, ok, "overflow", desc, where, le0(r - hi) * le0(P(lo) - r), (t["w"], t["sg"]))
            if not ok:
                if not (st.add_le0(r - hi) and st.add_le0(P(lo) - r)):
                    raise PathDead()
            return
        d = st.decide(c)
        self.oblige(st, d is True, msg[0], desc, where, c)
        if d is False:
            raise PathDead()
        if d is None:
            st.conds = st.conds + ((c, 1),)
            if not st.assume(c, 1):
                raise PathDead()

    def assert_desc(self, st, fr, msg):
        if msg[0] == "overflow":
            return f"arithmetic overflow in {msg[1]}"
        if msg[0] == "bounds":
            return "index out of bounds"
        if msg[0] in ("divzero", "remzero"):
            return "division by zero"
        return str(msg[-1])[:60]

    def do_call(self, key, b, fr, st, bb, term, work):
        _, func, argops, dest, target = term[:5]
        where = term[-1]
        args = [self.operand(st, fr, a) for a in argops]
        atys = [self.op_ty(a) for a in argops]
        f = self.operand(st, fr, func)
        dty = dest[2]
        if isinstance(f, FnV):
            if target is None:
                self.diverge(st, f.fn, args, where)
                return None
            outs = self.call(st, f.fn, args, atys, dty, where)
        else:
            outs = self.call_value(st, f, args, where)
        if target is None:
            return None
        first = None
        for s, v in outs:
            self.assign(s, fr, dest, v)
            if first is None:
                first = s
            else:
                work.append((s, target, 0, False))
        if first is None:
            return None
        return first, target

    def diverge(self, st, fn, args, where):
        name = fn.get("rp") or fn["p"]
        h = self.hooks.get("diverge")
        if h is not None and h(self, st, name, args, where):
            return
        if name.startswith("std::process::exit"):
            st.events = st.events + (("exit", args),)
            return
        inst = fn.get("inst")
        self.oblige(st, False, "panic", name, where)

    # ---- merging
    def merge_outs(self, outs, pre):
        groups = {}
        order = []
        for s, v in outs:
            sig = (shape(v), s.events if isinstance(s.events, tuple) else None, tuple(sorted(s.ghost.items(), key=repr)) if s.ghost else ())
            k = repr(sig[0]), id_events(s.events), sig[2]
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append((s, v))
        res = []
        for k in order:
            g = groups[k]
            if len(g) == 1 or len(g) > 4 or not mergeable(g[0][1]):
                res += g
                continue
            m = self.merge_group(g, pre, outs)
            if m is None:
                res += g
            else:
                res.append(m)
        return res

    def merge_group(self, g, pre, outs):
        # conditions taken since the call began form a decision tree
        base = g[0][0]
        cs = [s.conds[pre:] for s, _ in g]
        allcs = [s.conds[pre:] for s, _ in outs]
        if len(g) != len(outs):
            return None
        # memory must agree up to scalars
        mems = [s.mem for s, _ in g]
        diff = []
        m0 = mems[0]
        keys = set(m0)
        for m in mems[1:]:
            for c in set(m) | keys:
                a, b2 = m0.get(c, UN), m.get(c, UN)
                if a is not b2 and a != b2:
                    if c not in diff:
                        diff.append(c)
        for c in diff:
            sh = {repr(shape(m.get(c, UN))) for m in mems}
            if len(sh) > 1 or not mergeable(m0.get(c, UN)):
                return None
        tree = dtree(list(range(len(g))), cs, 0)
        if tree is None:
            return None
        v = tree_val(tree, [x[1] for x in g])
        ns = base.copy()
        for c in diff:
            ns.mem[c] = tree_val(tree, [m.get(c, UN) for m in mems])
        # facts: join
        sts = [s for s, _ in g]
        iv = {}
        for a, (lo, hi) in sts[0].iv.items():
            l, h = lo, hi
            for s in sts[1:]:
                r = s.iv.get(a)
                if r is None:
                    l = None
                    break
                l, h = min(l, r[0]), max(h, r[1])
            if l is not None:
                iv[a] = (l, h)
        ns.iv = iv
        ns.lin = tuple(q for q in sts[0].lin if all(q in s.lin for s in sts[1:]))
        ns.known = {k: x for k, x in sts[0].known.items() if all(s.known.get(k) == x for s in sts[1:])}
        # common prefix of conditions
        i = 0
        while all(len(s.conds) > i for s in sts) and all(s.conds[i] == sts[0].conds[i] for s in sts):
            i += 1
        ns.conds = sts[0].conds[:i]
        ns.nfork = min(s.nfork for s in sts) if False else sts[0].nfork
        return ns, v

    # ---- loops
    def at_header(self, key, b, fr, cfg, st, bb, work):
        if (self.ctx(key), bb) in self.havoc:
            import loops
            loops.run_loop(self, key, b, fr, cfg, st, bb, work)
            return None
        lk = (fr, bb)
        n, f0 = st.loops.get(lk, (0, st.nfork))
        if (n > self.unroll_limit and st.nfork - f0 >= self.unroll_limit) or n > self.unroll_max:
            raise NeedHavoc(self.ctx(key), bb)
        for h in cfg.loop.get(bb, ()):
            if h != bb and h in cfg.headers:
                st.loops.pop((fr, h), None)
        st.loops[lk] = (n + 1, f0)
        return st


def untyped(v):
    """a constant value without references to the type table it was built with"""
    if isinstance(v, Agg):
        return Agg(v.name, v.variant, [untyped(x) for x in v.fields])
    if isinstance(v, VArr):
        return VArr([untyped(x) for x in v.el])
    if isinstance(v, Fill):
        return Fill(untyped(v.val), v.len)
    if isinstance(v, Ptr):
        return Ptr(("x",) + v.cell if v.cell[0] != "str" else v.cell, v.path, v.meta)
    if isinstance(v, (Poly, F, Opq)):
        return v
    raise Undecided(f"constant {v!r}")


def id_events(e):
    return id(e) if not isinstance(e, tuple) else hash(e) if hashable(e) else id(e)


def hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def shape(v):
    if isinstance(v, Poly):
        return "i"
    if isinstance(v, F):
        return "f"
    if isinstance(v, Agg):
        return (v.name, v.variant, tuple(shape(x) for x in v.fields))
    if isinstance(v, Ptr):
        return ("p", v.cell, repr(v.path), repr(v.meta))
    return ("o", repr(v)[:200])


def mergeable(v):
    if isinstance(v, (Poly, F)):
        return True
    if isinstance(v, Agg):
        return all(mergeable(x) for x in v.fields)
    return True  # identical by shape


def dtree(idx, cs, d):
    if len(idx) == 1:
        return idx[0]
    if any(len(cs[i]) <= d for i in idx):
        return None
    c = cs[idx[0]][d][0]
    if any(cs[i][d][0] != c for i in idx):
        return None
    t = [i for i in idx if cs[i][d][1]]
    f = [i for i in idx if not cs[i][d][1]]
    if not t:
        return dtree(f, cs, d + 1)
    if not f:
        return dtree(t, cs, d + 1)
    a, b = dtree(t, cs, d + 1), dtree(f, cs, d + 1)
    if a is None or b is None:
        return None
    return (c, a, b)


def tree_val(t, vals):
    if isinstance(t, int):
        return vals[t]
    c, a, b = t
    return join_val(c, tree_val(a, vals), tree_val(b, vals))


def join_val(c, a, b):
    if a == b:
        return a
    if isinstance(a, Poly) and isinstance(b, Poly):
        return ite(c, a, b)
    if isinstance(a, F) and isinstance(b, F):
        return F("ite", (c, a, b), a.w)
    if isinstance(a, Agg) and isinstance(b, Agg) and a.name == b.name and a.variant == b.variant and len(a.fields) == len(b.fields):
        return Agg(a.name, a.variant, [join_val(c, x, y) for x, y in zip(a.fields, b.fields)], a.ty)
    return Ite(c, a, b)


# ---------------------------------------------------------------- substitution of atoms

def subst(v, m, memo=None):
    """replace atoms (by id) with polynomials throughout a value"""
    if memo is None:
        memo = {}
    return _subst(v, m, memo)


def _sa(a, m, memo):
    """polynomial for atom a after substitution"""
    r = memo.get(("a", a.id))
    if r is not None:
        return r
    if a.id in m:
        r = m[a.id]
    elif a.op in ("sym", "len"):
        r = P(a)
    else:
        r = _rebuild(a, m, memo)
    memo[("a", a.id)] = r
    return r


def _rebuild(a, m, memo):
    na = []
    ch = False
    for i, x in enumerate(a.args):
        if a.op in ("bits", "bitsx") and i == 0:
            y = _sa(A(x), m, memo)
            if y != P(A(x)):
                ch = True
            na.append(y)
            continue
        y = _subst(x, m, memo)
        if y is not x and y != x:
            ch = True
        na.append(y)
    if not ch:
        return P(a)
    if a.op in ("bits", "bitsx"):
        p, lo, n = na
        s = shr_p(p, lo)
        s = mask_p(s, (1 << n) - 1) if s is not None else None
        if s is not None:
            return s
        return P(atom("bitsp", p, lo, n, lo=0, hi=(1 << n) - 1, w=n))
    if a.op == "eq":
        return eq0(na[0])
    if a.op == "le":
        return le0(na[0])
    if a.op == "div" and na[0].const is not None:
        return P(na[0].const // na[1])
    if a.op == "pow2" and na[0].const is not None and 0 <= na[0].const < 200:
        return P(1 << na[0].const)
    return P(atom(a.op, *na, lo=a.lo, hi=a.hi, w=a.w))


def _subst(v, m, memo):
    if isinstance(v, Poly):
        if v.const is not None:
            return v
        r = ZERO
        ch = False
        for k, c in v.m.items():
            t = P(c) if not k else None
            if k:
                t = None
                for x in k:
                    y = _sa(A(x), m, memo)
                    t = y if t is None else t * y
                t = t * c
            r = r + t
        return r
    if isinstance(v, F):
        r = memo.get(("f", id(v)))
        if r is None:
            r = F(v.op, tuple(_subst(x, m, memo) for x in v.args), v.w)
            memo[("f", id(v))] = r
        return r
    if isinstance(v, Agg):
        return Agg(v.name, v.variant, [_subst(x, m, memo) for x in v.fields], v.ty)
    if isinstance(v, Ptr):
        return Ptr(v.cell, _subst(v.path, m, memo), _subst(v.meta, m, memo))
    if isinstance(v, tuple):
        return tuple(_subst(x, m, memo) for x in v)
    if isinstance(v, Ite):
        return Ite(_subst(v.c, m, memo), _subst(v.a, m, memo), _subst(v.b, m, memo))
    if isinstance(v, Opq):
        return Opq(v.tag, *[_subst(x, m, memo) for x in v.args])
    if isinstance(v, VArr):
        return VArr([_subst(x, m, memo) for x in v.el])
    if isinstance(v, SArr):
        return SArr(v.name, _subst(v.len, m, memo), v.ety, _subst(v.off, m, memo))
    if isinstance(v, Fill):
        return Fill(_subst(v.val, m, memo), _subst(v.len, m, memo))
    if isinstance(v, Cat):
        return Cat([_subst(x, m, memo) for x in v.parts])
    if isinstance(v, Upd):
        return Upd(_subst(v.base, m, memo), _subst(v.off, m, memo), _subst(v.src, m, memo))
    if isinstance(v, Rev):
        return Rev(_subst(v.base, m, memo))
    if isinstance(v, Comp):
        return Comp(v.var, _subst(v.body, m, memo), _subst(v.len, m, memo))
    if isinstance(v, PView):
        return PView(_subst(v.base, m, memo), _subst(v.off, m, memo), _subst(v.len, m, memo))
    if isinstance(v, SymEnum):
        return SymEnum(v.ty, v.name, _subst(v.discr, m, memo))
    return v


class Cfg:
    def __init__(self, b):
        nb = len(b["blocks"])
        self.succ = [succs(t[1]) for t in b["blocks"]]
        # back edges by DFS
        color = [0] * nb
        self.headers = set()
        self.back = []
        stack = [(0, iter(self.succ[0]))]
        color[0] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                if color[v] == 1:
                    self.headers.add(v)
                    self.back.append((u, v))
                elif color[v] == 0:
                    color[v] = 1
                    stack.append((v, iter(self.succ[v])))
                    break
            else:
                color[u] = 2
                stack.pop()
        pred = [[] for _ in range(nb)]
        for u in range(nb):
            for v in self.succ[u]:
                pred[v].append(u)
        self.loop = {}
        for u, h in self.back:
            body = self.loop.setdefault(h, {h})
            w = [u]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w += pred[x]


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "assert":
        return [t[4]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    return []
