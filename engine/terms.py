"""Abstract scalar domain: integers as polynomials over interned atoms (value numbering), with bit-slice atoms
(`bits(a, lo, n)`) for byte/bit provenance, and floats as expression trees."""
from fractions import Fraction
import struct
from math import gcd

INF = float("inf")


class Atom:
    __slots__ = ("id", "op", "args", "lo", "hi", "w")

    def __repr__(self):
        return show_atom(self)


_atoms = {}
_alist = []


def atom(op, *args, lo=-INF, hi=INF, w=None):
    k = (op,) + args
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.id = len(_alist)
        a.op = op
        a.args = args
        a.lo = lo
        a.hi = hi
        a.w = w  # bit width when it denotes an unsigned w-bit quantity
        _atoms[k] = a
        _alist.append(a)
    return a


def A(i):
    return _alist[i]


class Poly:
    """Sum of coef * product of atoms; immutable, hash-consed by key."""
    __slots__ = ("m", "key", "h")

    def __init__(self, m):
        self.m = m
        self.key = tuple(sorted(m.items()))
        self.h = hash(self.key)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.key == o.key

    def __repr__(self):
        return show(self)

    @property
    def const(self):
        """the constant value or None"""
        if not self.m:
            return 0
        if len(self.m) == 1 and () in self.m:
            return self.m[()]
        return None

    def atoms(self):
        s = set()
        for k in self.m:
            s.update(k)
        return s

    def __add__(self, o):
        o = P(o)
        m = dict(self.m)
        for k, c in o.m.items():
            n = m.get(k, 0) + c
            if n:
                m[k] = n
            else:
                m.pop(k, None)
        return mk(m)

    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -c for k, c in self.m.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        if self.const is not None:
            c = self.const
            return o if c == 1 else Poly({k: v * c for k, v in o.m.items()} if c else {})
        if o.const is not None:
            return o * self
        m = {}
        for k1, c1 in self.m.items():
            for k2, c2 in o.m.items():
                k = mono(k1, k2)
                n = m.get(k, 0) + c1 * c2
                if n:
                    m[k] = n
                else:
                    m.pop(k, None)
        return mk(m)

    __rmul__ = __mul__


def mono(a, b):
    r = list(a)
    for x in b:
        if x in r and is01(_alist[x]):
            continue  # idempotent
        r.append(x)
    r.sort()
    return tuple(r)


def is01(a):
    return a.lo == 0 and a.hi == 1


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({(x.id,): 1})
    if isinstance(x, bool):
        x = int(x)
    return Poly({(): x} if x else {})


ZERO = Poly({})
ONE = Poly({(): 1})


def mk(m):
    """canonicalise: merge adjacent bit slices of one atom"""
    sl = {}
    for k, c in m.items():
        if len(k) == 1:
            a = _alist[k[0]]
            if a.op == "bits":
                sl.setdefault(a.args[0], []).append((a.args[1], a.args[2], c, k))
    for base, ps in sl.items():
        if len(ps) < 2:
            continue
        ps.sort()
        changed = False
        i = 0
        while i + 1 < len(ps):
            lo, n, c, k = ps[i]
            lo2, n2, c2, k2 = ps[i + 1]
            if lo + n == lo2 and c2 == c << n if isinstance(c, int) and c > 0 else (lo + n == lo2 and c2 == c * (1 << n)):
                if not changed:
                    m = dict(m)
                    changed = True
                m.pop(k, None)
                m.pop(k2, None)
                nb = bits(_alist[base], lo, n + n2)
                (nk, nc), = nb.m.items()
                m[nk] = m.get(nk, 0) + c
                ps[i:i + 2] = [(lo, n + n2, c, nk)]
            else:
                i += 1
    return Poly(m)


def bits(a, lo, n):
    """Poly of bits lo..lo+n of the unsigned quantity denoted by atom a"""
    if n <= 0:
        return ZERO
    if a.op == "bits":
        b, l0, n0 = a.args
        n = min(n, n0 - lo)
        if n <= 0:
            return ZERO
        return bits(_alist[b], l0 + lo, n)
    w = a.w
    if w is None:
        if a.lo >= 0 and a.hi != INF:
            w = int(a.hi).bit_length()
        else:
            return P(atom("bitsx", a.id, lo, n, lo=0, hi=(1 << n) - 1, w=n))
    n = min(n, w - lo)
    if n <= 0:
        return ZERO
    if lo == 0 and n == w:
        return P(a)
    return P(atom("bits", a.id, lo, n, lo=0, hi=(1 << n) - 1, w=n))


def sym(name, w=None, sg=False, lo=None, hi=None):
    if w is not None:
        l, h = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    else:
        l, h = -INF, INF
    if lo is not None:
        l = lo
    if hi is not None:
        h = hi
    return P(atom("sym", name, lo=l, hi=h, w=None if (sg or w is None) else w))


def pieces(p):
    """decompose a non-negative polynomial into disjoint bit pieces [(shift, atom|const, lo, n)]; None if not possible.
    Constants appear as (shift,int,0,n)."""
    out = []
    used = 0
    for k, c in p.m.items():
        if k == ():
            if c < 0:
                return None
            out.append((0, c, 0, c.bit_length()))
            if used & c:
                return None
            used |= c
            continue
        if len(k) != 1 or c <= 0 or c & (c - 1):
            return None
        a = _alist[k[0]]
        s = c.bit_length() - 1
        if a.op == "bits":
            base, lo, n = _alist[a.args[0]], a.args[1], a.args[2]
        else:
            if a.w is None and not (a.lo >= 0 and a.hi != INF and a.hi < (1 << 70)):
                return None
            base, lo, n = a, 0, a.w if a.w is not None else int(a.hi).bit_length()
        mask = ((1 << n) - 1) << s
        if used & mask:
            return None
        used |= mask
        out.append((s, base, lo, n))
    return out


def from_pieces(ps):
    r = ZERO
    for s, b, lo, n in ps:
        if n <= 0:
            continue
        if isinstance(b, int):
            r = r + (((b >> lo) & ((1 << n) - 1)) << s)
        else:
            r = r + bits(b, lo, n) * (1 << s)
    return r


def shr_p(p, k):
    """p >> k for p decomposable in pieces, else None"""
    ps = pieces(p)
    if ps is None:
        return None
    r = []
    for s, b, lo, n in ps:
        if s >= k:
            r.append((s - k, b, lo, n))
        else:
            d = k - s
            if n > d:
                r.append((0, b, lo + d, n - d))
    return from_pieces(r)


def mask_p(p, m):
    """p & m (constant m) for p decomposable"""
    ps = pieces(p)
    if ps is None:
        return None
    r = []
    for s, b, lo, n in ps:
        # runs of ones of m within [s, s+n)
        i = 0
        while i < n:
            if (m >> (s + i)) & 1:
                j = i
                while j < n and (m >> (s + j)) & 1:
                    j += 1
                r.append((s + i, b, lo + i, j - i))
                i = j
            else:
                i += 1
    return from_pieces(r)


def canon(p):
    """the polynomial over elementary slices: every quantity of which slices occur is split at all slice boundaries, so
    that equal functions of the same bits get equal forms"""
    cuts = {}
    for i in p.atoms():
        a = _alist[i]
        if a.op == "bits":
            s = cuts.setdefault(a.args[0], set())
            s.add(a.args[1])
            s.add(a.args[1] + a.args[2])
    if not cuts:
        return p
    rep = {}
    for i in p.atoms():
        a = _alist[i]
        if a.op == "bits":
            base, lo, n = a.args
        elif i in cuts and a.w is not None:
            base, lo, n = i, 0, a.w
        else:
            continue
        cs = sorted({lo, lo + n} | {c for c in cuts[base] if lo < c < lo + n})
        if len(cs) == 2:
            continue
        r = {}
        for x, y in zip(cs, cs[1:]):
            (k, _), = bits(_alist[base], x, y - x).m.items()
            r[k] = 1 << (x - lo)
        rep[i] = Poly(r)
    if not rep:
        return p
    m = {}
    for k, c in p.m.items():
        t = {(): c}
        for x in k:
            r = rep.get(x)
            t2 = {}
            for k1, c1 in t.items():
                for k2, c2 in (r.m.items() if r is not None else (((x,), 1),)):
                    kk = mono(k1, k2)
                    t2[kk] = t2.get(kk, 0) + c1 * c2
            t = t2
            if len(t) > 4000:
                return p
        for k1, c1 in t.items():
            v = m.get(k1, 0) + c1
            if v:
                m[k1] = v
            else:
                m.pop(k1, None)
    return Poly(m)


# ---------------------------------------------------------------- conditions (0/1 polynomials)

def norm_dir(p):
    """divide by the gcd of the non-constant coefficients' and constant (sound for ==)"""
    g = 0
    for c in p.m.values():
        g = gcd(g, abs(c)) if isinstance(c, int) else 1
        if g == 1:
            break
    if g > 1:
        p = Poly({k: c // g for k, c in p.m.items()})
    return p


def eq0(p):
    """condition p == 0"""
    c = p.const
    if c is not None:
        return ONE if c == 0 else ZERO
    if len(p.m) == 1:
        (k, c), = p.m.items()
        if len(k) == 1 and _alist[k[0]].op == "clz":
            x, w = _alist[k[0]].args
            r = shr_p(x, w - 1)
            if r is not None:
                return r
    # single 0/1 atom with constant
    if len(p.m) <= 2:
        nk = [k for k in p.m if k != ()]
        if len(nk) == 1 and len(nk[0]) >= 1 and all(is01(_alist[x]) for x in nk[0]):
            a = p.m[nk[0]]
            b = p.m.get((), 0)
            # a*x + b == 0
            if b == 0:
                return ONE - Poly({nk[0]: 1})
            if a == -b:
                return Poly({nk[0]: 1})
            return ZERO
    if 2 <= len(p.m) <= 5:
        ats = sorted({x for k in p.m for x in k})
        if len(ats) <= 3 and all(_alist[x].op in ("le", "eq") for x in ats):
            vals = set()
            for bits_ in range(1 << len(ats)):
                on = {x for i, x in enumerate(ats) if bits_ >> i & 1}
                vals.add(sum(c for k, c in p.m.items() if all(x in on for x in k)))
            if vals <= {0, 1}:
                return ONE - p
    # all monomials non-negative pieces and no constant => each zero; split products of independent parts is not done
    nc = {k: c for k, c in p.m.items() if k != ()}
    g = 0
    for c in nc.values():
        g = gcd(g, abs(c))
    b = p.m.get((), 0)
    if g > 1:
        if b % g:
            return ZERO
        p = Poly({k: c // g for k, c in p.m.items()})
    lead = min(k for k in p.m if k != ())
    if p.m[lead] < 0:
        p = -p
    return P(atom("eq", p, lo=0, hi=1, w=1))


def le0(p):
    """condition p <= 0"""
    c = p.const
    if c is not None:
        return ONE if c <= 0 else ZERO
    nc = {k: c for k, c in p.m.items() if k != ()}
    b = p.m.get((), 0)
    if len(nc) == 1:
        (k, c), = nc.items()
        if len(k) == 1 and _alist[k[0]].op == "clz" and (c, b) in ((1, 0), (-1, 1)):
            e = eq0(Poly({k: 1}))
            return e if c == 1 else ONE - e
    g = 0
    for c in nc.values():
        g = gcd(g, abs(c))
    if g > 1:
        # g*q + b <= 0  <=>  q <= floor(-b/g)
        m = {k: c // g for k, c in nc.items()}
        bb = -((-b) // g)
        if bb:
            m[()] = bb
        p = Poly(m)
        nc = {k: c for k, c in p.m.items() if k != ()}
        b = p.m.get((), 0)
    if len(nc) == 1:
        (k, c), = nc.items()
        if all(is01(_alist[x]) for x in k):
            # c*x + b <= 0 with x in {0,1}
            at0 = b <= 0
            at1 = c + b <= 0
            if at0 and at1:
                return ONE
            if not at0 and not at1:
                return ZERO
            x = Poly({k: 1})
            return x if at1 else ONE - x
    lead = min(nc)
    if p.m[lead] < 0:
        # canonical: leading coefficient positive; p <= 0  <=>  not (1 - p <= 0)
        q = ONE - p
        lead2 = min(k for k in q.m if k != ())
        if q.m[lead2] > 0:
            return ONE - P(atom("le", q, lo=0, hi=1, w=1))
    return P(atom("le", p, lo=0, hi=1, w=1))


def ite(c, a, b):
    """integer if-then-else on a 0/1 polynomial"""
    if a == b:
        return a
    if c.const is not None:
        return a if c.const else b
    r = b + c * (a - b)
    if len(r.m) > 60:
        return P(atom("ite", c, a, b))
    return r


# ---------------------------------------------------------------- floats

class F:
    __slots__ = ("op", "args", "w", "h", "n")
    _tab = {}

    def __new__(cls, op, args, w):
        if op == "i2f" and isinstance(args[0], Poly) and args[0].const is not None:
            return fconst(round_to(float(args[0].const), w), w)
        if op == "fcast" and isinstance(args[0], F) and args[0].op == "const":
            return fconst(round_to(fval(args[0]), w), w)
        k = (op, args, w)
        f = cls._tab.get(k)
        if f is None:
            f = object.__new__(cls)
            f.op, f.args, f.w, f.h, f.n = op, args, w, hash(k), len(cls._tab)
            cls._tab[k] = f
        return f

    def __hash__(self):
        return self.h

    def __repr__(self):
        return show_f(self)


def round_to(v, w):
    if w == 32:
        try:
            return struct.unpack("f", struct.pack("f", v))[0]
        except OverflowError:
            return INF if v > 0 else -INF
    return v


def fconst(v, w):
    if v != v:
        return F("nan", (), w)
    return F("const", (float(v).hex(),), w)


def fval(f):
    if f.op == "const":
        return float.fromhex(f.args[0])
    return None


def show_f(f):
    if f.op == "const":
        v = fval(f)
        return repr(v)
    if f.op == "nan":
        return "NaN"
    if f.op in ("add", "mul", "sub", "div"):
        return "(" + {"add": " + ", "mul": " * ", "sub": " - ", "div": " / "}[f.op].join(map(repr, f.args)) + ")"
    return f.op + "(" + ", ".join(map(repr, f.args)) + ")"


def fop(op, w, *args):
    if op == "neg":
        a = args[0]
        if a.op == "neg":
            return a.args[0]
        if a.op == "const":
            return fconst(-fval(a), w)
        if a.op == "i2f" and isinstance(a.args[0], Poly):
            return F("i2f", (ZERO - a.args[0],), w)
        return F("neg", (a,), w)
    if op in ("add", "sub", "mul", "div") and all(a.op == "const" for a in args):
        x, y = map(fval, args)
        try:
            v = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "div": lambda: x / y}[op]()
            if w == 32:
                import struct
                v = struct.unpack("f", struct.pack("f", v))[0]
            return fconst(v, w)
        except (ZeroDivisionError, OverflowError):
            pass
    if op in ("mul", "div") and fval(args[1]) == 1.0:
        return args[0]
    if op == "mul" and fval(args[0]) == 1.0:
        return args[1]
    if op in ("add", "mul"):
        args = sorted(args, key=lambda f: f.n)
    return F(op, tuple(args), w)


def fpow(w, b, e):
    """b to the power e; integral exponents in one form"""
    if isinstance(e, Poly) and e.const in (2, 3) and b.op == "const":
        r = fop("mul", w, b, b)
        return r if e.const == 2 else fop("mul", w, r, b)
    if isinstance(e, F) and e.op == "i2f" and isinstance(e.args[0], Poly):
        return F("powi", (b, e.args[0]), w)
    if isinstance(e, F) and e.op == "const" and fval(e) == int(fval(e)):
        e = P(int(fval(e)))
        return F("powi", (b, e), w)
    return F("powi" if isinstance(e, Poly) else "powf", (b, e), w)


# ---------------------------------------------------------------- printing

def show_atom(a):
    if a.op == "sym":
        return str(a.args[0])
    if a.op == "elem":
        return f"{a.args[0]}[{a.args[1]!r}]"
    if a.op == "bits":
        return f"{_alist[a.args[0]]!r}<{a.args[1]}+{a.args[2]}>"
    if a.op == "len":
        return f"len({a.args[0]})"
    if a.op == "eq":
        return f"[{a.args[0]!r}==0]"
    if a.op == "le":
        return f"[{a.args[0]!r}<=0]"
    return f"{a.op}({', '.join(repr(_alist[x]) if isinstance(x, int) and a.op in ('bitsx',) else repr(x) for x in a.args)})"


def show(p):
    if not p.m:
        return "0"
    r = []
    for k, c in sorted(p.m.items(), key=lambda kc: (len(kc[0]), kc[0])):
        t = "*".join(repr(_alist[x]) for x in k)
        if not k:
            r.append(str(c))
        elif c == 1:
            r.append(t)
        elif c == -1:
            r.append("-" + t)
        else:
            r.append(f"{c}*{t}")
    return " + ".join(r).replace("+ -", "- ")
