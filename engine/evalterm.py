"""Evaluation of abstract terms under an assignment of their base symbols.  Used only to tell two *different normal forms*
apart (a polynomial identity test): terms with equal normal forms are equal; terms with different normal forms are reported as
different only with an assignment, consistent with the facts of the abstract path, under which they differ."""
import re, math, random, struct, time
from terms import *
from interp import (Agg, Ptr, Ite, SymEnum, Opq, FnV, Uninit, VArr, SArr, Fill, Cat, Upd, Rev, Comp, PView, ARR, UN)

NANV = float("nan")


class EvalFail(Exception):
    pass


BASE = ("sym", "elem", "len")


class Env:
    def __init__(self, rng, iv=None, pool=(), it=None):
        self.v = {}
        self.rng = rng
        self.iv = iv or {}
        self.pool = list(pool)
        self.memo = {}
        self.small = rng.random() < 0.5
        self.mag = 0.0
        self.bound = {}    # comprehension variables
        self.fv = {}
        self.uf = set()    # uninterpreted functions met

    # ---- base symbols
    def key(self, a):
        if a.op == "elem":
            return ("elem", a.args[0], self.num(a.args[1]))
        return (a.op,) + a.args

    def base(self, a):
        if a.id in self.bound:
            return self.bound[a.id]
        k = self.key(a)
        if k not in self.v:
            lo, hi = a.lo, a.hi
            r = self.iv.get(a.id)
            if r:
                lo, hi = max(lo, r[0]), min(hi, r[1])
            self.v[k] = self.pick(lo, hi)
        return self.v[k]

    def pick(self, lo, hi):
        R = self.rng
        lo = -(1 << 40) if lo == -INF else int(lo)
        hi = (1 << 40) if hi == INF else int(hi)
        if lo >= hi:
            return lo
        if self.small and lo == 0 and hi == 255 and R.random() < 0.6:
            return 0
        m = R.random()
        if m < 0.25 and self.pool:
            c = R.choice(self.pool) + R.choice((-1, 0, 0, 1))
            if lo <= c <= hi:
                return c
        if m < 0.35:
            return R.choice((lo, hi, min(hi, lo + 1)))
        if m < 0.6:
            return R.randint(lo, min(hi, lo + 40))
        if hi - lo > (1 << 20) and m < 0.8:
            return R.randint(lo, min(hi, lo + 5000))
        return R.randint(lo, hi)

    def unint(self, op, args, lo, hi):
        k = ("uf", op) + args
        self.uf.add((op, str(args[0]) if args else ""))
        if k not in self.v:
            self.v[k] = self.pick(lo, hi)
        return self.v[k]

    over = False

    def clear(self):
        self.memo = {}

    # ---- integers
    def num(self, p):
        if isinstance(p, int):
            return p
        r = 0
        for k, c in p.m.items():
            t = c
            for x in k:
                t = t * self.atom(A(x))
                if t == 0:
                    break
            r += t
        return r

    def atom(self, a):
        if a.op in BASE:
            return self.base(a)
        r = self.memo.get(a.id)
        if r is None:
            r = self._atom(a)
            if not self.bound:
                self.memo[a.id] = r
        return r

    def _atom(self, a):
        op, g = a.op, a.args
        n = self.num
        if op in ("bits", "bitsx"):
            return (self.atom(A(g[0])) >> g[1]) & ((1 << g[2]) - 1)
        if op == "bitsp":
            return (n(g[0]) >> g[1]) & ((1 << g[2]) - 1)
        if op == "eq":
            return int(n(g[0]) == 0)
        if op == "le":
            return int(n(g[0]) <= 0)
        if op == "ite":
            return n(g[1]) if n(g[0]) else n(g[2])
        if op == "div":
            return n(g[0]) // (g[1] if isinstance(g[1], int) else n(g[1]))
        if op in ("divs", "rems", "sdiv", "srem"):
            x, y = n(g[0]), n(g[1])
            if y == 0:
                raise EvalFail("div0")
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return q if op in ("divs", "sdiv") else x - q * y
        if op == "pow2":
            e = n(g[0])
            if not 0 <= e <= 4096:
                raise EvalFail("pow2")
            return 1 << e
        if op == "pow":
            x, e = n(g[0]), n(g[1])
            if not 0 <= e <= 512:
                raise EvalFail("pow")
            return x ** e
        if op == "shr":
            e = n(g[1])
            if not 0 <= e <= 4096:
                raise EvalFail("shr")
            return n(g[0]) >> e
        if op == "mod":
            return n(g[0]) % (1 << g[1])
        if op == "smod":
            v = n(g[0]) % (1 << g[1])
            return v - (1 << g[1]) if v >> (g[1] - 1) else v
        if op == "sel":
            i = n(g[1])
            if not 0 <= i < len(g[0]):
                raise EvalFail("sel")
            return g[0][i]
        if op == "clz":
            x, w = n(g[0]), g[1]
            return w - x.bit_length()
        if op in ("trailing_zeros", "trailing_ones", "count_ones", "count_zeros", "cttz", "ctpop"):
            x = n(g[0])
            if op == "count_zeros":
                return int(a.hi) - bin(x).count("1")
            if op in ("count_ones", "ctpop"):
                return bin(x).count("1")
            if op == "trailing_ones":
                x = ~x & ((1 << int(a.hi)) - 1)
            return (x & -x).bit_length() - 1 if x else int(a.hi)
        if op == "byteof":
            return (n(g[0]) >> (8 * g[1])) & 255
        if op == "bswap":
            w = a.w
            return int.from_bytes(n(g[0]).to_bytes(w // 8, "little"), "big")
        if op in ("BitAnd", "BitOr", "BitXor"):
            x, y = n(g[0]), n(g[1])
            return x & y if op == "BitAnd" else x | y if op == "BitOr" else x ^ y
        if op == "big":
            x, y = n(g[1]), n(g[2])
            return x + y if g[0] == "Add" else x - y if g[0] == "Sub" else x * y
        if op in ("min", "max"):
            xs = [n(x) for x in g[:2]]
            return min(xs) if op == "min" else max(xs)
        if op == "f2i":
            x = self.f(g[0])
            if x != x:
                return 0
            if x in (math.inf, -math.inf):
                return int(a.hi if x > 0 else a.lo)
            return max(int(a.lo), min(int(a.hi), int(x)))
        if op == "f2bits":
            x = self.f(g[0])
            try:
                return int.from_bytes(struct.pack(">f" if a.w == 32 else ">d", x), "big")
            except OverflowError:
                raise EvalFail("f2bits")
        if op in ("feq", "flt", "fle", "fgt", "fge", "fne"):
            x, y = self.f(g[0]), self.f(g[1])
            return int({"feq": x == y, "fne": x != y, "flt": x < y, "fle": x <= y, "fgt": x > y, "fge": x >= y}[op])
        if op == "fis_nan":
            x = self.f(g[0])
            return int(x != x)
        if op in ("fis_finite", "fis_infinite"):
            x = self.f(g[0])
            return int((x == x and abs(x) != math.inf) == (op == "fis_finite")) if x == x else 0
        if op in ("fis_sign_negative", "fis_sign_positive"):
            x = self.f(g[0])
            return int((math.copysign(1, x) < 0) == (op == "fis_sign_negative"))
        if op == "contains":
            try:
                xs = self.arr(g[0])
                y = self.val(g[1])
                return int(any(x == y for x in xs))
            except EvalFail:
                pass
        if op == "arreq":
            return int(self.arr(g[0]) == self.arr(g[1]))
        return self.unint(op, tuple(self.val(x) for x in g), a.lo, a.hi)

    # ---- floats
    def f(self, e):
        r = self.fv.get(e)
        if r is None or self.bound:
            r = self._f(e)
            if r == r and abs(r) != math.inf:
                self.mag = max(self.mag, abs(r))
            self.note_range(e, r)
            self.fv[e] = r
        return r

    def note_range(self, e, r):
        """marks evaluations that leave the range in which rounding is harmless (overflow, underflow, NaN bit patterns)"""
        if isinstance(e, F):
            if e.op == "frombits":
                if r != r or abs(r) == math.inf or (r != 0 and abs(r) < (1e-36 if e.w == 32 else 1e-290)):
                    self.over = True
            elif e.op in ("mul", "add", "sub", "powi", "powf", "exp", "fcast", "i2f"):
                if r == r and (abs(r) > (3.3e38 if e.w == 32 else 1.7e308) or (abs(r) < (1e-36 if e.w == 32 else 1e-290) and (r != 0 or e.op in ("powi", "powf", "exp")))):
                    self.over = True

    def _f(self, e):
        op, g = e.op, e.args
        if op == "const":
            return float.fromhex(g[0])
        if op == "nan":
            return NANV
        if op in ("sym", "elem"):
            k = ("f", op, self.num(g[1]) if op == "elem" else None, g[0])
            if k not in self.v:
                self.v[k] = self.rng.choice((0.0, 1.0, self.rng.uniform(-100, 100), self.rng.uniform(-1e5, 1e5), self.rng.uniform(0, 1)))
            return self.v[k]
        if op == "i2f":
            return float(self.num(g[0])) if isinstance(g[0], Poly) else self.ufloat(e)
        if op == "fcast":
            return self.f(g[0])
        if op == "ite":
            return self.f(g[1]) if self.num(g[0]) else self.f(g[2])
        if op == "frombits":
            b = self.num(g[0])
            return struct.unpack(">f" if e.w == 32 else ">d", b.to_bytes(e.w // 8, "big"))[0]
        if op in ("add", "sub", "mul", "div"):
            x, y = self.f(g[0]), self.f(g[1])
            try:
                return x + y if op == "add" else x - y if op == "sub" else x * y if op == "mul" else x / y
            except ZeroDivisionError:
                if x == 0 or x != x:
                    return NANV
                return math.inf if (x > 0) == (math.copysign(1, y) > 0) else -math.inf
        if op == "rem":
            x, y = self.f(g[0]), self.f(g[1])
            if y == 0 or abs(x) == math.inf or x != x or y != y:
                return NANV
            return math.fmod(x, y)
        if op == "neg":
            return -self.f(g[0])
        if op == "abs":
            return abs(self.f(g[0]))
        try:
            if op == "powi":
                return self.fpow(self.f(g[0]), self.num(g[1]))
            if op == "powf":
                return self.fpow(self.f(g[0]), self.f(g[1]))
            if op == "sqrt":
                x = self.f(g[0])
                return math.sqrt(x) if x >= 0 else NANV
            if op in ("sin", "cos", "tan", "asin", "acos", "atan", "exp", "floor", "ceil", "trunc"):
                return float(getattr(math, op)(self.f(g[0])))
            if op == "exp2":
                return self.fpow(2.0, self.f(g[0]))
            if op == "round":
                x = self.f(g[0])
                return math.copysign(math.floor(abs(x) + 0.5), x)
            if op == "to_radians":
                return math.radians(self.f(g[0]))
            if op == "to_degrees":
                return math.degrees(self.f(g[0]))
            if op in ("min", "max"):
                x, y = self.f(g[0]), self.f(g[1])
                return (min if op == "min" else max)(x, y)
        except (ValueError, OverflowError):
            return NANV
        return self.ufloat(e)

    def fpow(self, x, y):
        try:
            r = math.pow(x, y)
        except OverflowError:
            return math.inf
        except ValueError:
            return NANV
        return r

    def ufloat(self, e):
        args = tuple(self.val(x) for x in e.args)
        self.uf.add((e.op, str(args[0]) if args else ""))
        k = ("uff", e.op) + args
        if k not in self.v:
            self.v[k] = self.rng.uniform(-50, 50)
        return self.v[k]

    # ---- arrays and values
    def arr(self, a, cap=300):
        n = self.arrlen(a)
        if n > cap:
            raise EvalFail("long")
        return tuple(self.at(a, i) for i in range(n))

    def arrlen(self, a):
        return self.num(a.len)

    def at(self, a, i):
        if isinstance(a, VArr):
            if not 0 <= i < len(a.el):
                raise EvalFail("range")
            return self.val(a.el[i])
        if isinstance(a, SArr):
            return self.selem(a, i)
        if isinstance(a, Fill):
            return self.val(a.val)
        if isinstance(a, Cat):
            for p in a.parts:
                n = self.arrlen(p)
                if i < n:
                    return self.at(p, i)
                i -= n
            raise EvalFail("range")
        if isinstance(a, Upd):
            o = self.num(a.off)
            n = self.arrlen(a.src) if isinstance(a.src, ARR) else 1
            if o <= i < o + n:
                return self.at(a.src, i - o) if isinstance(a.src, ARR) else self.val(a.src)
            return self.at(a.base, i)
        if isinstance(a, Rev):
            return self.at(a.base, self.arrlen(a) - 1 - i)
        if isinstance(a, PView):
            if isinstance(a.base, ARR):
                return self.at(a.base, self.num(a.off) + i)
            return ("uf-elem", self.val(a.base), self.num(a.off) + i)
        if isinstance(a, Comp):
            old = self.bound.get(a.var)
            self.bound[a.var] = i
            m, self.memo = self.memo, {}
            fv, self.fv = self.fv, {}
            try:
                return self.val(a.body)
            finally:
                self.memo, self.fv = m, fv
                if old is None:
                    del self.bound[a.var]
                else:
                    self.bound[a.var] = old
        raise EvalFail(f"array {a!r}")

    def selem(self, a, i):
        j = self.num(a.off) + i
        ty = self.tyof(a.ety)
        if ty and ty["k"] == "int":
            k = ("elem", a.name, j)
            if k not in self.v:
                w, sg = ty["w"], ty["sg"]
                self.v[k] = self.pick(-(1 << (w - 1)) if sg else 0, (1 << (w - 1)) - 1 if sg else (1 << w) - 1)
            return self.v[k]
        if ty and ty["k"] == "float":
            return self.f(F("elem", (a.name, P(j)), ty["w"]))
        return ("elem", a.name, j)

    types = None

    def tyof(self, i):
        if i is None or self.types is None:
            return None
        return self.types[i]

    def val(self, v):
        if isinstance(v, Poly):
            return self.num(v)
        if isinstance(v, Atom):
            return self.atom(v)
        if isinstance(v, F):
            x = self.f(v)
            return "NaN" if x != x else x
        if isinstance(v, Agg):
            return ("agg", v.name, v.variant) + tuple(self.val(x) for x in v.fields)
        if isinstance(v, Ite):
            return self.val(v.a) if self.num(v.c) else self.val(v.b)
        if isinstance(v, ARR):
            try:
                return ("arr",) + self.arr(v)
            except EvalFail:
                return ("arr?", repr(v))
        if isinstance(v, Opq):
            return ("opq", v.tag) + tuple(self.val(x) for x in v.args)
        if isinstance(v, SymEnum):
            return ("enum", v.name, self.num(v.discr))
        if isinstance(v, (tuple, list)):
            return tuple(self.val(x) for x in v)
        if isinstance(v, FnV):
            return ("fn", v.fn["p"])
        if isinstance(v, Ptr):
            return ("ptr", repr(v))
        return v


# ---------------------------------------------------------------- finding assignments consistent with a path

def pool_of(conds, lin):
    s = set()

    def walk(p, d=0):
        for k, c in p.m.items():
            if not k:
                if isinstance(c, int):
                    s.add(abs(c))
                continue
            if d < 4:
                for x in k:
                    for g in A(x).args:
                        if isinstance(g, Poly):
                            walk(g, d + 1)
    for c, _ in conds:
        walk(c)
    for p in lin:
        walk(p)
    return sorted(x for x in s if x < (1 << 66))


def set_atom(env, a, val):
    """try to make atom a evaluate to val"""
    if a.op in BASE:
        if a.id in env.bound:
            return False
        lo, hi = a.lo, a.hi
        r = env.iv.get(a.id)
        if r:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        if not lo <= val <= hi:
            return False
        env.v[env.key(a)] = int(val)
        env.clear()
        env.fv = {}
        return True
    if a.op == "bits":
        b = A(a.args[0])
        lo, n = a.args[1], a.args[2]
        if not 0 <= val < (1 << n):
            return False
        cur = env.atom(b)
        return set_atom(env, b, (cur & ~(((1 << n) - 1) << lo)) | (int(val) << lo))
    if a.op == "bitsp":
        return False
    if a.op == "div" and isinstance(a.args[1], int):
        return set_poly(env, a.args[0], int(val) * a.args[1])
    if a.op == "mod":
        return set_poly(env, a.args[0], int(val))
    if a.op in ("eq", "le"):
        return satisfy(env, P(a), int(val))
    if a.op in ("sdiv", "divs"):
        y = env.num(a.args[1])
        return set_poly(env, a.args[0], int(val) * y)
    if a.op == "pow2":
        return val > 0 and int(val) & (int(val) - 1) == 0 and set_poly(env, a.args[0], int(val).bit_length() - 1)
    if a.op == "shr":
        return set_poly(env, a.args[0], int(val) << env.num(a.args[1]))
    if a.op == "discr" or a.op == "call" or a.op not in ("ite", "sel", "clz"):
        try:
            args = tuple(env.val(x) for x in a.args)
        except EvalFail:
            return False
        k = ("uf", a.op) + args
        if k in env.v and a.lo <= val <= a.hi:
            env.v[k] = int(val)
            env.clear()
            return True
    return False


def set_poly(env, p, val):
    """try to make p evaluate to val by changing base symbols"""
    d = val - env.num(p)
    if d == 0:
        return True
    ks = [(k, c) for k, c in p.m.items() if k]
    # byte compositions: single-piece decomposition in descending order of coefficient
    if all(len(k) == 1 and isinstance(c, int) and c > 0 for k, c in ks) and len(ks) > 1:
        rem = val - p.m.get((), 0)
        done = True
        for k, c in sorted(ks, key=lambda t: -t[1]):
            a = A(k[0])
            hi = a.hi if a.hi != INF else (1 << 62)
            x = max(0, min(int(hi), rem // c)) if a.lo >= 0 else 0
            if not set_atom(env, a, x):
                done = False
                break
            rem -= x * c
        if done and rem == 0 and env.num(p) == val:
            return True
    # the same for the positional number among the linear terms, the others kept
    for sg in (1, -1):
        g = sorted(((k, c * sg) for k, c in ks if len(k) == 1 and isinstance(c, int) and c * sg > 0), key=lambda t: -t[1])
        if len(g) < 2:
            continue
        cur = sum(c * env.atom(A(k[0])) for k, c in g)
        rem = sg * (val - env.num(p)) + cur
        if rem < 0:
            continue
        old = dict(env.v)
        done = True
        for k, c in g:
            a = A(k[0])
            hi = a.hi if a.hi != INF else (1 << 62)
            x = max(0, min(int(hi), rem // c)) if a.lo >= 0 else 0
            if not set_atom(env, a, x):
                done = False
                break
            rem -= x * c
        if done and rem == 0 and env.num(p) == val:
            return True
        env.v = old
        env.clear()
        env.fv = {}
    env.rng.shuffle(ks)
    for k, c in ks:
        d = val - env.num(p)
        if d == 0:
            return True
        for j, x in enumerate(k):
            co = c
            for y in k[:j] + k[j + 1:]:
                co *= env.atom(A(y))
            if co == 0:
                continue
            if d % co == 0:
                cur = env.atom(A(x))
                if set_atom(env, A(x), cur + d // co) and env.num(p) == val:
                    return True
    return False


def satisfy(env, c, v):
    """try to make condition c evaluate to v (0/1)"""
    if env.num(c) == v:
        return True
    if len(c.m) == 2 and c.m.get(()) == 1:
        return satisfy(env, ONE - c, 1 - v)
    if len(c.m) != 1:
        return set_poly(env, c, v)
    (k, co), = c.m.items()
    if co != 1:
        return False
    if v == 0:
        x = env.rng.choice(k)
        return sat_atom(env, A(x), 0)
    return all(sat_atom(env, A(x), 1) for x in k)


def sat_atom(env, a, v):
    if env.atom(a) == v:
        return True
    R = env.rng
    if a.op == "eq":
        if v:
            return set_poly(env, a.args[0], 0)
        return set_poly(env, a.args[0], R.choice((1, -1, 2, 7))) or rerandom(env, a.args[0])
    if a.op == "le":
        t = R.choice((0, 0, -1, -3, -20)) if v else R.choice((1, 1, 2, 9, 40))
        return set_poly(env, a.args[0], t) or nudge(env, a.args[0], v) or rerandom(env, a.args[0])
    if set_atom(env, a, v):
        return True
    return rerandom(env, P(a))


def nudge(env, p, down):
    """move p towards <= 0 (down) or >= 1 by pushing base symbols to their bounds"""
    ks = [(k, c) for k, c in p.m.items() if len(k) == 1]
    env.rng.shuffle(ks)
    for k, c in ks:
        a = A(k[0])
        if a.op not in BASE:
            continue
        lo, hi = a.lo, a.hi
        r = env.iv.get(a.id)
        if r:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        up = (c > 0) != bool(down)
        cur = env.atom(a)
        t = (min(hi, cur * 2 + 64) if up else max(lo, cur // 2 if cur > 0 else cur * 2))
        if t in (INF, -INF):
            continue
        set_atom(env, a, int(t))
        n = env.num(p)
        if (n <= 0) == bool(down):
            return True
    return False


def base_atoms(x, out=None, seen=None, depth=0):
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if depth > 40:
        return out
    if isinstance(x, Poly):
        for k in x.m:
            for i in k:
                base_atoms(A(i), out, seen, depth + 1)
    elif isinstance(x, Atom):
        if x.id in seen:
            return out
        seen.add(x.id)
        if x.op in BASE:
            out.add(x)
        if x.op in ("bits", "bitsx"):
            base_atoms(A(x.args[0]), out, seen, depth + 1)
        elif x.op == "sel":
            base_atoms(x.args[1], out, seen, depth + 1)
        else:
            for g in x.args:
                base_atoms(g, out, seen, depth + 1)
    elif isinstance(x, F):
        if id(x) in seen:
            return out
        seen.add(id(x))
        if x.op in ("sym", "elem"):
            out.add(x)
        for g in x.args:
            base_atoms(g, out, seen, depth + 1)
    elif isinstance(x, Agg):
        for g in x.fields:
            base_atoms(g, out, seen, depth + 1)
    elif isinstance(x, Opq):
        for g in x.args:
            base_atoms(g, out, seen, depth + 1)
    elif isinstance(x, (tuple, list)):
        for g in x:
            base_atoms(g, out, seen, depth + 1)
    elif isinstance(x, Ite):
        for g in (x.c, x.a, x.b):
            base_atoms(g, out, seen, depth + 1)
    elif isinstance(x, SymEnum):
        base_atoms(x.discr, out, seen, depth + 1)
    elif isinstance(x, VArr):
        for g in x.el:
            base_atoms(g, out, seen, depth + 1)
    elif isinstance(x, SArr):
        out.add(("arr", x.name))
        base_atoms(x.len, out, seen, depth + 1)
        base_atoms(x.off, out, seen, depth + 1)
    elif isinstance(x, Fill):
        base_atoms((x.val, x.len), out, seen, depth + 1)
    elif isinstance(x, Cat):
        base_atoms(x.parts, out, seen, depth + 1)
    elif isinstance(x, Upd):
        base_atoms((x.base, x.off, x.src), out, seen, depth + 1)
    elif isinstance(x, Rev):
        base_atoms(x.base, out, seen, depth + 1)
    elif isinstance(x, PView):
        base_atoms((x.base, x.off, x.len), out, seen, depth + 1)
    elif isinstance(x, Comp):
        o2 = set()
        base_atoms((x.body, x.len), o2, set(), depth + 1)
        out |= {y for y in o2 if not (isinstance(y, Atom) and y.id == x.var)}
    return out


def rerandom(env, p):
    bs = [b for b in base_atoms(p) if isinstance(b, Atom)]
    if not bs:
        return False
    b = env.rng.choice(bs)
    try:
        k = env.key(b)
    except EvalFail:
        return False
    env.v.pop(k, None)
    env.clear()
    env.fv = {}
    return False


def assignments(st, rng, n=60, extra=(), types=None, rounds=60, pool2=()):
    """assignments of the base symbols satisfying all facts of the path (best effort)"""
    conds = list(st.conds) + list(extra)
    lin = list(st.lin)
    # a path that depends on what a summarised loop left behind, or on what a function without a model returned, may be no path at all
    for c, _ in conds:
        for b in base_atoms(c):
            nm = str(b.args[0] if isinstance(b, (Atom, F)) else b[1])
            m = WID_RE.match(nm)
            if m and m.group() in WIDENED[0]:
                REJECTED.add(("widened", nm))
                return
            if "call:" in nm and not FOREIGN.search(nm):
                REJECTED.add(("result of a function without a model", nm[:80]))
                return
    ivs = []
    for aid, (l, h) in st.iv.items():
        a = A(aid)
        if a.op not in BASE:
            ivs.append((a, l, h))
    pool = list(pool_of(conds, lin)) + list(pool2)
    fails = 0
    for t in range(n):
        if fails >= 10 or time.time() > DEADLINE[0]:
            return
        fails += 1
        env = Env(rng, st.iv, pool)
        env.types = types
        ok = False
        try:
            for r in range(rounds):
                bad = 0
                for c, v in conds:
                    if env.num(c) != v:
                        bad += 1
                        if not satisfy(env, c, v):
                            pass
                for p in lin:
                    if env.num(p) > 0:
                        bad += 1
                        if not set_poly(env, p, rng.choice((0, 0, -1, -5))):
                            nudge(env, p, 1)
                for a, l, h in ivs:
                    x = env.atom(a)
                    if not l <= x <= h:
                        bad += 1
                        if l == h:
                            if a.op in ("eq", "le"):
                                sat_atom(env, a, int(l))
                            else:
                                set_atom(env, a, int(l)) or rerandom(env, P(a))
                        else:
                            set_atom(env, a, int(l if x < l else h)) or rerandom(env, P(a))
                if not bad:
                    ok = True
                    break
        except EvalFail:
            ok = False
        except RecursionError:
            ok = False
        if ok:
            if not all(oracle(o, n) for o, n in env.uf):
                REJECTED.update(x for x in env.uf if not oracle(*x))
                continue
            env.uf = set()
            fails = 0
            yield env


DEADLINE = [time.time() + 280]
REJECTED = set()
FOREIGN = re.compile(r"call:[\w:<> ]*(opj_|jpeg|png)")
WIDENED = [set()]  # names of values of summarised loops that are known only by their type, in the current session
WID_RE = re.compile(r"[^#]*#\d+")
# results of these crates and of the input itself may be anything of their type
ORACLE = re.compile(r"^(call:)?<?(proj|openjpeg_sys|png|chrono)::")


def oracle(op, name):
    return op in ("ioerror", "call", "discr", "opq", "streq", "valeq") and bool(ORACLE.match(name.lstrip("('\"")))


def ufuns(x, out=None, seen=None, depth=0):
    """names of uninterpreted functions in a term"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if depth > 60:
        return out
    if isinstance(x, Poly):
        for k in x.m:
            for i in k:
                a = A(i)
                if a.id in seen:
                    continue
                seen.add(a.id)
                if a.op in ("call", "opq", "addrof", "discr", "ptreq", "valeq", "streq"):
                    out.add((a.op, str(a.args[0])[:80] if a.op == "call" else ""))
                for g in a.args:
                    ufuns(g, out, seen, depth + 1)
    elif isinstance(x, F):
        if id(x) in seen:
            return out
        seen.add(id(x))
        if x.op in ("call", "opq"):
            out.add((x.op, str(x.args[0])[:80]))
        for g in x.args:
            ufuns(g, out, seen, depth + 1)
    elif isinstance(x, Agg):
        for g in x.fields:
            ufuns(g, out, seen, depth + 1)
    elif isinstance(x, Opq):
        if x.tag.startswith("call:"):
            out.add(("call", x.tag[5:][:80]))
        for g in x.args:
            ufuns(g, out, seen, depth + 1)
    elif isinstance(x, (tuple, list)):
        for g in x:
            ufuns(g, out, seen, depth + 1)
    elif isinstance(x, Ite):
        for g in (x.c, x.a, x.b):
            ufuns(g, out, seen, depth + 1)
    elif isinstance(x, VArr):
        for g in x.el:
            ufuns(g, out, seen, depth + 1)
    elif isinstance(x, Comp):
        ufuns((x.body, x.len), out, seen, depth + 1)
    elif isinstance(x, Cat):
        ufuns(x.parts, out, seen, depth + 1)
    elif isinstance(x, Upd):
        ufuns((x.base, x.off, x.src), out, seen, depth + 1)
    elif isinstance(x, PView):
        ufuns((x.base, x.off, x.len), out, seen, depth + 1)
    elif isinstance(x, Fill):
        ufuns((x.val, x.len), out, seen, depth + 1)
    return out
