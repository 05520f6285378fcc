"""Text: strings as sequences of pieces (literal text, numbers in decimal, unknown text free of given characters), operations on
them, association maps, and token streams under construction."""
from terms import *
from interp import *
from models import *
import models as _m

# a piece is a str, or Opq("num", term) (the decimal digits of a number), or Opq("text", name, excluded characters), or
# Opq("fmt", kind, (flags, width, precision), value), or any other opaque value displayed


def text(name, excluded=""):
    return Opq("toks", Opq("text", name, excluded))


def num(term):
    return Opq("toks", Opq("num", P(term)))


def toks(*ps):
    r = []
    for p in ps:
        if isinstance(p, Opq) and p.tag == "toks":
            r += list(p.args)
        elif isinstance(p, Opq) and p.tag == "str":
            r.append(p.args[0])
        else:
            r.append(p)
    out = []
    for p in r:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    if not out:
        return Opq("str", "")
    if len(out) == 1 and isinstance(out[0], str):
        return Opq("str", out[0])
    return Opq("toks", *out)


def template(bs):
    """decode the byte template of format arguments: literal pieces and placeholders (flags, width, precision, index)"""
    i, r, ai = 0, [], 0
    while i < len(bs):
        n = bs[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            r.append(bytes(bs[i:i + n]).decode())
            i += n
        elif n == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            i += 2
            r.append(bytes(bs[i:i + ln]).decode())
            i += ln
        else:
            fl = w = pr = None
            if n & 1:
                fl = int.from_bytes(bytes(bs[i:i + 4]), "little")
                i += 4
            if n & 2:
                w = bs[i] | bs[i + 1] << 8
                i += 2
            if n & 4:
                pr = bs[i] | bs[i + 1] << 8
                i += 2
            if n & 8:
                ai = bs[i] | bs[i + 1] << 8
                i += 2
            if n & 48:
                return None
            r.append((ai, fl, w, pr))
            ai += 1
    return r


DEFAULT_FLAGS = 0xE0000020


def pieces(it, st, v, d=0):
    """the pieces of a text value"""
    v = it.settle(st, v) if not isinstance(v, tuple) else v
    if d > 8:
        return [v]
    if isinstance(v, Ptr):
        return pieces(it, st, it.ptr_load(st, v), d + 1)
    if isinstance(v, str):
        return [v]
    if isinstance(v, Agg) and v.name and v.name.endswith("Cow") and v.fields:
        return pieces(it, st, v.fields[0], d + 1)
    if isinstance(v, Agg) and v.name == "box":
        return pieces(it, st, v.fields[0], d + 1)
    if isinstance(v, Poly):
        c = st.norm(v).const
        return [str(c)] if c is not None else [Opq("num", v)]
    if not isinstance(v, Opq):
        return [Opq("shown", v)]
    if v.tag == "str":
        return [v.args[0]]
    if v.tag == "toks":
        return list(v.args)
    if v.tag == "to_string" and v.args:
        return pieces(it, st, v.args[0], d + 1)
    if v.tag in ("strof", "format", "strbuf") and v.args and isinstance(v.args[0], (Opq, Ptr, Agg)) and v.tag != "strbuf":
        return pieces(it, st, v.args[0], d + 1)
    if v.tag == "fmtargs":
        t = v.args[0]
        if isinstance(t, Opq) and t.tag == "str" and len(v.args) == 1:
            return [t.args[0]]
        if isinstance(t, Opq) and t.tag in ("str", "bytes"):
            return [v]
        if isinstance(t, ARR):
            n = st.norm(t.len).const
            bs = [st.norm(it.as_int(st, it.arr_get(st, t, P(i)))).const for i in range(n)] if n is not None and n <= 4096 else [None]
            tp = template(bs) if None not in bs else None
            if tp is None:
                return [v]
            args = v.args[1] if len(v.args) > 1 else None
            xs = list(args.el) if isinstance(args, VArr) else []
            r = []
            for p in tp:
                if isinstance(p, str):
                    r.append(p)
                    continue
                ai, fl, w, pr = p
                if ai >= len(xs) or not (isinstance(xs[ai], Opq) and xs[ai].tag == "arg"):
                    return [v]
                kind, val = xs[ai].args[0], xs[ai].args[1]
                if kind == "display" and fl is None and w is None and pr is None:
                    r += pieces(it, st, val, d + 1)
                    continue
                if kind == "display" and pr is None and isinstance(val, Poly) and st.norm(val).const is not None and fl is not None and fl & (1 << 24):
                    r.append(str(st.norm(val).const).zfill(w or 0))
                    continue
                r.append(Opq("fmt", kind, (fl, w, pr), val))
            return r
    return [v]


def text_of(it, st, v):
    return toks(*pieces(it, st, v))


def excl(p):
    return p.args[1] if isinstance(p, Opq) and p.tag == "text" else ("0123456789" and None)


def may_contain(p, ch):
    """may the piece contain the character?"""
    if isinstance(p, str):
        return ch in p
    if p.tag == "num":
        return ch.isdigit()
    if p.tag == "text":
        return ch not in p.args[1]
    return True


def certainly(p, ch):
    return isinstance(p, str) and ch in p


def text_eq(it, st, x, y):
    a, b = pieces(it, st, x), pieces(it, st, y)
    a, b = list(toks(*a).args) if toks(*a).tag == "toks" else list(toks(*a).args), list(toks(*b).args)
    a, b = [p for p in a if p != ""], [p for p in b if p != ""]
    if a == b:
        return ONE
    for k in (0, -1):
        while a and b:
            p, q = a[k], b[k]
            if p == q:
                a.pop(k)
                b.pop(k)
                continue
            if isinstance(p, str) and isinstance(q, str):
                n = 0
                while n < min(len(p), len(q)) and (p[n] == q[n] if k == 0 else p[-1 - n] == q[-1 - n]):
                    n += 1
                if n == 0 or n < min(len(p), len(q)):
                    return ZERO
                for (l, t) in ((a, p), (b, q)):
                    rest = t[n:] if k == 0 else t[:len(t) - n]
                    if rest:
                        l[k] = rest
                    else:
                        l.pop(k)
                continue
            break
    if not a and not b:
        return ONE
    for u, w in ((a, b), (b, a)):
        if not u and any(isinstance(p, str) or p.tag == "num" for p in w):
            return ZERO
        for p in u:
            if isinstance(p, str) and any(not any(may_contain(q, ch) for q in w) for ch in p):
                return ZERO
            if not isinstance(p, str) and p.tag == "num" and not any(may_contain(q, ch) for q in w for ch in "0123456789"):
                return ZERO
    if len(a) == 1 and len(b) == 1 and all(isinstance(p, Opq) and p.tag == "num" for p in (a[0], b[0])):
        return eq0(a[0].args[0] - b[0].args[0])
    if len(a) == 1 and len(b) == 1:
        for p, q in ((a[0], b[0]), (b[0], a[0])):
            if isinstance(p, str) and isinstance(q, Opq) and q.tag == "num":
                return eq0(q.args[0] - int(p)) if p.isascii() and p.isdigit() and (p == "0" or p[0] != "0") else ZERO
    k = sorted((toks(*a), toks(*b)), key=repr)
    return P(atom("streq", *k, lo=0, hi=1, w=1))


def is_text(v):
    return isinstance(v, Opq) and (v.tag in ("toks", "str"))


def chr_of(it, st, v):
    c = st.norm(it.as_int(st, v)).const
    return chr(c) if c is not None else None


def pattern(it, st, v):
    v = it.settle(st, v)
    if isinstance(v, Poly):
        return chr_of(it, st, v)
    if isinstance(v, (Ptr, Opq)):
        s = strv(it, st, v)
        return s.args[0] if s.tag == "str" else None
    return None


def split_text(it, st, v, sep, limit=None):
    """the parts of a text between separators, or None when that is not determined"""
    ps = pieces(it, st, v)
    out, cur = [], []
    for i, p in enumerate(ps):
        if isinstance(p, str):
            bits = p.split(sep)
            # a separator must not straddle two pieces
            if len(sep) > 1 and i + 1 < len(ps) and any(p.endswith(sep[:k]) for k in range(1, len(sep))):
                return None
            cur.append(bits[0])
            for b in bits[1:]:
                out.append(toks(*cur))
                cur = [b]
        else:
            if may_contain(p, sep[0]):
                return None
            cur.append(p)
    out.append(toks(*cur))
    return out


def text_iter(it, st, parts):
    return Agg("vec_iter", None, [VArr([Ptr(it.newcell(st, p, None, "tx")) for p in parts]), ZERO, P(len(parts))])


@pat(r"core::str::<impl str>::split")
def m_str_split(it, st, fn, args, aty, dty, where):
    sep = pattern(it, st, args[1])
    v = strv(it, st, args[0])
    if not sep or not is_text(v):
        return NotImplemented
    parts = split_text(it, st, v, sep)
    if parts is None:
        return NotImplemented
    return one(st, text_iter(it, st, parts))


@pat(r"core::str::<impl str>::splitn")
def m_str_splitn(it, st, fn, args, aty, dty, where):
    sep = pattern(it, st, args[2])
    v = strv(it, st, args[0])
    n = st.norm(it.as_int(st, args[1])).const
    if not sep or not is_text(v) or n is None:
        return NotImplemented
    parts = split_text(it, st, v, sep)
    if parts is None:
        return NotImplemented
    if len(parts) > n:
        rest = []
        for i, p in enumerate(parts[n - 1:]):
            rest += ([sep] if i else []) + [p]
        parts = parts[:n - 1] + [toks(*rest)] if n else []
    return one(st, text_iter(it, st, parts))


@pat(r"core::str::<impl str>::(split_once|rsplit_once)")
def m_str_split_once(it, st, fn, args, aty, dty, where):
    sep = pattern(it, st, args[1])
    v = strv(it, st, args[0])
    if not sep or not is_text(v):
        return NotImplemented
    parts = split_text(it, st, v, sep)
    if parts is None:
        return NotImplemented
    if len(parts) == 1:
        return one(st, NONE)
    r = []
    a, b = (parts[:1], parts[1:]) if "rsplit" not in fn["p"] else (parts[:-1], parts[-1:])

    def join(l):
        r = []
        for i, p in enumerate(l):
            r += ([sep] if i else []) + [p]
        return Ptr(it.newcell(st, toks(*r), None, "tx"))
    return one(st, some(tup(join(a), join(b))))


@pat(r"core::str::<impl str>::lines")
def m_str_lines(it, st, fn, args, aty, dty, where):
    v = strv(it, st, args[0])
    if not is_text(v):
        return NotImplemented
    parts = split_text(it, st, v, "\n")
    if parts is None:
        return NotImplemented
    if parts and parts[-1] == Opq("str", ""):
        parts = parts[:-1]
    out = []
    for p in parts:
        ps = list(p.args)
        if ps and isinstance(ps[-1], str) and ps[-1].endswith("\r"):
            ps[-1] = ps[-1][:-1]
        out.append(toks(*ps))
    return one(st, text_iter(it, st, out))


@pat(r"<(core::str::iter::(Split|SplitN|Lines|SplitWhitespace|SplitInclusive|RSplit|SplitTerminator)(<.*>)?) as core::iter::traits::iterator::Iterator>::next")
def m_str_iter_next(it, st, fn, args, aty, dty, where):
    p = as_ptr(it, st, args[0])
    v = it.settle(st, it.load(st, (p.cell, p.path)))
    if not (isinstance(v, Agg) and v.name == "vec_iter"):
        return NotImplemented
    return vec_iter_next(it, st, p, None)


WS = " \t\n\r\x0b\x0c"


@pat(r"core::str::<impl str>::(trim|trim_end|trim_start|trim_right|trim_left)")
def m_trim(it, st, fn, args, aty, dty, where):
    v = strv(it, st, args[0])
    if not is_text(v):
        return NotImplemented
    ps = pieces(it, st, v)
    sides = {"trim": (0, -1), "trim_end": (-1,), "trim_right": (-1,), "trim_start": (0,), "trim_left": (0,)}[fn["p"].split("::")[-1]]
    for k in sides:
        while ps:
            p = ps[k]
            if isinstance(p, str):
                q = p.strip(WS) if k == 0 and len(ps) == 1 and len(sides) == 2 else (p.lstrip(WS) if k == 0 else p.rstrip(WS))
                if q:
                    ps[k] = q
                    break
                ps.pop(k)
                continue
            if p.tag == "num" or (p.tag == "text" and " " in p.args[1]):
                break
            return NotImplemented
    return one(st, Ptr(it.newcell(st, toks(*ps), None, "tx")))


@pat(r"core::str::<impl str>::(contains|starts_with|ends_with)")
def m_contains(it, st, fn, args, aty, dty, where):
    sep = pattern(it, st, args[1])
    v = strv(it, st, args[0])
    if not sep or not is_text(v):
        return NotImplemented
    ps = pieces(it, st, v)
    op = fn["p"].split("::")[-1]
    if op == "contains":
        if any(isinstance(p, str) and sep in p for p in ps):
            return one(st, ONE)
        if len(sep) == 1 and not any(may_contain(p, sep) for p in ps):
            return one(st, ZERO)
        if len(ps) == 1 and isinstance(ps[0], str):
            return one(st, ZERO)
        return one(st, P(atom("strhas", toks(*ps), sep, lo=0, hi=1, w=1)))
    p = ps[0 if op == "starts_with" else -1] if ps else ""
    if isinstance(p, str) and (len(p) >= len(sep) or len(ps) == 1 or not ps):
        return one(st, P(int(p.startswith(sep) if op == "starts_with" else p.endswith(sep))))
    return one(st, P(atom("str" + op, toks(*ps), sep, lo=0, hi=1, w=1)))


@pat(r"alloc::str::<impl str>::replace")
def m_replace(it, st, fn, args, aty, dty, where):
    a = pattern(it, st, args[1])
    b = strv(it, st, args[2])
    v = strv(it, st, args[0])
    if not a or not is_text(v) or b.tag != "str" or len(a) != 1:
        return NotImplemented
    out = []
    for p in pieces(it, st, v):
        if isinstance(p, str):
            out.append(p.replace(a, b.args[0]))
        elif not may_contain(p, a):
            out.append(p)
        elif p.tag == "text":
            out.append(Opq("text", f"{p.args[1]}[{a}:={b.args[0]}]", p.args[1] + ("" if a in b.args[0] else a)))
        else:
            return NotImplemented
    return one(st, toks(*out))


@pat(r"core::str::<impl str>::(as_bytes|bytes)|alloc::string::String::as_bytes")
def m_as_bytes(it, st, fn, args, aty, dty, where):
    v = strv(it, st, args[0])
    if v.tag == "strb":
        a = v.args[0]
        return one(st, Ptr(it.newcell(st, a, None, "sb"), (), (ZERO, a.len))) if not fn["p"].endswith("::bytes") else NotImplemented
    if v.tag == "str" and not fn["p"].endswith("::bytes"):
        bs = v.args[0].encode()
        return one(st, Ptr(it.newcell(st, VArr([P(b) for b in bs]), None, "sb"), (), (ZERO, P(len(bs)))))
    return NotImplemented


@pat(r"core::str::converts::from_utf8|core::str::<impl str>::from_utf8")
def m_from_utf8(it, st, fn, args, aty, dty, where):
    a = seq_val(it, st, args[0])
    n = st.norm(a.len).const
    known = n is not None and n <= 64
    if known:
        for i in range(n):
            x = it.as_int(st, it.arr_get(st, a, P(i)))
            s = st.copy()
            if s.add_le0(P(128) - x):
                known = False
                break
    good = (st, ok(Ptr(it.newcell(st, Opq("strb", a), None, "sb"))))
    if known:
        return [good]
    s = st.copy()
    return [good, (s, err(Opq("utf8error")))]


IMAX = {"u8": 255, "u16": 65535, "u32": 2**32 - 1, "u64": 2**64 - 1, "usize": 2**64 - 1, "i8": 127, "i16": 32767, "i32": 2**31 - 1, "i64": 2**63 - 1,
        "u128": 2**128 - 1, "isize": 2**63 - 1}
IMIN = {k: (-v - 1 if k[0] == "i" else 0) for k, v in IMAX.items()}


@pat(r"<(u8|u16|u32|u64|usize|i8|i16|i32|i64|isize|u128) as core::str::traits::FromStr>::from_str|core::str::traits::FromStr::from_str")
def m_int_from_str(it, st, fn, args, aty, dty, where):
    import re as _re
    m = _re.match(r"<(\w+) as core::str::traits::FromStr>::from_str", fn.get("inst") or fn.get("rp") or fn["p"])
    if not m or m.group(1) not in IMAX:
        return NotImplemented
    t = m.group(1)
    v = strv(it, st, args[0])
    bad = err(Opq("ParseIntError"))
    if v.tag == "strb":
        a = v.args[0]
        n = st.norm(a.len).const
        if n == 0:
            return one(st, bad)
        if isinstance(a, VArr) and n is not None:
            bs = [st.norm(it.as_int(st, x)).const for x in a.el]
            if None not in bs:
                v = Opq("str", bytes(bs).decode("latin1"))
        if v.tag == "strb":
            if n is None:
                raise Undecided("number of unknown length")
            # all digits?
            outs, cur = [], [st]
            for i in range(n):
                nxt = []
                for s in cur:
                    x = it.as_int(s, it.arr_get(s, a, P(i)))
                    for s1, d in split(s, le0(P(48) - x)):
                        if not d:
                            # a leading plus sign is the only other accepted character
                            outs.append((s1, None if i == 0 and n > 1 and s1.copy().assume(eq0(x - 43), 1) else bad))
                            continue
                        for s2, e in split(s1, le0(x - 57)):
                            if e:
                                nxt.append(s2)
                            else:
                                outs.append((s2, bad))
                cur = nxt
            r = []
            for s, o in outs:
                if o is None:
                    for s1, e in split(s, eq0(it.as_int(s, it.arr_get(s, a, ZERO)) - 43)):
                        if e:
                            raise Undecided("number with a plus sign")
                        r.append((s1, bad))
                else:
                    r.append((s, o))
            for s in cur:
                if isinstance(a, SArr):
                    term = getattr(it, "numbers", {}).get((a.name, s.norm(a.off).const, n))
                    if term is None:
                        term = P(atom("num", a.name, s.norm(a.off), n, lo=0, hi=10 ** n - 1))
                else:
                    term = ZERO
                    for i in range(n):
                        term = term * 10 + it.as_int(s, it.arr_get(s, a, P(i))) - 48
                r += fit(s, P(term), t, bad)
            return r
    if v.tag == "str":
        import re as _re2
        x = v.args[0]
        if _re2.fullmatch(r"\+?[0-9]+" if t[0] == "u" else r"[+-]?[0-9]+", x) and IMIN[t] <= int(x) <= IMAX[t]:
            return one(st, ok(P(int(x))))
        return one(st, bad)
    if v.tag == "toks":
        ps = v.args
        if len(ps) == 1 and isinstance(ps[0], Opq) and ps[0].tag == "num":
            return fit(st, P(ps[0].args[0]), t, bad)
        if any(isinstance(p, str) and not p.isdigit() and not (p[0] in "+-" and p is ps[0]) for p in ps):
            return one(st, bad)
        if any(isinstance(p, Opq) and p.tag == "text" and not any(may_contain(p, c) for c in "0123456789") for p in ps):
            return one(st, bad)
    s = st.copy()
    return [(st, ok(P(atom("parsed", v, t, lo=IMIN[t], hi=IMAX[t])))), (s, bad)]


def fit(st, term, t, bad):
    r = []
    for s, e in split(st, le0(term - IMAX[t])):
        if not e:
            r.append((s, bad))
            continue
        r.append((s, ok(term)))
    return r


# ---------------------------------------------------------------- association maps

MAPS = r"(std::collections::hash::map::HashMap|alloc::collections::btree::map::BTreeMap|std::collections::HashMap)"


def amap(es):
    return Agg("assoc", None, [VArr([tup(k, v) for k, v in es])])


@pat(MAPS + r"(<.*>)?::(new|with_capacity)|<" + MAPS + r"<.*> as core::default::Default>::default")
def m_map_new(it, st, fn, args, aty, dty, where):
    return one(st, amap([]))


def map_at(it, st, v):
    p = as_ptr(it, st, v)
    p = deep(it, st, p)
    x = it.settle(st, it.load(st, (p.cell, p.path)))
    if not (isinstance(x, Agg) and x.name == "assoc"):
        return None, None
    return p, list(x.fields[0].el)


def key_eq(it, st, a, b):
    def strip(x):
        x = it.settle(st, x)
        while isinstance(x, Ptr):
            x = it.settle(st, it.ptr_load(st, x))
        return x
    a, b = strip(a), strip(b)
    if isinstance(a, Opq) or isinstance(b, Opq):
        return text_eq(it, st, a, b)
    if isinstance(a, SymEnum) or isinstance(b, SymEnum):
        raise Undecided("symbolic key")
    return val_eq(it, st, a, b)


def find_key(it, st, es, key):
    """[(state, index or None)]"""
    out, cur = [], [st]
    for i, e in enumerate(es):
        nxt = []
        for s in cur:
            for s1, b in split(s, key_eq(it, s, e.fields[0], key)):
                (out if b else nxt).append((s1, i) if b else s1)
        cur = nxt
    return out + [(s, None) for s in cur]


def slot(p, i):
    return Ptr(p.cell, p.path + (0, ("i", P(i)), 1))


def put_map(it, st, p, es):
    it.store(st, (p.cell, p.path), Agg("assoc", None, [VArr(es)]))


@pat(MAPS + r"(<.*>)?::insert")
def m_map_insert(it, st, fn, args, aty, dty, where):
    p, es = map_at(it, st, args[0])
    if p is None:
        return NotImplemented
    r = []
    for s, i in find_key(it, st, es, args[1]):
        if i is None:
            put_map(it, s, p, es + [tup(args[1], args[2])])
            r.append((s, NONE))
        else:
            n = list(es)
            n[i] = tup(es[i].fields[0], args[2])
            put_map(it, s, p, n)
            r.append((s, some(es[i].fields[1])))
    return r


@pat(MAPS + r"(<.*>)?::(get|get_mut)|<" + MAPS + r"<.*> as core::ops::index::Index<.*>>::index")
def m_map_get(it, st, fn, args, aty, dty, where):
    p, es = map_at(it, st, args[0])
    if p is None:
        return NotImplemented
    idx = "Index" in (fn.get("rp") or fn["p"])
    r = []
    for s, i in find_key(it, st, es, args[1]):
        if idx:
            if i is None:
                raise Undecided("indexing a map with a missing key")
            r.append((s, slot(p, i)))
        else:
            r.append((s, NONE if i is None else some(slot(p, i))))
    return r


@pat(MAPS + r"(<.*>)?::contains_key")
def m_map_has(it, st, fn, args, aty, dty, where):
    p, es = map_at(it, st, args[0])
    if p is None:
        return NotImplemented
    return [(s, P(int(i is not None))) for s, i in find_key(it, st, es, args[1])]


@pat(MAPS + r"(<.*>)?::remove")
def m_map_remove(it, st, fn, args, aty, dty, where):
    p, es = map_at(it, st, args[0])
    if p is None:
        return NotImplemented
    r = []
    for s, i in find_key(it, st, es, args[1]):
        if i is None:
            r.append((s, NONE))
        else:
            put_map(it, s, p, es[:i] + es[i + 1:])
            r.append((s, some(es[i].fields[1])))
    return r


@pat(MAPS + r"(<.*>)?::(len|is_empty)")
def m_map_len(it, st, fn, args, aty, dty, where):
    p, es = map_at(it, st, args[0])
    if p is None:
        return NotImplemented
    return one(st, P(len(es)) if fn["p"].endswith("len") else P(int(not es)))


@pat(MAPS + r"(<.*>)?::(iter|iter_mut|keys|values|values_mut)|<&('a )?(mut )?" + MAPS + r"<.*> as core::iter::traits::collect::IntoIterator>::into_iter")
def m_map_iter(it, st, fn, args, aty, dty, where):
    p, es = map_at(it, st, args[0])
    if p is None:
        return NotImplemented
    nm = (fn.get("rp") or fn["p"]).split("::")[-1]
    xs = []
    for i in range(len(es)):
        k, v = Ptr(p.cell, p.path + (0, ("i", P(i)), 0)), slot(p, i)
        xs.append(k if nm == "keys" else v if nm in ("values", "values_mut") else tup(k, v))
    return one(st, Agg("vec_iter", None, [VArr(xs), ZERO, P(len(xs))]))


@pat(r"<" + MAPS + r"<.*> as core::iter::traits::collect::IntoIterator>::into_iter")
def m_map_into_iter(it, st, fn, args, aty, dty, where):
    x = it.settle(st, args[0])
    if not (isinstance(x, Agg) and x.name == "assoc"):
        return m_map_iter(it, st, fn, args, aty, dty, where) if isinstance(x, Ptr) else NotImplemented
    return one(st, Agg("vec_iter", None, [x.fields[0], ZERO, x.fields[0].len]))


@pat(r"<(std::collections::hash::map::\w+|alloc::collections::btree::map::\w+)<.*> as core::iter::traits::iterator::Iterator>::next")
def m_map_next(it, st, fn, args, aty, dty, where):
    return m_str_iter_next(it, st, fn, args, aty, dty, where)


@pat(MAPS + r"(<.*>)?::entry")
def m_map_entry(it, st, fn, args, aty, dty, where):
    p, es = map_at(it, st, args[0])
    if p is None:
        return NotImplemented
    hash_ = "hash" in fn["p"]
    en = ("std::collections::hash::map::Entry" if hash_ else "alloc::collections::btree::map::entry::Entry")
    r = []
    for s, i in find_key(it, st, es, args[1]):
        if i is None:
            r.append((s, Agg(en, 1 if hash_ else 0, [Agg("vacant", None, [p, args[1]])])))
        else:
            r.append((s, Agg(en, 0 if hash_ else 1, [Agg("occupied", None, [p, P(i)])])))
    return r


ENT = r"(std::collections::hash::map|alloc::collections::btree::map::entry)::"


@pat(ENT + r"VacantEntry(<.*>)?::(insert|insert_entry)")
def m_vacant_insert(it, st, fn, args, aty, dty, where):
    e = it.settle(st, args[0])
    if not (isinstance(e, Agg) and e.name == "vacant"):
        return NotImplemented
    p, es = map_at(it, st, e.fields[0])
    put_map(it, st, p, es + [tup(e.fields[1], args[1])])
    return one(st, slot(p, len(es)))


@pat(ENT + r"OccupiedEntry(<.*>)?::(get|get_mut|into_mut|insert|key|remove|remove_entry)")
def m_occupied(it, st, fn, args, aty, dty, where):
    e = it.settle(st, args[0])
    if isinstance(e, Ptr):
        e = it.settle(st, it.ptr_load(st, e))
    if not (isinstance(e, Agg) and e.name == "occupied"):
        return NotImplemented
    i = st.norm(e.fields[1]).const
    sl = slot(e.fields[0], i)
    nm = fn["p"].split("::")[-1]
    if nm == "insert":
        old = it.load(st, (sl.cell, sl.path))
        it.store(st, (sl.cell, sl.path), args[1])
        return one(st, old)
    if nm == "key":
        return one(st, Ptr(sl.cell, sl.path[:-1] + (0,)))
    if nm in ("remove", "remove_entry"):
        p, es = map_at(it, st, e.fields[0])
        put_map(it, st, p, es[:i] + es[i + 1:])
        x = it.settle(st, es[i])
        return one(st, x if nm == "remove_entry" else x.fields[1])
    return one(st, sl)


def empty_of(it, ti):
    """the default of a type, where that is plain"""
    if ti is None:
        return None
    t = it.T(ti)
    if t["k"] in ("int", "bool"):
        return ZERO
    if t["k"] == "adt" and t["n"] == "alloc::vec::Vec":
        return vec(EMPTY)
    if t["k"] == "adt" and t["n"] == "alloc::string::String":
        return Opq("str", "")
    return None


@pat(ENT + r"Entry(<.*>)?::(or_insert|or_insert_with|or_default|and_modify)")
def m_entry_ops(it, st, fn, args, aty, dty, where):
    e = it.settle(st, args[0])
    if not (isinstance(e, Agg) and e.fields and isinstance(e.fields[0], Agg) and e.fields[0].name in ("vacant", "occupied")):
        return NotImplemented
    x = e.fields[0]
    nm = fn["p"].split("::")[-1]
    if x.name == "occupied":
        sl = slot(x.fields[0], st.norm(x.fields[1]).const)
        if nm == "and_modify":
            return [(s, e) for s, _ in it.call_value(st, args[1], [sl], where)]
        return one(st, sl)
    if nm == "and_modify":
        return one(st, e)
    if nm == "or_default":
        t = it.T(dty) if dty is not None else {}
        z = empty_of(it, t.get("t")) if t.get("k") == "ref" else None
        if z is None:
            return NotImplemented
    r = []
    for s, v in ([(st, args[1])] if nm == "or_insert" else [(st, z)] if nm == "or_default" else it.call_value(st, args[1], [], where)):
        p, es = map_at(it, s, x.fields[0])
        put_map(it, s, p, es + [tup(x.fields[1], v)])
        r.append((s, slot(p, len(es))))
    return r


# ---------------------------------------------------------------- paths

@pat(r"std::path::Path::(file_stem|file_name|extension)")
def m_path_part(it, st, fn, args, aty, dty, where):
    v = strv(it, st, args[0])
    if not is_text(v):
        return NotImplemented
    parts = split_text(it, st, v, "/")
    if not parts:
        return NotImplemented
    name = parts[-1]
    ps = list(pieces(it, st, name))
    op = fn["p"].split("::")[-1]
    if not ps or ps == [""] or ps == [".."]:
        return one(st, NONE)
    if op == "file_name":
        return one(st, some(Ptr(it.newcell(st, name, None, "tx"))))
    bits = split_text(it, st, name, ".")
    if bits is None:
        return NotImplemented
    if len(bits) == 1 or (len(bits) == 2 and bits[0] == Opq("str", "")):
        return one(st, some(Ptr(it.newcell(st, name, None, "tx"))) if op == "file_stem" else NONE)
    if op == "extension":
        return one(st, some(Ptr(it.newcell(st, bits[-1], None, "tx"))))
    r = []
    for i, b in enumerate(bits[:-1]):
        r += (["."] if i else []) + [b]
    return one(st, some(Ptr(it.newcell(st, toks(*r), None, "tx"))))


@pat(r"std::ffi::os_str::OsStr::to_string_lossy|std::path::Path::to_string_lossy")
def m_lossy(it, st, fn, args, aty, dty, where):
    v = strv(it, st, args[0])
    return one(st, Agg("alloc::borrow::Cow", 0, [Ptr(it.newcell(st, v, None, "tx"))]))


@pat(r"std::ffi::os_str::OsStr::to_str|std::path::Path::to_str")
def m_to_str(it, st, fn, args, aty, dty, where):
    v = strv(it, st, args[0])
    return one(st, some(Ptr(it.newcell(st, v, None, "tx"))))


@pat(r"<alloc::borrow::Cow<.*> as core::ops::deref::Deref>::deref|<alloc::borrow::Cow<.*> as core::convert::AsRef<.*>>::as_ref|alloc::borrow::Cow(<.*>)?::into_owned")
def m_cow(it, st, fn, args, aty, dty, where):
    v = args[0]
    for _ in range(4):
        v = it.settle(st, v)
        if isinstance(v, Ptr):
            x = it.settle(st, it.ptr_load(st, v))
            if isinstance(x, Agg) and x.name and x.name.endswith("Cow"):
                v = x
                continue
        break
    if isinstance(v, Agg) and v.name and v.name.endswith("Cow") and len(v.fields) == 1:
        w = it.settle(st, v.fields[0])
        if fn["p"].endswith("into_owned"):
            return one(st, strv(it, st, w)) if isinstance(strv(it, st, w), Opq) else NotImplemented
        if isinstance(w, Ptr):
            return one(st, w)
        if is_text(w):
            return one(st, Ptr(it.newcell(st, w, None, "tx")))
    return NotImplemented


@pat(r"<(alloc::borrow::Cow<.*>|alloc::string::String|str|&str|&'a str) as core::cmp::PartialEq<(alloc::borrow::Cow<.*>|alloc::string::String|str|&str|&'a str)>>::(eq|ne)")
def m_text_eq(it, st, fn, args, aty, dty, where):
    x, y = (pieces(it, st, a) for a in args)
    if not all(isinstance(p, str) or isinstance(p, Opq) and p.tag in ("text", "num") for p in x + y):
        return NotImplemented
    r = text_eq(it, st, toks(*x), toks(*y))
    return one(st, r if (fn.get("rp") or fn["p"]).endswith("eq") else ONE - r)


@pat(r"core::convert::AsRef::as_ref|<(str|std::path::Path|&T|T|std::path::PathBuf|alloc::string::String) as core::convert::AsRef<.*>>::as_ref")
def m_as_ref(it, st, fn, args, aty, dty, where):
    v = strv(it, st, args[0])
    if not is_text(v):
        return NotImplemented
    return one(st, args[0])


@pat(r"std::path::Path::new")
def m_path_new(it, st, fn, args, aty, dty, where):
    return one(st, args[0])


@pat(r"std::path::Path::join")
def m_path_join(it, st, fn, args, aty, dty, where):
    a, b = strv(it, st, args[0]), strv(it, st, args[1])
    pb = pieces(it, st, b)
    if pb and isinstance(pb[0], str) and pb[0].startswith("/"):
        return one(st, b)
    return one(st, toks(*(pieces(it, st, a) + ["/"] + pb)))


@pat(r"<std::path::PathBuf as core::ops::deref::Deref>::deref|std::path::PathBuf::as_path")
def m_pathbuf_deref(it, st, fn, args, aty, dty, where):
    return one(st, args[0])


# ---------------------------------------------------------------- sets

SETS = r"(std::collections::hash::set::HashSet|alloc::collections::btree::set::BTreeSet|std::collections::HashSet)"


@pat(SETS + r"(<.*>)?::(new|with_capacity)|<" + SETS + r"<.*> as core::default::Default>::default")
def m_set_new(it, st, fn, args, aty, dty, where):
    return one(st, amap([]))


@pat(SETS + r"(<.*>)?::(insert|replace)")
def m_set_insert(it, st, fn, args, aty, dty, where):
    p, es = map_at(it, st, args[0])
    if p is None:
        return NotImplemented
    r = []
    for s, i in find_key(it, st, es, args[1]):
        if i is None:
            put_map(it, s, p, es + [tup(args[1], UNIT)])
        r.append((s, P(int(i is None))))
    return r


@pat(SETS + r"(<.*>)?::contains")
def m_set_has(it, st, fn, args, aty, dty, where):
    return m_map_has(it, st, fn, args, aty, dty, where)


@pat(SETS + r"(<.*>)?::(len|is_empty)")
def m_set_len(it, st, fn, args, aty, dty, where):
    return m_map_len(it, st, fn, args, aty, dty, where)


# ---------------------------------------------------------------- generated Rust code (quote, proc_macro2)

def ts_add(it, st, ptr, *toks_):
    p = deep(it, st, as_ptr(it, st, ptr))
    v = it.settle(st, it.load(st, (p.cell, p.path)))
    if not (isinstance(v, Opq) and v.tag == "ts"):
        raise Undecided(f"token stream {v!r}")
    it.store(st, (p.cell, p.path), Opq("ts", *(v.args + tuple(toks_))))


@pat(r"proc_macro2::TokenStream::new|<proc_macro2::TokenStream as core::default::Default>::default")
def m_ts_new(it, st, fn, args, aty, dty, where):
    return one(st, Opq("ts"))


@pat(r"quote::__private::(push_\w+|parse)")
def m_ts_push(it, st, fn, args, aty, dty, where):
    nm = fn["p"].split("::")[-1]
    if nm.endswith("_spanned"):
        return NotImplemented
    if nm == "push_ident":
        ts_add(it, st, args[0], Opq("ident", text_of(it, st, strv(it, st, args[1]))))
    elif nm == "push_lifetime":
        ts_add(it, st, args[0], Opq("lifetime", strv(it, st, args[1])))
    elif nm == "parse":
        v = text_of(it, st, strv(it, st, args[1]))
        n = v.args[0] if isinstance(v, Opq) and v.tag == "str" else None
        if n is not None and n.isdigit():
            ts_add(it, st, args[0], Opq("int", P(int(n))))
        else:
            ts_add(it, st, args[0], Opq("src", v))
    elif nm == "push_group":
        g = it.settle(st, args[2])
        d = it.settle(st, args[1])
        n = it.adts[d.name]["variants"][d.variant]["name"] if isinstance(d, Agg) and d.name in it.adts else repr(d)
        ts_add(it, st, args[0], Opq("group", n, g))
    else:
        ts_add(it, st, args[0], Opq("punct", nm[5:]))
    return one(st, UNIT)


@pat(r"proc_macro2::Ident::new")
def m_ident(it, st, fn, args, aty, dty, where):
    return one(st, Opq("ident", text_of(it, st, strv(it, st, args[0]))))


@pat(r"proc_macro2::Literal::(\w+)_(un)?suffixed")
def m_lit_int(it, st, fn, args, aty, dty, where):
    return one(st, Opq("int", P(it.as_int(st, args[0]))))


@pat(r"proc_macro2::Literal::string")
def m_lit_str(it, st, fn, args, aty, dty, where):
    return one(st, Opq("string", text_of(it, st, strv(it, st, args[0]))))


@pat(r"<.* as quote::to_tokens::ToTokens>::(to_tokens)|quote::to_tokens::ToTokens::to_tokens")
def m_to_tokens(it, st, fn, args, aty, dty, where):
    v = it.settle(st, args[0])
    n = 0
    while n < 8:
        n += 1
        if isinstance(v, Ptr):
            v = it.settle(st, it.ptr_load(st, v))
        elif isinstance(v, Agg) and v.name and v.name.lower().endswith("repinterp"):
            v = it.settle(st, v.fields[0])
        else:
            break
    if isinstance(v, Poly):
        ts_add(it, st, args[1], Opq("int", v))
    elif isinstance(v, Opq) and v.tag == "ts":
        ts_add(it, st, args[1], *v.args)
    elif isinstance(v, Opq) and v.tag in ("ident", "int", "string"):
        ts_add(it, st, args[1], v)
    elif is_text(v):
        ts_add(it, st, args[1], Opq("string", v))
    else:
        ts_add(it, st, args[1], Opq("code", snap(it, st, v)))
    return one(st, UNIT)


@pat(r".*quote::__private::ext::Rep(Iterator|AsIterator|ToTokens)Ext>?::quote_into_iter")
def m_rep(it, st, fn, args, aty, dty, where):
    v = args[0]
    if "RepAsIterator" in fn["p"]:
        r = it.settle(st, v)
        if isinstance(r, Ptr):
            try:
                a = seq_val(it, st, deep(it, st, r))
                c, path, off, ln = seq_of(it, st, deep(it, st, r))
                return one(st, tup(Agg("slice_iter", None, [Ptr(c, path), off, off + ln]), UNIT))
            except Undecided:
                return NotImplemented
        return NotImplemented
    return one(st, tup(v, UNIT))


@pat(r".*quote::__private::(HasIterator|ThereIsNoIteratorInRepetition).*bitor|quote::__private::CheckHasIterator.*::check")
def m_bitor(it, st, fn, args, aty, dty, where):
    return one(st, UNIT)


# ---------------------------------------------------------------- vec![..]

@pat(r"alloc::boxed::Box(::<.*>)?::new_uninit")
def m_box_uninit(it, st, fn, args, aty, dty, where):
    c = it.newcell(st, Agg("MaybeUninit", None, [UN, Agg("ManuallyDrop", None, [UN])]), None, "bu")
    return one(st, Agg("hbox", None, [Ptr(c)]))


@pat(r"alloc::boxed::box_assume_init_into_vec_unsafe")
def m_box_init(it, st, fn, args, aty, dty, where):
    v = it.settle(st, args[0])
    if not (isinstance(v, Agg) and v.name == "hbox"):
        return NotImplemented
    p = v.fields[0]
    a = it.settle(st, it.load(st, (p.cell, (1, 0))))
    if isinstance(a, Agg) and len(a.fields) == 1 and not isinstance(a, ARR):
        a = it.settle(st, a.fields[0])
    if not isinstance(a, ARR):
        raise Undecided(f"vec! of {a!r}")
    return one(st, vec(a))


@pat(ENT + r"(Entry|OccupiedEntry|VacantEntry)(<.*>)?::.*")
def m_entry_other(it, st, fn, args, aty, dty, where):
    raise Undecided(f"operation on a map entry: {fn['p']}")
