"""Parameter tables to generated enums: variants, values, and the conversion from numbers."""
from common import *
import strmodels as T
from an import *

MACRO = r"^grib_codegen::parameter_codes$"


class Macro:
    """the expansion of the attribute with the table file holding the given text"""

    def __init__(self, C, an):
        self.C, self.an, self.text = C, an, None
        h = an.it.hooks
        h["std::fs::read_to_string"] = self.read
        h["syn::parse"] = h["syn::parse_macro_input::parse"] = h["syn::parse2"] = self.parse
        h["syn::punctuated::Punctuated::<T,P>::is_empty"] = h["syn::punctuated::Punctuated::is_empty"] = self.empty
        h["<proc_macro::TokenStream as core::convert::From<proc_macro2::TokenStream>>::from"] = self.same
        h["<proc_macro2::TokenStream as core::convert::From<proc_macro::TokenStream>>::from"] = self.same
        for n in ("to_compile_error", "into_compile_error"):
            h["syn::error::Error::" + n] = self.refuse

    def refuse(self, it, st, fn, args, argtys, dty, where):
        return [(st, Opq("ts", Opq("refusal")))]

    def same(self, it, st, fn, args, argtys, dty, where):
        return [(st, args[0])]

    def read(self, it, st, fn, args, argtys, dty, where):
        if self.text is None:
            return [(st, models.err(Opq("ioerror")))]
        return [(st, models.ok(self.text))]

    def empty(self, it, st, fn, args, argtys, dty, where):
        return [(st, ONE)]

    def parse(self, it, st, fn, args, argtys, dty, where):
        t = it.T(dty)["s"]
        if "ParameterCodesArgs" in t or "Args" in t:
            for n, a in self.an.d["adts"].items():
                if n.endswith("Args") and "grib_codegen" in n:
                    fs = a["variants"][0]["fields"]
                    if len(fs) == 1:
                        return [(st, models.ok(Agg(n, None, [models.tup(Opq("str", "params.txt"), Opq("span"))])))]
            raise Undecided("attribute arguments")
        a = next((n for n in self.an.d["adts"] if n.endswith("::ItemEnum")), None)
        if a is None or "ItemEnum" not in t:
            return [(st, models.ok(Opq("item")))]
        fs = [f[0] for f in self.an.d["adts"][a]["variants"][0]["fields"]]
        vals = [models.vec(VArr([])) if f == "attrs" else Opq("item " + f) for f in fs]
        return [(st, models.ok(Agg(a, None, vals)))]

    def expand(self, text, st=None):
        an = self.an
        an.it.havoc.clear()
        self.text = text
        k, = an.find(MACRO)
        return an.run_key(k, [Opq("args"), Opq("input")], st or St())


def flat(it, st, ts):
    """token list with invisible wrappers removed"""
    out = []
    for t in ts.args:
        if t.tag == "ts":
            out += flat(it, st, t)
        elif t.tag == "code":
            v = it.settle(st, t.args[0])
            while isinstance(v, (Ptr, Agg)) and not (isinstance(v, Opq)):
                if isinstance(v, Ptr):
                    v = it.settle(st, it.ptr_load(st, v))
                elif len(v.fields) == 1:
                    v = it.settle(st, v.fields[0])
                else:
                    break
            out += flat(it, st, v) if isinstance(v, Opq) and v.tag == "ts" else [t]
        else:
            out.append(t)
    return out


def word(t, w):
    return t.tag == "ident" and t.args[0] == Opq("str", w)


def punct(t, *names):
    return t.tag == "punct" and t.args[0] in [Opq("str", n) for n in names] or t.tag == "punct" and t.args[0] in names


def groups(toks, d=0):
    for i, t in enumerate(toks):
        yield toks, i
        if t.tag == "group":
            yield from groups(t.flat, d + 1)


class G:
    """a token with its group's content flattened"""
    def __init__(self, tag, args, flat=None):
        self.tag, self.args, self.flat = tag, args, flat


def tree(it, st, ts):
    out = []
    for t in flat(it, st, ts):
        if t.tag == "group":
            out.append(G("group", t.args, tree(it, st, t.args[1])))
        else:
            out.append(G(t.tag, t.args))
    return out


def split_commas(toks):
    out, cur = [], []
    for t in toks:
        if punct(t, "comma"):
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    return [x for x in out + [cur] if x]


def parse_enum(toks):
    """[(name text, value)] of the variants and [(pattern | None, ident | None)] of the conversion's arms"""
    variants = arms = None
    for ts, i in groups(toks):
        if word(ts[i], "enum"):
            g = next((t for t in ts[i:] if t.tag == "group"), None)
            variants = []
            for v in split_commas(g.flat):
                while v and punct(v[0], "pound"):
                    v = v[2:]
                if len(v) == 1 and v[0].tag == "ident":
                    raise Undecided("variant without a value")
                if len(v) == 1 and v[0].tag == "code":
                    raise Undecided(f"variants {v[0].args!r:.100}")
                if not (len(v) == 3 and v[0].tag == "ident" and punct(v[1], "eq") and v[2].tag == "int"):
                    raise Undecided(f"variant {[t.args for t in v]!r:.200}")
                variants.append((v[0].args[0], v[2].args[0]))
        if word(ts[i], "match"):
            g = next((t for t in ts[i:] if t.tag == "group"), None)
            arms = []
            for a in split_commas(g.flat):
                k = next((j for j, t in enumerate(a) if punct(t, "fat_arrow")), None)
                if k != 1:
                    raise Undecided("arm with a pattern that is not one token")
                if a[0].tag == "int":
                    pat = a[0].args[0]
                elif punct(a[0], "underscore") or word(a[0], "_") or a[0].tag == "ident":
                    pat = None
                else:
                    raise Undecided(f"pattern {a[0].tag}")
                body = a[2:]
                if len(body) == 2 and word(body[0], "Err"):
                    arms.append((pat, None))
                elif len(body) == 2 and word(body[0], "Ok") and body[1].flat and body[1].flat[-1].tag == "ident":
                    arms.append((pat, body[1].flat[-1].args[0]))
                else:
                    raise Undecided("arm body")
    if variants is None or arms is None:
        raise Undecided("no enum with a conversion in the generated code")
    return variants, arms


def line(i, name, **kw):
    hi = dict(d=255, s=255, e=255, centre=65535, l=255, c=255, n=255)
    o = lambda n: kw.get(n, T.num(P(atom("sym", f"{n}{i}", lo=0, hi=hi[n]))))
    t = lambda n: Opq("text", f"{n}{i}", ": \r\n")
    return [o("d"), "1", o("s"), o("e"), o("centre"), o("l"), o("c"), o("n"), name, t("desc"), t("unit")]


def text(lines, end="\n"):
    out = []
    for l in lines:
        for j, w in enumerate(l):
            out += ([":"] if j else []) + [w]
        out.append(end)
    return T.toks(*out)


def val(i):
    return sum((P(atom("sym", f"{n}{i}", lo=0, hi=255)) * m for n, m in (("d", 65536), ("c", 256), ("n", 1))), ZERO)


def norm(name):
    """the identifier of a name: '-' replaced"""
    if isinstance(name, str):
        return T.toks("_" + name.replace("-", "_"))
    return T.toks("_", name)


def refused(toks):
    return any(t.tag == "refusal" for ts, i in groups(toks) for t in [ts[i]])


def nameeq(an, st, a, b):
    r = T.text_eq(an.it, st, a, b)
    return an.it.settle(st, r)


def judge(C, an, name, s, v, names, ids):
    toks = tree(an.it, s, an.it.settle(s, v))
    if refused(toks):
        require(C, an, s, ZERO, name, "a table of well-formed lines is accepted", key="refused")
        return
    variants, arms = parse_enum(toks)
    idents = [norm(n) for n in names]
    # which lines share a name; a value under two names is outside the property
    todo = [(s, [])]
    for i in range(len(names)):
        nxt = []
        for st, g in todo:
            same = None
            alts = [(st, None)]
            for j in range(i):
                new = []
                for st1, got in alts:
                    if got is not None:
                        new.append((st1, got))
                        continue
                    for st2, b in models.split(st1, P(nameeq(an, st1, idents[i], idents[j]))):
                        new.append((st2, g[j] if b else None))
                alts = new
            nxt += [(st1, g + [i if got is None else got]) for st1, got in alts]
        todo = nxt
    for st, g in todo:
        dead = False
        for i in range(len(names)):
            for j in range(i):
                if g[i] != g[j] and not st.assume(eq0(ids[i] - ids[j]), 0):
                    dead = True
        if dead:
            continue
        heads = sorted(set(g))
        def who(t):
            for h in heads:
                if st.decide(st.norm(P(nameeq(an, st, t, idents[h])))) is True:
                    return h
            return None
        vs = [(who(t), x) for t, x in variants]
        for h in heads:
            n = sum(1 for w, _ in vs if w == h)
            if n != 1:
                require(C, an, st, ZERO, name, f"name of line {h + 1} (of lines with names {g}) has one variant, has {n}", key="one variant per name")
            for w, x in vs:
                if w == h:
                    require(C, an, st, eq0(x - ids[h]), name, f"value of the variant is that of the first line with the name, is {short(x)}", key="value of a variant")
        for w, x in vs:
            if w is None:
                require(C, an, st, ZERO, name, "every variant is the name of a line", key="one variant per name")
        as_ = [(p, None if t is None else who(t), t is None) for p, t in arms]
        for i in range(len(names)):
            hit, wrong = ONE, []
            for p, w, e in as_:
                m = ONE if p is None else eq0(p - ids[i])
                if w == g[i] and not e:
                    hit = hit * (ONE - m)
                else:
                    wrong.append(hit * m)
                    require(C, an, st, ONE - hit * m, name, f"the value of line {i + 1} converts to its own variant", key="conversion")
                if p is None:
                    break
            else:
                require(C, an, st, ONE - hit, name, f"the value of line {i + 1} converts to its own variant", key="conversion")
        last = False
        for p, w, e in as_:
            if last:
                break
            if p is None:
                last = True
                require(C, an, st, ONE if e else ZERO, name, "every other value is an error", key="other values")
            elif not e:
                m = ONE
                for x in ids:
                    m = m * (ONE - eq0(p - x))
                require(C, an, st, ONE - m, name, f"the conversion accepts values of the table only, accepts {short(p)}", key="other values")


def run(C):
    an = An("codegen")
    an.it.unroll_limit = 24
    M = Macro(C, an)
    sym = lambda n: Opq("text", n, ":- \r\n")
    A, B, D = sym("A"), sym("B"), sym("C")
    tables = [[A], [A, B], [A, B, D], [A, A, A], [A, A, B], [A, B, A], [A, B, B], [A, B, A, B], ["U-GWD"], ["U-GWD", "U_GWD"], ["A-B-C", "A-B_C", "A_B", A], ["U-GWD", "V-GWD", "U-GWD"], [A, A, B, B]]
    for names in tables:
        for end in ("\n", "\r\n") if len(names) < 3 else ("\n",):
            name = "lines " + " ".join(n if isinstance(n, str) else n.args[0] for n in names) + (" crlf" if end != "\n" else "")
            with C.part(name):
                ids = [val(i) for i in range(len(names))]
                st = St()
                three = [n for n in dict.fromkeys(names) if not isinstance(n, str)]
                for i, x in enumerate(three if len(three) > 2 else ()):
                    for y in three[:i]:
                        st.assume(P(nameeq(an, st, norm(x), norm(y))), 0)
                for s, v in M.expand(text([line(i, n) for i, n in enumerate(names)], end), st):
                    judge(C, an, name, s, v, names, ids)
    with C.part("unparsable lines"):
        def must_refuse(name, ls, when=lambda s: True):
            for s, v in M.expand(text(ls)):
                if not when(s):
                    continue
                toks = tree(an.it, s, an.it.settle(s, v))
                if refused(toks):
                    C.ok(name)
                else:
                    require(C, an, s, ZERO, name, "generation fails", key="unparsable line accepted")
        for f in ("d", "s", "e", "centre", "l", "c", "n"):
            for bad in ("x", "", "-1", "70000"):
                for pos in (0, 1):
                    ls = [line(0, "X"), line(1, "Y")]
                    ls[pos] = line(pos, "Z", **{f: bad})
                    must_refuse(f"field {f} = '{bad}' on line {pos + 1}", ls)
            lim = 65535 if f == "centre" else 255
            big = P(atom("sym", f"big {f}", lo=0, hi=100000))
            def over(s):
                return s.assume(le0(P(lim + 1) - big), 1)
            must_refuse(f"field {f} out of range", [line(0, "Z", **{f: T.num(big)})], over)
        for k in range(1, 11):
            must_refuse(f"line of {k} fields", [line(0, "X"), line(1, "Z")[:k]])
            must_refuse(f"first line of {k} fields", [line(0, "X")[:k], line(1, "Z")])
        
        for s, v in M.expand(None):
            C.ok("unreadable file") if refused(tree(an.it, s, an.it.settle(s, v))) else require(C, an, s, ZERO, "unreadable file", "generation fails", key="unreadable file accepted")
    C.used(an)
