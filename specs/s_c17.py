"""C17: every SmtString consists of SMT-LIB characters.

Goodness analysis: each value of type SmtString that a public function returns must have all its elements in [0,0x2FFFF], given well-formed
arguments.  At loop heads vectors of good elements are folded to an unknown array of good elements.  The integer constructors are also compared
with their exact specification."""
from common import *
from occ import *
import s_c06

S = "smt_strings::"
CHARMAX = 0x10FFFF


def good_array():
    return SymArr("GOOD", None, lambda I, s, i: [(s, chsym(I, s, "GOOD[%r]" % (i,)))])


def fold_good(GOOD, good_arrs, lossy=False):
    """rewrite rule: vectors of good characters -> GOOD[0..n] ; lossy: vectors with other elements -> ANY[0..n]"""
    ANY = SymArr("ANY", None, lambda I, s, i: [(s, I.intsym(s, "ANY[%r]" % (i,), 0, 2**32 - 1))])

    def val(st, v):
        if isinstance(v, Seq):
            if v.s and v.s[0][0] == "e" and len(v.s) > 4:
                return v        # fixed buffers
            n, to = ZERO, GOOD
            for g in v.s:
                if g[0] == "e" and isinstance(g[1], Lin):
                    if st.truth(f_and(f_ge(g[1]), f_le(g[1], Lin(MAX)))) is not True:
                        if not lossy:
                            return v
                        to = ANY
                    n = n + 1
                elif g[0] == "s" and (g[1] is GOOD or g[1] is ANY or g[1] in good_arrs):
                    n = n + (g[3] - g[2])
                    to = ANY if g[1] is ANY else to
                else:
                    return v
            new = Seq((("s", to, ZERO, n),))
            return v if new == v else new
        if isinstance(v, Agg):
            fs = [val(st, x) for x in v.f]
            return v if all(a is b for a, b in zip(fs, v.f)) else Agg(v.k, v.var, fs)
        return v

    def hook(I, st):
        for cell in [k for k in st.mem if k[0] not in ("s", "loop")]:
            v = st.mem[cell]
            nv = val(st, v)
            if nv is not v:
                st.mem[cell] = nv
    return hook


def good_seq(c, I, st, q, where, what="every character of the result is in [0,0x2FFFF]"):
    def inr(v):
        return f_and(f_ge(v), f_le(v, Lin(MAX)))
    if all(g[0] == "e" for g in q.s):
        for g in q.s:
            c.prove(st, inr(g[1]), what, where)
        return
    k = I.intsym(st, "k!", 0, None)
    for s in st.fork().assume(f_lt(k, q.length())):
        for s1, v in I.seq_index(s, q, k):
            c.prove(s1, inr(v), what, where)


def long_panic(c, o, n, where):
    c.prove(o[1], f_lt(Lin(I32MAX), n), "panics only when the result is longer than i32::MAX (%s)" % o[2][1], where)


def target(b_targs):
    from mir import base_ty
    return b_targs


def froms(c):
    r = []
    for t, ta, b in c.P.impls.get(("std::convert::From", "from"), ()):
        if t.get("p") == SS:
            r.append((ta[1], b))
    return r


def find_from(c, pred, name):
    for t, b in froms(c):
        if pred(t):
            return b
    raise Missing("impl From<%s> for SmtString" % name)


def conv_spec(c, I, s, q, arr, n, where):
    """the result is the input with every element above 0x2FFFF replaced by 0xFFFD"""
    if not c.prove(s, f_eq(q.length() - n), "the result has one character per input element", where):
        return
    k = I.intsym(s, "k!", 0, None)
    for s1 in s.fork().assume(f_lt(k, n)):
        for s2, x in I.arr_elem(s1, arr, k):
            for s3, y in I.seq_index(s2, q, k):
                for s4, g in cases(s3, f_le(x, Lin(MAX))):
                    c.prove(s4, f_eq(y - x) if g else f_eq(y - 0xFFFD), "integers up to 0x2FFFF are kept and larger ones become 0xFFFD", where)


def fold_conv(arr):
    """rewrite rule: vectors whose elements are the converted first elements of arr -> IDEAL[0..n]"""
    IDEAL = SymArr("IDEAL", None, None)

    def elem(I, st, i):
        out = []
        for s, x in I.arr_elem(st, arr, i):
            for s1, g in cases(s, f_le(x, Lin(MAX))):
                out.append((s1, x if g else Lin(0xFFFD)))
        return out
    IDEAL.elem = elem

    def val(I, st, v):
        if isinstance(v, Seq):
            segs = list(v.s)
            t, rest = ZERO, segs
            if segs and segs[0][0] == "s" and segs[0][1] is IDEAL:
                t, rest = segs[0][3], segs[1:]
            elif segs and segs[0][0] != "e":
                return v
            while rest and rest[0][0] == "e" and isinstance(rest[0][1], Lin):
                y = rest[0][1]
                x = [w for i, w in st.reads.get(arr.name, ()) if i == t]
                if not x:
                    return v
                if st.truth(f_or(f_and(f_le(x[0], Lin(MAX)), f_eq(x[0] - y)), f_and(f_lt(Lin(MAX), x[0]), f_eq(y - 0xFFFD)))) is not True:
                    return v
                t = t + 1
                rest = rest[1:]
            if rest:
                return v
            new = Seq((("s", IDEAL, ZERO, t),))
            return v if new == v else new
        if isinstance(v, Agg):
            fs = [val(I, st, x) for x in v.f]
            return v if all(a is b for a, b in zip(fs, v.f)) else Agg(v.k, v.var, fs)
        return v

    def hook(I, st):
        for cell in [k for k in st.mem if k[0] not in ("s", "loop")]:
            v = st.mem[cell]
            nv = val(I, st, v)
            if nv is not v:
                st.mem[cell] = nv
    return hook


def int_input(c, I, st):
    n = I.intsym(st, "a.len", 0, IM.MAXLEN)
    return bad_index(I, st, n), n


def bad_index(I, st, n):
    """integers, with the ghost g:bad = least index of one above 0x2FFFF (the length when there is none)"""
    g = I.intsym(st, "g:bad", 0, None)
    st.num.add_ge(n - g)

    def elem(I, s, i):
        x = I.intsym(s, "a[%r]" % (i,), 0, 2**32 - 1)
        out = []
        for s1, lt in cases(s, f_lt(i, g)):
            if lt:
                out += [(s2, x) for s2 in s1.assume(f_le(x, Lin(MAX)))]
                continue
            for s2, eq in cases(s1, f_eq(i - g)):
                out += [(s3, x) for s3 in (s2.assume(f_lt(Lin(MAX), x)) if eq else [s2])]
        return out
    I.ghosts = list(I.ghosts) + [g]
    return SymArr("a", None, elem)


def is_u32(t):
    return t["k"] == "int" and t["n"] == "u32"


def is_vec(t):
    return t["k"] == "adt" and t["p"] == "std::vec::Vec" and is_u32(t["a"][0])


def is_slice(t):
    return t["k"] == "ref" and t["e"]["k"] == "slice" and is_u32(t["e"]["e"])


def is_array(t):
    return t["k"] == "ref" and t["e"]["k"] == "array" and is_u32(t["e"]["e"])


def ctor(c, pred, name, mk):
    b = find_from(c, pred, name)
    I = c.interp(peel=4)
    st = St()
    arr, n = int_input(c, I, st)
    I.ghosts = list(I.ghosts) + [n]
    I.rewrite = [fold_conv(arr)]
    for o in c.run(I, b, st, [mk(I, st, arr_seq(arr, n), n)]):
        if o[0] == "panic":
            long_panic(c, o, n, b.path)
        else:
            for s, v in I.agg(o[1], o[2]):
                conv_spec(c, I, s, str_seq(I, v), arr, n, b.path)


def mk_ref(I, st, q, n):
    return Ref(I.newcell(st, q, "in"), (("r", ZERO, n),))


@ob("C17", "from_slice")
def from_slice(c):
    ctor(c, is_slice, "&[u32]", mk_ref)


@ob("C17", "from_array")
def from_array(c):
    ctor(c, is_array, "&[u32;N]", mk_ref)


@ob("C17", "from_vec")
def from_vec(c):
    ctor(c, is_vec, "Vec<u32>", lambda I, st, q, n: q)


@ob("C17", "from_u32")
def from_u32(c):
    b = find_from(c, is_u32, "u32")
    I = c.interp()
    st = St()
    x = I.intsym(st, "a[0]", 0, 2**32 - 1)
    arr = SymArr("a", None, lambda I, s, i: [(s, x)])
    for o in c.run(I, b, st, [x]):
        if o[0] == "panic":
            c.no_panic(o, b.path)
        else:
            conv_spec(c, I, o[1], str_seq(I, o[2]), arr, ONE, b.path)


@ob("C17", "from_char")
def from_char(c):
    b = find_from(c, lambda t: t["k"] == "char", "char")
    I = c.interp()
    st = St()
    x = I.intsym(st, "x", 0, CHARMAX)
    for o in c.run(I, b, st, [x]):
        if o[0] == "panic":
            c.no_panic(o, b.path)
        else:
            good_seq(c, I, o[1], str_seq(I, o[2]), b.path)


def text(I, st, name="txt"):
    n = I.intsym(st, name + ".len", 0, IM.MAXLEN)
    arr = SymArr(name, None, lambda I, s, i: [(s, chsym(I, s, "%s[%r]" % (name, i), 0, CHARMAX))])
    return arr_seq(arr, n), n


def of_text(c, b, owned, panics=True, **kw):
    I = c.interp(peel=2, **kw)
    st = St()
    q, n = text(I, st)
    G = good_array()
    I.rewrite_always = [fold_good(G, ())]
    I.rewrite = [fold_good(G, (), True), forget_buffers]
    a = q if owned else Ref(I.newcell(st, q, "txt"), (("r", ZERO, n),))
    for o in c.run(I, b, st, [a]):
        if o[0] == "panic":
            if panics:
                long_panic(c, o, n, b.path)
        else:
            for s, v in I.agg(o[1], o[2]):
                good_seq(c, I, s, str_seq(I, v), b.path)


@ob("C17", "from_str")
def from_str(c):
    of_text(c, find_from(c, lambda t: t["k"] == "ref" and t["e"]["k"] == "str", "&str"), False)


@ob("C17", "from_string")
def from_string(c):
    of_text(c, find_from(c, lambda t: t.get("p") == "std::string::String", "String"), True)


def lifted(c, name, args, **kw):
    """string functions: well-formed arguments give well-formed results"""
    b = c.fn(S + name)
    I = c.interp(peel=kw.pop("peel", 2))
    st = St()
    arrs, vals = [], []
    for a in args:
        if a == "s":
            v, arr, n = mk_str(c, I, st, "s%d" % len(vals))
            arrs.append(arr)
            vals.append(ref(I, st, v))
        else:
            vals.append(I.intsym(st, "i%d" % len(vals), -2**31, I32MAX))
    I.rewrite_always = I.rewrite = [fold_good(good_array(), arrs)]
    for k, v in kw.items():
        setattr(I, k, v)
    for o in c.run(I, b, st, vals):
        if o[0] == "ret":
            for s, v in I.agg(o[1], o[2]):
                good_seq(c, I, s, str_seq(I, v), b.path)


for _n, _a in (("str_concat", "ss"), ("str_at", "si"), ("str_substr", "sii"), ("str_from_code", "i")):
    (lambda n, a: ob("C17", n)(lambda c: lifted(c, n, a)))(_n, _a)


@ob("C17", "str_from_int")
def from_int(c):
    def tostr(I, s, a, call):
        dec = SymArr("dec", None, lambda I, s, i: [(s, chsym(I, s, "dec[%r]" % (i,), 45, 57))])
        return [("ret", s, arr_seq(dec, I.intsym(s, "dec.len", 1, 11)))]
    lifted(c, "str_from_int", "i", to_string_hook=tostr, peel=12)


def search_any(c, I, arrs):
    """naive_search returns some position of the string (obligation C06 naive_search)"""
    ns = c.P.find("matcher::naive_search")
    adt = "crate::matcher::SearchResult"
    if not ns or adt not in c.P.adts:
        return

    def con(I, st, args, call):
        if len(args) != 3:
            return None
        out = []
        for s, rp in I.as_slice(st, args[0]):
            for s1, rs in I.as_slice(s, args[1]):
                (qp,), (qs,) = I.rload(s1, rp), I.rload(s1, rs)
                m, n, k = qp[1].length(), qs[1].length(), args[2]
                names = [v["n"] for v in I.P.adts[adt]["v"]]
                out.append(("ret", s1.fork(), Agg(adt, names.index("NotFound"), ())))
                i = I.intsym(s1, fresh("found"), 0, None)
                if s1.num.add_ge(i - k) and s1.num.add_ge(n - m - i):
                    out.append(("ret", s1, Agg(adt, names.index("Found"), (i, i + m))))
        return out
    I.contracts[ns.path] = con


def replace_ob(c, name):
    b = c.fn(S + name)
    I = c.interp(peel=2)
    st = St()
    arrs, vals = [], []
    for nm in ("s", "p", "r"):
        v, arr, n = mk_str(c, I, st, nm)
        arrs.append(arr)
        vals.append(ref(I, st, v))
    search_any(c, I, arrs)
    I.rewrite_always = I.rewrite = [fold_good(good_array(), arrs)]
    for o in c.run(I, b, st, vals):
        if o[0] == "ret":
            for s, v in I.agg(o[1], o[2]):
                good_seq(c, I, s, str_seq(I, v), b.path)


@ob("C17", "str_replace")
def rep(c):
    replace_ob(c, "str_replace")


@ob("C17", "str_replace_all")
def rep_all(c):
    replace_ob(c, "str_replace_all")


def forget_buffers(I, st):
    """rewrite rule: the characters kept in fixed buffers lose their relations"""
    def val(v):
        if isinstance(v, Seq):
            if len(v.s) > 4 and all(g[0] == "e" and isinstance(g[1], Lin) and st.truth(f_and(f_ge(g[1]), f_le(g[1], Lin(MAX)))) for g in v.s):
                q = []
                for g in v.s:
                    nm = fresh("buf")
                    q.append(("e", I.intsym(st, nm, 0, MAX)))
                    I.kinds[nm] = "x"
                return Seq(q)
            return v
        if isinstance(v, Agg):
            return Agg(v.k, v.var, [val(x) for x in v.f])
        return v
    for cell in [k for k in st.mem if k[0] not in ("s", "loop", "k")]:
        if isinstance(st.mem[cell], Agg):
            st.mem[cell] = val(st.mem[cell])


def parser_shape(I, st):
    """the small counters of the parser are kept apart"""
    r = []
    for cell in sorted((k for k in st.mem if k[0] not in ("s", "k", "loop")), key=str):
        v = st.mem[cell]
        if isinstance(v, Agg) and v.k.startswith("crate::"):
            r.append((v.k, tuple(x.c if isinstance(x, Lin) and x.is_const() and 0 <= x.c < 16 else None for x in v.f)))
    return r


@ob("C17", "parse_smt_literal", budget=300)
def parse(c):
    of_text(c, c.fn(S + "parse_smt_literal"), False, panics=False, shape_hook=parser_shape, loopvariants=200, unary=tuple(sorted(set(IM.UNARY) | {16 ** k - 1 for k in range(1, 8)})))


def templates(c):
    """texts P x y : P a prefix of an escape sequence with decimal digits, x and y arbitrary characters or missing"""
    r = ["", "\\", "\\u", "\\u{"] + ["\\u{" + "d" * k for k in range(1, 7)] + ["\\u" + "d" * k for k in range(1, 5)]
    r += ["\\u{dffff", "\\u{dFFFF", "\\ufff", "\\uFFF", "\\u{f", "\\u{FF"]
    two = [a + b for a in ("\\", "\\u{ddddd", "\\u{d", "\\uddd", "\\udddd", "\\u{ddd}", "\\u") for b in ("\\udddd", "\\u{d}", "\\u{ddddd}")]
    return [(p, k) for p in r for k in (0, 1, 2)] + [(p, k) for p in two for k in (0, 1)]


def template_text(I, st, p, k):
    els = []
    for i, ch in enumerate(p):
        lo, hi = {"d": (48, 57), "f": (97, 102), "F": (65, 70)}.get(ch, (0, 0))
        els.append(chsym(I, st, "txt[%d]" % i, lo, hi) if lo else Lin(ord(ch)))
    for i in range(k):
        els.append(chsym(I, st, "txt[%d]" % (len(p) + i), 0, CHARMAX))
    return Seq([("e", e) for e in els])


def on_templates(c, check):
    b = c.fn(S + "parse_smt_literal")
    for p, k in templates(c):
        I = c.interp(peel=20, exact_only=True)
        st = St()
        q = template_text(I, st, p, k)
        st.note("text of the form %s%s" % (p, "x" * k))
        for o in c.run(I, b, st, [Ref(I.newcell(st, q, "txt"), (("r", ZERO, q.length()),))]):
            if o[0] == "panic":
                c.no_panic(o, b.path)
            else:
                for s, v in I.agg(o[1], o[2]):
                    check(c, I, s, q, str_seq(I, v), b.path)


@ob("C17", "parse_smt_literal_escapes")
def parse_esc(c):
    on_templates(c, lambda c, I, s, q, r, where: good_seq(c, I, s, r, where))


@ob("C17", "good_char")
def gchar(c):
    b = c.fn(S + "good_char")
    I = c.interp()
    st = St()
    x = I.intsym(st, "x", 0, 2**32 - 1)
    for o in c.run(I, b, st, [x]):
        if o[0] == "panic":
            c.no_panic(o, b.path)
        else:
            for s, r in cases(o[1], o[2]):
                f = f_le(x, Lin(MAX))
                c.prove(s, f if r else f_not(f), "good_char holds exactly for [0,0x2FFFF]", b.path)


def is_good_ob(c, b, mk):
    I = c.interp(peel=2)
    st = St()
    n = I.intsym(st, "a.len", 0, I32MAX)
    arr = bad_index(I, st, n)
    g = sym("g:bad")
    for o in c.run(I, b, st, [mk(I, st, arr_seq(arr, n), n)]):
        if o[0] == "panic":
            c.no_panic(o, b.path)
            continue
        for s, r in cases(o[1], o[2]):
            c.prove(s, f_eq(g - n) if r else f_ne(g - n), "well-formed exactly when every element is in [0,0x2FFFF]", b.path)


@ob("C17", "good_string")
def gstring(c):
    is_good_ob(c, c.fn(S + "good_string"), mk_ref)


@ob("C17", "is_good")
def isgood(c):
    is_good_ob(c, c.fn(S + "SmtString::is_good"), lambda I, st, q, n: ref(I, st, Agg(SS, 0, [q])))
