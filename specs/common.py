from spec import *
CS = "crate::character_sets::CharSet"
LR = "crate::loop_ranges::LoopRange"
ORDERING = "std::cmp::Ordering"


def charset_hook(I, st, ty, name):
    a = I.P.adts[CS]["v"][0]["f"]
    names = [n for n, t in a]
    if sorted(names) != ["end", "start"]:
        raise Skip("CharSet representation changed")
    s = I.intsym(st, name + ".start", 0, MAX)
    e = I.intsym(st, name + ".end", 0, MAX)
    st.num.add_ge(e - s)
    d = {"start": s, "end": e}
    return Agg(CS, 0, [d[n] for n in names])


def cs_fields(c_or_I, v):
    P = c_or_I.P
    names = [n for n, t in P.adts[CS]["v"][0]["f"]]
    d = dict(zip(names, v.f))
    return d["start"], d["end"]


def mk_charset(I, s, e):
    names = [n for n, t in I.P.adts[CS]["v"][0]["f"]]
    d = {"start": s, "end": e}
    return Agg(CS, 0, [d[n] for n in names])


def ref(I, st, v, base="arg"):
    return Ref(I.newcell(st, v, base))


def each_bool(st, v):
    """split a boolean result"""
    return cases(st, v)


SS = "crate::smt_strings::SmtString"
I32MAX = 2**31 - 1


def mk_str(c, I, st, name, elem=None, maxlen=I32MAX, good=True):
    """symbolic SmtString: (value, array, length)"""
    a = I.P.adts.get(SS)
    if not a or len(a["v"][0]["f"]) != 1:
        raise Skip("SmtString representation changed")
    n = I.intsym(st, name + ".len", 0, maxlen)

    def plain(I, s, i):
        v = I.intsym(s, "%s[%r]" % (name, i), 0, MAX if good else 2**32 - 1)
        I.kinds["%s[%r]" % (name, i)] = "c"
        return [(s, v)]
    arr = SymArr(name, None, elem or plain)
    return Agg(SS, 0, [arr_seq(arr, n)]), arr, n


def chsym(I, s, name, lo=0, hi=MAX):
    I.kinds[name] = "c"
    return I.intsym(s, name, lo, hi)


def str_seq(I, v):
    if isinstance(v, Agg) and v.k == SS and isinstance(v.f[0], Seq):
        return v.f[0]
    raise Unsupported("string value %r" % (v,))


def mismatch_pair(c, I, st, a="v", b="w", shift=None):
    """two strings with the ghost m: least index where they differ (or the end of one of them).
    returns (va, na, vb, nb, m, last) ; w[i] is v[i] below m; shift: index of w = index of v + shift"""
    m = I.intsym(st, "g:m", 0, None)
    va, aa, na = mk_str(c, I, st, a)

    def elem(I, s, i):
        out = []
        for s1, lt in cases(s, f_lt(i, m)):
            if lt:
                out += I.arr_elem(s1, aa, i)
                continue
            for s2, eq in cases(s1, f_eq(i - m)):
                x = chsym(I, s2, "%s[%r]" % (b, i))
                if not eq:
                    out.append((s2, x))
                    continue
                # at m: different when m is inside v
                for s3, inn in cases(s2, f_lt(m, na)):
                    if not inn:
                        out.append((s3, x))
                    else:
                        for s4, y in I.arr_elem(s3, aa, i):
                            out += [(s5, x) for s5 in s4.assume(f_ne(x - y))]
        return out
    vb, ab, nb = mk_str(c, I, st, b, elem)
    st.num.add_ge(na - m)
    st.num.add_ge(nb - m)
    I.ghosts = list(I.ghosts) + [m]
    return va, aa, na, vb, ab, nb, m
