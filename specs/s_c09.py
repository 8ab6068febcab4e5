"""C09: lexicographic order and integer/code conversions."""
from common import *


def order(c, fname, strict):
    b = c.fn("smt_strings::" + fname)
    I = c.interp(peel=3)
    st = St()
    v, av, nv, w, aw, nw, m = mismatch_pair(c, I, st)
    for o in c.run(I, b, st, [ref(I, st, v), ref(I, st, w)]):
        if o[0] == "panic":
            c.no_panic(o, b.path)
            continue
        # decide the specification in the final state
        for s, inn in cases(o[1], f_and(f_lt(m, nv), f_lt(m, nw))):
            if inn:
                for s1, x in I.arr_elem(s, av, m):
                    for s2, y in I.arr_elem(s1, aw, m):
                        for s3, r in cases(s2, o[2]):
                            f = f_lt(x, y)
                            c.prove(s3, f if r else f_not(f), "%s: the first difference decides" % fname, b.path)
            else:
                f = f_lt(nv, nw) if strict else f_le(nv, nw)
                for s3, r in cases(s, o[2]):
                    c.prove(s3, f if r else f_not(f), "%s: without difference the lengths decide" % fname, b.path)


@ob("C09", "str_lt")
def lt(c):
    order(c, "str_lt", True)


@ob("C09", "str_le")
def le(c):
    order(c, "str_le", False)


@ob("C09", "str_is_digit")
def isdigit(c):
    b = c.fn("smt_strings::str_is_digit")
    I = c.interp()
    st = St()
    v, a, n = mk_str(c, I, st, "s")
    for o in c.run(I, b, st, [ref(I, st, v)]):
        if o[0] == "panic":
            c.no_panic(o, b.path)
            continue
        for s, one in cases(o[1], f_eq(n - 1)):
            if not one:
                for s2, r in cases(s, o[2]):
                    c.prove(s2, not r, "only single-character strings are digits", b.path)
                continue
            for s1, x in I.arr_elem(s, a, ZERO):
                f = f_and(f_le(Lin(48), x), f_le(x, Lin(57)))
                for s2, r in cases(s1, o[2]):
                    c.prove(s2, f if r else f_not(f), "is_digit holds exactly for '0'..'9'", b.path)


@ob("C09", "str_to_code")
def tocode(c):
    b = c.fn("smt_strings::str_to_code")
    I = c.interp()
    st = St()
    v, a, n = mk_str(c, I, st, "s")
    for o in c.run(I, b, st, [ref(I, st, v)]):
        if o[0] == "panic":
            c.no_panic(o, b.path)
            continue
        for s, one in cases(o[1], f_eq(n - 1)):
            if not one:
                c.prove(s, f_eq(o[2] + 1), "to_code is -1 unless the length is 1", b.path)
            else:
                for s1, x in I.arr_elem(s, a, ZERO):
                    c.prove(s1, f_eq(o[2] - x), "to_code of a single character is its code", b.path)


@ob("C09", "str_from_code")
def fromcode(c):
    b = c.fn("smt_strings::str_from_code")
    I = c.interp()
    st = St()
    x = I.intsym(st, "x", -2**31, I32MAX)
    for o in c.run(I, b, st, [x]):
        if o[0] == "panic":
            c.no_panic(o, b.path)
            continue
        q = str_seq(I, o[2])
        for s, good in cases(o[1], f_and(f_ge(x), f_le(x, Lin(MAX)))):
            if good:
                c.prove(s, f_eq(q.length() - 1), "from_code(x) has length 1 for x in [0,0x2FFFF]", b.path)
                if s.num.entails_eq(q.length() - 1):
                    for s1, y in I.seq_index(s, q, ZERO):
                        c.prove(s1, f_eq(x - y), "from_code(x) is the character x", b.path)
            else:
                c.prove(s, f_eq(q.length()), "from_code(x) is empty outside [0,0x2FFFF]", b.path)


@ob("C09", "str_to_int", budget=400)
def toint(c):
    b = c.fn("smt_strings::str_to_int")
    I = c.interp(peel=12)
    st = St()
    g = I.intsym(st, "g:bad", 0, None)      # index of the first non-digit (the length when there is none)
    pos, val = ("loop", "pos"), ("loop", "val")

    def elem(I, s, i):
        x = chsym(I, s, "s[%r]" % (i,))
        dig = f_and(f_le(Lin(48), x), f_le(x, Lin(57)))
        out = []
        for s1, lt in cases(s, f_lt(i, g)):
            if lt:
                out += [(s2, x) for s2 in s1.assume(dig)]
                continue
            for s2, eq in cases(s1, f_eq(i - g)):
                out += [(s3, x) for s3 in (s2.assume(f_not(dig)) if eq else [s2])]
        return out

    def onread(I, s, i, x):
        """history variables: value of the digits read so far in the current left-to-right pass"""
        out = []
        if s.num.entails_eq(i) and not s.num.entails_eq(s.mem[pos]):
            s.mem[pos], s.mem[val] = ZERO, ZERO
        if s.num.entails_eq(i - s.mem[pos]):
            s.mem[pos] = s.mem[pos] + 1
            s.mem[val] = s.mem[val] * 10 + x - 48
        return [s]
    v, a, n = mk_str(c, I, st, "s", elem)
    a.onread = onread
    st.num.add_ge(n - g)
    st.mem[pos] = ZERO
    st.mem[val] = ZERO
    I.ghosts = [g]
    cell = I.newcell(st, v, "s")
    for o in c.run(I, b, st, [Ref(cell)]):
        s0 = o[1]
        allok = f_and(f_eq(g - n), f_ge(n - 1))
        if o[0] == "panic":
            f = f_and(allok, f_le(Lin(I32MAX + 1), s0.mem[val]))
            c.prove(s0, f, "panics only when an all-digit string does not fit in i32 (%s)" % o[2][1], b.path)
            continue
        for s, okk in cases(s0, allok):
            if not okk:
                c.prove(s, f_eq(o[2] + 1), "to_int is -1 for the empty string and when a non-digit occurs", b.path)
            else:
                c.prove(s, f_eq(o[2] - s.mem[val]), "to_int is the decimal value of the digits", b.path)
                c.prove(s, f_eq(s.mem[pos] - n), "all digits are consumed", b.path, exact=False)


@ob("C09", "str_from_int")
def fromint(c):
    b = c.fn("smt_strings::str_from_int")
    I = c.interp(peel=12)
    st = St()
    x = I.intsym(st, "x", -2**31, I32MAX)
    # decimal expansion of x >= 0 produced by the integer formatter
    dl = I.intsym(st, "dec.len", 1, 10)

    def delem(I, s, i):
        return [(s, chsym(I, s, "dec[%r]" % (i,), 48, 57))]
    dec = SymArr("dec", None, delem)

    def tostr(I, s, a, call):
        out = []
        from stdmodels import peel
        for s1, v in peel(I, s, a[0]):
            if isinstance(v, Lin) and s1.num.entails_eq(v - x):
                for s2, neg in cases(s1, f_lt(x, ZERO)):
                    if neg:
                        m = SymArr("decneg", None, lambda I, s, i: [(s, chsym(I, s, "decneg[%r]" % (i,), 45, 57))])
                        out.append(("ret", s2, Seq((("e", Lin(45)), ("s", m, ZERO, I.intsym(s2, "decneg.len", 1, 10))))))
                    else:
                        out.append(("ret", s2, arr_seq(dec, dl)))
            else:
                raise Unsupported("to_string of another value")
        return out
    I.to_string_hook = tostr
    for o in c.run(I, b, st, [x]):
        if o[0] == "panic":
            c.no_panic(o, b.path)
            continue
        q = str_seq(I, o[2])
        for s, neg in cases(o[1], f_lt(x, ZERO)):
            if neg:
                c.prove(s, f_eq(q.length()), "from_int is empty for negative numbers", b.path)
                continue
            if all(g[0] == "e" for g in q.s):
                ds = [g[1] for g in q.s]
                val = ZERO
                f = [f_ge(Lin(len(ds) - 1))]
                for d in ds:
                    val = val * 10 + d - 48
                    f += [f_le(Lin(48), d), f_le(d, Lin(57))]
                f.append(f_eq(val - x))
                if len(ds) > 1:
                    f.append(f_ne(ds[0] - 48))
                c.prove(s, f_and(*f), "from_int(x) is the decimal representation of x", b.path)
                continue
            k = I.intsym(s, "k", 0, None)
            c.prove(s, f_eq(q.length() - dl), "from_int(x) has the digits of x (length)", b.path)
            for s1 in s.assume(f_lt(k, dl)):
                for s2, y in I.seq_index(s1, q, k):
                    for s3, z in I.arr_elem(s2, dec, k):
                        c.prove(s3, f_eq(y - z), "from_int(x) has the digits of x", b.path)
