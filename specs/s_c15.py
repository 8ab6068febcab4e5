"""C15: LoopRange arithmetic = arithmetic on sets of naturals."""
from common import *
U32 = 2**32 - 1


def lr_sym(c, I, st, name, inf):
    a = I.P.adts.get(LR)
    if not a or len(a["v"]) != 1 or len(a["v"][0]["f"]) != 2:
        raise Skip("LoopRange representation changed")
    i = I.intsym(st, name + ".lo", 0, U32)
    if inf:
        return Agg(LR, 0, [i, NONE]), i, None
    j = I.intsym(st, name + ".hi", 0, U32)
    st.num.add_ge(j - i)
    return Agg(LR, 0, [i, some(j)]), i, j


def lr_cases(I, st, v):
    """[(st, lo, hi|None)]"""
    out = []
    for s, a in I.agg(st, v):
        for s2, o in I.agg(s, a.f[1]):
            out.append((s2, a.f[0], None if o.var == 0 else o.f[0]))
    return out


def lr_mem(x, lo, hi):
    return f_and(f_le(lo, x), f_le(x, hi) if hi is not None else True)


def lr_eq(c, st, got, want, what, where):
    glo, ghi = got
    wlo, whi = want
    if (ghi is None) != (whi is None):
        c.prove(st, False, what + ": finiteness", where)
        return
    f = f_eq(glo - wlo)
    if ghi is not None:
        f = f_and(f, f_eq(ghi - whi))
    c.prove(st, f, what, where)


def overflow_panic(c, o, where, f):
    """a panic is allowed exactly when the documented overflow condition f holds"""
    c.prove(o[1], f, "panics only when a bound of the result does not fit in 32 bits (%s)" % o[2][1], where)


def two(c, fname, spec, over):
    """binary operation: spec(a,b,c,d) -> (lo,hi)"""
    b = c.fn("loop_ranges::LoopRange::" + fname)
    for i1 in (False, True):
        for i2 in (False, True):
            I = c.interp()
            st = St()
            v, lo, hi = lr_sym(c, I, st, "r", i1)
            w, lo2, hi2 = lr_sym(c, I, st, "s", i2)
            for o in c.run(I, b, st, [ref(I, st, v), ref(I, st, w)]):
                if o[0] == "panic":
                    overflow_panic(c, o, b.path, over(lo, hi, lo2, hi2))
                    continue
                spec(I, o[1], o[2], lo, hi, lo2, hi2, b.path)


@ob("C15", "constructors")
def ctors(c):
    for nm, args, want in (("finite", "ij", lambda i, j: (i, j)), ("infinite", "i", lambda i: (i, None)), ("point", "i", lambda i: (i, i)),
                           ("opt", "", lambda: (ZERO, ONE)), ("star", "", lambda: (ZERO, None)), ("plus", "", lambda: (ONE, None))):
        b = c.P.find("loop_ranges::LoopRange::" + nm)
        if b is None:
            if nm in ("finite", "infinite"):
                raise Missing("LoopRange::" + nm)
            continue
        I = c.interp()
        st = St()
        vs = [I.intsym(st, n, 0, U32) for n in args]
        if len(vs) == 2:
            st.num.add_ge(vs[1] - vs[0])
        for o in c.run(I, b, st, vs):
            if o[0] == "panic":
                c.no_panic(o, b.path)
                continue
            for s, lo, hi in lr_cases(I, o[1], o[2]):
                lr_eq(c, s, (lo, hi), want(*vs), nm + " builds the range it names", b.path)


@ob("C15", "queries")
def queries(c):
    qs = {"is_finite": lambda a, b: b is not None, "is_infinite": lambda a, b: b is None,
          "is_point": lambda a, b: False if b is None else f_eq(a - b),
          "is_zero": lambda a, b: False if b is None else f_and(f_eq(a), f_eq(b)),
          "is_one": lambda a, b: False if b is None else f_and(f_eq(a - 1), f_eq(b - 1)),
          "is_all": lambda a, b: f_eq(a) if b is None else False}
    for nm, f in qs.items():
        b = c.fn("loop_ranges::LoopRange::" + nm)
        for inf in (False, True):
            I = c.interp()
            st = St()
            v, lo, hi = lr_sym(c, I, st, "r", inf)
            w = f(lo, hi)
            for o in c.run(I, b, st, [ref(I, st, v)]):
                if o[0] == "panic":
                    c.no_panic(o, b.path)
                    continue
                for s, r in cases(o[1], o[2]):
                    c.prove(s, w if r else f_not(w), "%s answers %s exactly" % (nm, r), b.path)
    b = c.fn("loop_ranges::LoopRange::start")
    for inf in (False, True):
        I = c.interp()
        st = St()
        v, lo, hi = lr_sym(c, I, st, "r", inf)
        for o in c.run(I, b, st, [ref(I, st, v)]):
            if o[0] == "panic":
                c.no_panic(o, b.path)
            else:
                c.prove(o[1], f_eq(o[2] - lo), "start is the least element", b.path)


@ob("C15", "contains")
def contains(c):
    b = c.fn("loop_ranges::LoopRange::contains")
    for inf in (False, True):
        I = c.interp()
        st = St()
        v, lo, hi = lr_sym(c, I, st, "r", inf)
        x = I.intsym(st, "x", 0, U32)
        m = lr_mem(x, lo, hi)
        for o in c.run(I, b, st, [ref(I, st, v), x]):
            if o[0] == "panic":
                c.no_panic(o, b.path)
                continue
            for s, r in cases(o[1], o[2]):
                c.prove(s, m if r else f_not(m), "contains(x) is %s only if so" % r, b.path)


@ob("C15", "includes")
def includes(c):
    def spec(I, st, r, a, b, a2, b2, where):
        inc = f_and(f_le(a, a2), True if b is None else (False if b2 is None else f_le(b2, b)))
        for s, t in cases(st, r):
            c.prove(s, inc if t else f_not(inc), "includes is %s only if so" % t, where)
    two(c, "includes", spec, lambda *a: False)


@ob("C15", "add")
def add(c):
    def spec(I, st, r, a, b, a2, b2, where):
        for s, lo, hi in lr_cases(I, st, r):
            lr_eq(c, s, (lo, hi), (a + a2, None if b is None or b2 is None else b + b2), "add is the set of sums", where)

    def over(a, b, a2, b2):
        return f_or(f_lt(Lin(U32), a + a2), f_lt(Lin(U32), b + b2) if b is not None and b2 is not None else False)
    two(c, "add", spec, over)
    b_ = c.fn("loop_ranges::LoopRange::add_point")
    for inf in (False, True):
        I = c.interp()
        st = St()
        v, lo, hi = lr_sym(c, I, st, "r", inf)
        x = I.intsym(st, "x", 0, U32)
        for o in c.run(I, b_, st, [ref(I, st, v), x]):
            if o[0] == "panic":
                overflow_panic(c, o, b_.path, over(lo, hi, x, x))
                continue
            for s, l, h in lr_cases(I, o[1], o[2]):
                lr_eq(c, s, (l, h), (lo + x, None if hi is None else hi + x), "add_point adds x to every element", b_.path)


@ob("C15", "scale")
def scale(c):
    b = c.fn("loop_ranges::LoopRange::scale")
    for inf in (False, True):
        I = c.interp()
        st = St()
        v, lo, hi = lr_sym(c, I, st, "r", inf)
        k = I.intsym(st, "k", 0, U32)
        for o in c.run(I, b, st, [ref(I, st, v), k]):
            if o[0] == "panic":
                overflow_panic(c, o, b.path, f_or(f_lt(Lin(U32), lo * k), f_lt(Lin(U32), hi * k) if hi is not None else False))
                continue
            for s, l, h in lr_cases(I, o[1], o[2]):
                for s2, z in cases(s, f_eq(k)):
                    if z:
                        lr_eq(c, s2, (l, h), (ZERO, ZERO), "the 0-fold sum is {0}", b.path)
                    else:
                        lr_eq(c, s2, (l, h), (lo * k, None if hi is None else hi * k), "scale(k) is the k-fold sum", b.path)


@ob("C15", "shift")
def shift(c):
    b = c.fn("loop_ranges::LoopRange::shift")
    for inf in (False, True):
        I = c.interp()
        st = St()
        v, lo, hi = lr_sym(c, I, st, "r", inf)
        for o in c.run(I, b, st, [ref(I, st, v)]):
            if o[0] == "panic":
                c.no_panic(o, b.path)
                continue
            for s, l, h in lr_cases(I, o[1], o[2]):
                if (h is None) != (hi is None):
                    c.prove(s, False, "shift keeps finiteness", b.path)
                    continue
                f = f_or(f_and(f_eq(lo), f_eq(l)), f_and(f_ge(lo - 1), f_eq(l - lo + 1)))
                c.prove(s, f, "shift: least element", b.path)
                if hi is not None:
                    c.prove(s, f_or(f_and(f_eq(hi), f_eq(h)), f_and(f_ge(hi - 1), f_eq(h - hi + 1))), "shift: greatest element", b.path)


def over_mul(a, b, a2, b2):
    return f_or(f_lt(Lin(U32), a * a2), f_lt(Lin(U32), b * b2) if b is not None and b2 is not None else False)


@ob("C15", "mul")
def mul(c):
    def spec(I, st, r, a, b, a2, b2, where):
        zero = f_or(f_eq(b) if b is not None else False, f_eq(b2) if b2 is not None else False)
        for s, lo, hi in lr_cases(I, st, r):
            for s2, z in cases(s, zero):
                if z:
                    lr_eq(c, s2, (lo, hi), (ZERO, ZERO), "product with {0} is {0}", where)
                else:
                    lr_eq(c, s2, (lo, hi), (a * a2, None if b is None or b2 is None else b * b2), "mul is the interval hull of the products", where)
    two(c, "mul", spec, over_mul)


@ob("C15", "mul_contains_products")
def mul2(c):
    b_ = c.fn("loop_ranges::LoopRange::mul")
    for i1 in (False, True):
        for i2 in (False, True):
            I = c.interp()
            st = St()
            v, a, b = lr_sym(c, I, st, "r", i1)
            w, a2, b2 = lr_sym(c, I, st, "s", i2)
            x = I.intsym(st, "x", 0, None)
            y = I.intsym(st, "y", 0, None)
            ss = [s for s0 in st.assume(lr_mem(x, a, b)) for s in s0.assume(lr_mem(y, a2, b2))]
            for s0 in ss:
                s0.num.add_ge(a * y)
                if b is not None:
                    s0.num.add_ge(b * y)
                for o in c.run(I, b_, s0, [ref(I, s0, v), ref(I, s0, w)]):
                    if o[0] != "ret":
                        continue
                    for s, lo, hi in lr_cases(I, o[1], o[2]):
                        c.prove(s, f_le(lo, x * y), "mul contains every product (lower bound)", b_.path)
                        if hi is not None:
                            c.prove(s, f_le(x * y, hi), "mul contains every product (upper bound)", b_.path)


@ob("C15", "right_mul_is_exact")
def exact(c):
    """true only if no y in [c,d) leaves a gap between y*[a,b] and (y+1)*[a,b];
       false only if such a gap exists (at y = c)."""
    b_ = c.fn("loop_ranges::LoopRange::right_mul_is_exact")
    for i1 in (False, True):
        for i2 in (False, True):
            I = c.interp()
            st = St()
            v, a, b = lr_sym(c, I, st, "r", i1)
            w, cc, d = lr_sym(c, I, st, "s", i2)
            for o in c.run(I, b_, st, [ref(I, st, v), ref(I, st, w)]):
                if o[0] == "panic":
                    c.no_panic(o, b_.path, "right_mul_is_exact never panics")
                    continue
                for s, t in cases(o[1], o[2]):
                    if t:
                        s = s.fork()
                        y = I.intsym(s, "y", 0, None)
                        pre = f_and(f_le(cc, y), f_lt(y, d) if d is not None else True)
                        for s1 in s.assume(pre):
                            if b is None:
                                c.prove(s1, f_or(f_ge(y - 1), f_le(a, ONE)), "true only if consecutive multiples leave no gap", b_.path)
                            else:
                                # (y+1)*a <= y*b + 1 ; [a,b] = {0} is trivially exact
                                c.prove(s1, f_or(f_le((y + 1) * a, y * b + 1), f_eq(b)), "true only if consecutive multiples leave no gap", b_.path)
                    else:
                        more = f_lt(cc, d) if d is not None else True
                        if b is None:
                            gap = f_and(f_eq(cc), f_ge(a - 2))
                        else:
                            gap = f_ge((cc + 1) * a - cc * b - 2)
                        c.prove(s, f_and(more, gap), "false only if the union of the multiples has a gap", b_.path)
