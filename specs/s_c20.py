"""C20: CharSet operations are exact interval algebra."""
from common import *


def setup(c, *names):
    I = c.interp()
    I.symhooks[CS] = charset_hook
    st = St()
    vs = [charset_hook(I, st, None, n) for n in names]
    return I, st, vs


def fld(c, v):
    return cs_fields(c, v)


def pure_bool(c, fname, mk, spec_):
    """a function returning bool must equal the specification formula"""
    b = c.fn("character_sets::CharSet::" + fname)
    I, st, args, fs = mk(c)
    for o in c.run(I, b, st, args):
        if o[0] == "panic":
            c.no_panic(o, b.path)
            continue
        for s, r in cases(o[1], o[2]):
            c.prove(s, fs if r else f_not(fs), "%s returns %s only if %s" % (fname, r, spec_), b.path)


@ob("C20", "contains")
def contains(c):
    def mk(c):
        I, st, (a,) = setup(c, "self")
        x = I.intsym(st, "x", 0, 2**32 - 1)
        s, e = fld(c, a)
        return I, st, [ref(I, st, a), x], f_and(f_le(s, x), f_le(x, e))
    pure_bool(c, "contains", mk, "start <= x <= end")


@ob("C20", "covers")
def covers(c):
    def mk(c):
        I, st, (a, b) = setup(c, "self", "other")
        s, e = fld(c, a)
        t, g = fld(c, b)
        return I, st, [ref(I, st, a), ref(I, st, b)], f_and(f_le(s, t), f_le(g, e))
    pure_bool(c, "covers", mk, "other is a subset of self")


@ob("C20", "is_before_after")
def before(c):
    def mk1(c):
        I, st, (a,) = setup(c, "self")
        x = I.intsym(st, "x", 0, 2**32 - 1)
        s, e = fld(c, a)
        return I, st, [ref(I, st, a), x], f_lt(e, x)

    def mk2(c):
        I, st, (a,) = setup(c, "self")
        x = I.intsym(st, "x", 0, 2**32 - 1)
        s, e = fld(c, a)
        return I, st, [ref(I, st, a), x], f_lt(x, s)
    pure_bool(c, "is_before", mk1, "end < x")
    pure_bool(c, "is_after", mk2, "x < start")


@ob("C20", "shape_predicates")
def shape(c):
    def mk1(c):
        I, st, (a,) = setup(c, "self")
        s, e = fld(c, a)
        return I, st, [ref(I, st, a)], f_eq(s - e)

    def mk2(c):
        I, st, (a,) = setup(c, "self")
        s, e = fld(c, a)
        return I, st, [ref(I, st, a)], f_and(f_eq(s), f_eq(e - MAX))
    pure_bool(c, "is_singleton", mk1, "start = end")
    pure_bool(c, "is_alphabet", mk2, "the set is [0, MAX_CHAR]")


@ob("C20", "size_pick")
def size(c):
    b = c.fn("character_sets::CharSet::size")
    I, st, (a,) = setup(c, "self")
    s, e = fld(c, a)
    for o in c.run(I, b, st, [ref(I, st, a)]):
        if o[0] == "panic":
            c.no_panic(o, b.path)
        else:
            c.prove(o[1], f_eq(o[2] - (e - s + 1)), "size is the number of elements", b.path)
    b = c.fn("character_sets::CharSet::pick")
    I, st, (a,) = setup(c, "self")
    s, e = fld(c, a)
    for o in c.run(I, b, st, [ref(I, st, a)]):
        if o[0] == "panic":
            c.no_panic(o, b.path)
        else:
            c.prove(o[1], f_and(f_le(s, o[2]), f_le(o[2], e)), "pick returns a member", b.path)


@ob("C20", "constructors")
def cons(c):
    for name, args, lo, hi in (("singleton", ("x",), "x", "x"), ("range", ("x", "y"), "x", "y"), ("all_chars", (), None, None)):
        b = c.fn("character_sets::CharSet::" + name)
        I, st, _ = setup(c)
        vs = [I.intsym(st, n, 0, MAX) for n in args]
        if len(vs) == 2:
            st.num.add_ge(vs[1] - vs[0])
        want = (vs[0], vs[-1]) if vs else (ZERO, Lin(MAX))
        for o in c.run(I, b, st, vs):
            if o[0] == "panic":
                c.no_panic(o, b.path)
                continue
            s, e = fld(c, o[2])
            c.prove(o[1], f_and(f_eq(s - want[0]), f_eq(e - want[1])), "%s builds the set it names" % name, b.path)


def opt_set(c, o, member, empty, what, where, x):
    """result Option<CharSet>: Some(r) must have x in r <=> member ; None only if empty"""
    st, v = o[1], o[2]
    if isinstance(v, Agg) and v.var == 0:
        c.prove(st, empty, what + ": None only when it must be", where)
        return
    s, e = fld(c, v.f[0])
    c.prove(st, f_and(f_le(s, e), f_ge(s), f_le(e, Lin(MAX))), what + ": result is a valid interval", where)
    for s2, b in cases(st, f_and(f_le(s, x), f_le(x, e))):
        c.prove(s2, member if b else f_not(member), what + ": x in result iff x in the specified set", where)


@ob("C20", "inter")
def inter(c):
    b = c.fn("character_sets::CharSet::inter")
    I, st, (a, d) = setup(c, "self", "other")
    x = I.intsym(st, "x", 0, MAX)
    s, e = fld(c, a)
    t, g = fld(c, d)
    mem = f_and(f_le(s, x), f_le(x, e), f_le(t, x), f_le(x, g))
    for o in c.run(I, b, st, [ref(I, st, a), ref(I, st, d)]):
        if o[0] == "panic":
            c.no_panic(o, b.path)
        else:
            opt_set(c, o, mem, f_not(mem), "intersection", b.path, x)


@ob("C20", "union")
def union(c):
    b = c.fn("character_sets::CharSet::union")
    I, st, (a, d) = setup(c, "self", "other")
    x = I.intsym(st, "x", 0, MAX)
    s, e = fld(c, a)
    t, g = fld(c, d)
    mem = f_or(f_and(f_le(s, x), f_le(x, e)), f_and(f_le(t, x), f_le(x, g)))
    gap = f_or(f_le(e + 2, t), f_le(g + 2, s))
    for o in c.run(I, b, st, [ref(I, st, a), ref(I, st, d)]):
        if o[0] == "panic":
            c.no_panic(o, b.path)
        else:
            opt_set(c, o, mem, gap, "union", b.path, x)


@ob("C20", "partial_order")
def order(c):
    b = c.impl("std::cmp::PartialOrd", "partial_cmp", "character_sets::CharSet")
    I, st, (a, d) = setup(c, "self", "other")
    s, e = fld(c, a)
    t, g = fld(c, d)
    for o in c.run(I, b, st, [ref(I, st, a), ref(I, st, d)]):
        if o[0] == "panic":
            c.no_panic(o, b.path)
            continue
        for s1, v in I.agg(o[1], o[2]):
            if v.var == 0:
                c.prove(s1, f_and(f_or(f_ne(s - t), f_ne(e - g)), f_le(t, e), f_le(s, g)), "unordered only when distinct and overlapping", b.path)
            else:
                for s2, w in I.agg(s1, v.f[0]):
                    f = [f_lt(e, t), f_and(f_eq(s - t), f_eq(e - g)), f_lt(g, s)][w.var]
                    c.prove(s2, f, ["Less only when entirely before", "Equal only when equal", "Greater only when entirely after"][w.var], b.path)
    for m, vs in (("lt", {0}), ("le", {0, 1}), ("gt", {2}), ("ge", {1, 2})):
        for ty, targs, body in c.P.impls.get(("std::cmp::PartialOrd", m), ()):
            if mir.base_ty(ty).get("p") == CS:
                I, st, (a, d) = setup(c, "self", "other")
                s, e = fld(c, a)
                t, g = fld(c, d)
                f = f_or(*[[f_lt(e, t), f_and(f_eq(s - t), f_eq(e - g)), f_lt(g, s)][i] for i in vs])
                for o in c.run(I, body, st, [ref(I, st, a), ref(I, st, d)]):
                    if o[0] == "ret":
                        for s1, r in cases(o[1], o[2]):
                            c.prove(s1, f if r else f_not(f), "overridden comparison agrees with the order", body.path)
    b = c.impl("std::cmp::PartialEq", "eq", "character_sets::CharSet")
    I, st, (a, d) = setup(c, "self", "other")
    s, e = fld(c, a)
    t, g = fld(c, d)
    f = f_and(f_eq(s - t), f_eq(e - g))
    for o in c.run(I, b, st, [ref(I, st, a), ref(I, st, d)]):
        if o[0] == "panic":
            c.no_panic(o, b.path)
        else:
            for s1, r in cases(o[1], o[2]):
                c.prove(s1, f if r else f_not(f), "equality is equality of the end points", b.path)


@ob("C20", "inter_list")
def inter_list(c):
    b = c.fn("character_sets::CharSet::inter_list")
    I, st, _ = setup(c)
    x = I.intsym(st, "x", 0, MAX)
    n = I.intsym(st, "a.len", 0, IM.MAXLEN)
    # ghost: index of the first set that does not contain x (n when there is none)
    g = I.intsym(st, "g:first", 0, None)
    st.num.add_ge(n - g)

    def elem(I, st, i):
        v = charset_hook(I, st, None, "a[%r]" % (i,))
        s, e = fld(c, v)
        inside = f_and(f_le(s, x), f_le(x, e))
        out = []
        for s1, eq in cases(st, f_eq(i - g)):
            if eq:
                out += [(s2, v) for s2 in s1.assume(f_not(inside))]
            else:
                for s2, lt in cases(s1, f_lt(i, g)):
                    if lt:
                        out += [(s3, v) for s3 in s2.assume(inside)]
                    else:
                        out.append((s2, v))
        return out
    arr = SymArr("a", None, elem)
    I.ghosts = [g, x]
    I.kinds["x"] = "c"
    cell = ("s", "a")
    st.mem[cell] = arr_seq(arr, n)
    mem = f_eq(g - n)
    for o in c.run(I, b, st, [Ref(cell, (("r", ZERO, n),))]):
        if o[0] == "panic":
            c.no_panic(o, b.path)
        else:
            opt_set(c, o, mem, f_not(mem), "intersection of a list", b.path, x)
