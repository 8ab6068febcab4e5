"""C06: search/substring/replace functions of the theory of strings."""
from common import *
from occ import *

S = "smt_strings::"


def too_long(c, o, n, where):
    """a panic is documented only for results longer than i32::MAX"""
    c.prove(o[1], f_lt(Lin(I32MAX), n), "panics only when the result is longer than i32::MAX (%s)" % o[2][1], where)


@ob("C06", "str_len")
def ln(c):
    b = c.fn(S + "str_len")
    I = c.interp()
    st = St()
    v, a, n = mk_str(c, I, st, "s")
    for o in c.run(I, b, st, [ref(I, st, v)]):
        if o[0] == "panic":
            c.no_panic(o, b.path)
        else:
            c.prove(o[1], f_eq(o[2] - n), "str_len is the length", b.path)


@ob("C06", "str_concat")
def concat(c):
    b = c.fn(S + "str_concat")
    I = c.interp()
    st = St()
    v, a, n = mk_str(c, I, st, "s")
    w, a2, n2 = mk_str(c, I, st, "t")
    for o in c.run(I, b, st, [ref(I, st, v), ref(I, st, w)]):
        if o[0] == "panic":
            too_long(c, o, n + n2, b.path)
        else:
            same_seq(c, I, o[1], str_seq(I, o[2]), cat(sl(a, ZERO, n), sl(a2, ZERO, n2)), "s ++ t", b.path)


@ob("C06", "str_at")
def at(c):
    b = c.fn(S + "str_at")
    I = c.interp()
    st = St()
    v, a, n = mk_str(c, I, st, "s")
    i = I.intsym(st, "i", -2**31, I32MAX)
    for o in c.run(I, b, st, [ref(I, st, v), i]):
        if o[0] == "panic":
            c.no_panic(o, b.path)
            continue
        for s, inn in cases(o[1], f_and(f_ge(i), f_lt(i, n))):
            same_seq(c, I, s, str_seq(I, o[2]), sl(a, i, i + 1) if inn else Seq(), "at(s,i) is s[i] inside s, empty elsewhere", b.path)


@ob("C06", "str_substr")
def substr(c):
    b = c.fn(S + "str_substr")
    I = c.interp()
    st = St()
    v, a, n = mk_str(c, I, st, "s")
    i = I.intsym(st, "i", -2**31, I32MAX)
    m = I.intsym(st, "n", -2**31, I32MAX)
    for o in c.run(I, b, st, [ref(I, st, v), i, m]):
        if o[0] == "panic":
            c.no_panic(o, b.path)
            continue
        for s, inn in cases(o[1], f_and(f_ge(i), f_lt(i, n), f_ge(m - 1))):
            q = str_seq(I, o[2])
            if not inn:
                c.prove(s, f_eq(q.length()), "substr is empty when the start is outside s or n <= 0", b.path)
                continue
            for s1, short in cases(s, f_le(i + m, n)):
                same_seq(c, I, s1, q, sl(a, i, i + m if short else n), "substr is s[i..min(i+n,|s|)]", b.path)


@ob("C06", "str_prefixof")
def prefix(c):
    pre_suf(c, "str_prefixof", lambda o: ZERO)


@ob("C06", "str_suffixof")
def suffix(c):
    pre_suf(c, "str_suffixof", lambda o: o.ns - o.np)


def pre_suf(c, name, pos):
    b = c.fn(S + name)
    I = c.interp(peel=3)
    st0 = St()
    oc = Occ(c, I, st0)
    for st, fits in cases(st0, f_le(oc.np, oc.ns)):
        oc.start = pos(oc) if fits else ZERO
        for st in oc.init(st):
            for o in c.run(I, b, st, [ref(I, st, oc.vp), ref(I, st, oc.vs)]):
                if o[0] == "panic":
                    c.no_panic(o, b.path)
                    continue
                want = f_and(f_le(oc.np, oc.ns), f_eq(o[1].mem[F] - oc.start))
                for s, r in cases(o[1], o[2]):
                    c.prove(s, want if r else f_not(want), "%s holds exactly when the characters match" % name, b.path)


def search_ob(c, name, args, start, check, multi=False, peel=3, setup=None, maxlen=I32MAX, exact_only=False):
    b = c.fn(S + name)
    I = c.interp(peel=peel, exact_only=exact_only)
    st = St()
    oc = Occ(c, I, st, multi=multi, maxlen=maxlen)
    states = [st]
    if start:
        states = start(I, st, oc)
    if setup:
        setup(I, st, oc)
    for s0 in states:
        if isinstance(s0, tuple):
            s0, oc.start = s0
        for s in oc.init(s0):
            for o in c.run(I, b, s, args(I, s, oc)):
                check(c, I, oc, o, b)


@ob("C06", "str_contains")
def contains(c):
    def chk(c, I, oc, o, b):
        if o[0] == "panic":
            return c.no_panic(o, b.path)
        for s, r in cases(o[1], o[2]):
            f = oc.found(s)
            c.prove(s, f if r else f_not(f), "contains holds exactly when the pattern occurs", b.path)
    search_ob(c, "str_contains", lambda I, s, oc: [ref(I, s, oc.vs), ref(I, s, oc.vp)], None, chk)


@ob("C06", "str_indexof")
def indexof(c):
    def start(I, st, oc):
        i = I.intsym(st, "i", -2**31, I32MAX)
        I.tmpl_extra = ["i"]
        return [(s, i if inn else ZERO) for s, inn in cases(st, f_and(f_ge(i), f_le(i, oc.ns)))]

    def chk(c, I, oc, o, b):
        if o[0] == "panic":
            return c.no_panic(o, b.path)
        i = sym("i")
        for s, inn in cases(o[1], f_and(f_ge(i), f_le(i, oc.ns), oc.found(o[1]))):
            c.prove(s, f_eq(o[2] - s.mem[F]) if inn else f_eq(o[2] + 1), "indexof is the least position at or after i where the pattern occurs, -1 otherwise", b.path)
    search_ob(c, "str_indexof", lambda I, s, oc: [ref(I, s, oc.vs), ref(I, s, oc.vp), sym("i")], start, chk)


@ob("C06", "str_replace")
def replace(c):
    def setup(I, st, oc):
        oc.vr, oc.ar, oc.nr = mk_str(c, I, st, "r")

    def chk(c, I, oc, o, b):
        for s, fd in cases(o[1], oc.found(o[1])):
            f = s.mem[F]
            want = cat(sl(oc.as_, ZERO, f), sl(oc.ar, ZERO, oc.nr), sl(oc.as_, f + oc.np, oc.ns)) if fd else sl(oc.as_, ZERO, oc.ns)
            if o[0] == "panic":
                too_long(c, ("panic", s, o[2]), want.length(), b.path)
            else:
                same_seq(c, I, s, str_seq(I, o[2]), want, "replace substitutes the first occurrence only", b.path)
    search_ob(c, "str_replace", lambda I, s, oc: [ref(I, s, oc.vs), ref(I, s, oc.vp), ref(I, s, oc.vr)], None, chk, setup=setup)


LL = ("loop", "L")


def fold_out(oc, I, full):
    """rewrite the output built so far to a prefix of the ideal output FULL, using the ghost scans since the last fold and the current one"""
    def fold_val(st, v, h):
        if isinstance(v, Seq):
            return fold_seq(st, v, h)
        if isinstance(v, Agg) and v.k in ("tuple", SS):
            fs = [fold_val(st, x, h) for x in v.f]
            return v if all(a is b for a, b in zip(fs, v.f)) else Agg(v.k, v.var, fs)
        return v

    def hook(I, st):
        h = st.mem[HIST].f
        st.mem[HIST] = Agg("histr", 0, ())
        for cell in [k for k in st.mem if k[0] not in ("s", "loop")]:
            v = st.mem[cell]
            nv = fold_val(st, v, h)
            if nv is not v:
                st.mem[cell] = nv
        st.mem[HIST] = Agg("histr", 0, ())

    def fold_seq(st, v, h):
        segs = list(v.s)
        if not all(g[0] == "s" or (g[0] == "e" and oc.lookup(g[1])) for g in segs):
            return v
        t, rest = ZERO, segs
        if segs and segs[0][0] == "s" and segs[0][1] is full:
            t, rest = segs[0][3], segs[1:]
        if any(g[0] == "s" and g[1] not in (oc.as_, oc.ar) for g in rest):
            return v
        scans = [h[i:i + 3] for i in range(0, len(h), 3)]
        while True:
            cur = not scans
            fr, f, L = (st.mem[FROM], st.mem[F], st.mem[LL]) if cur else scans[0]
            if not rest:
                break
            g = rest[0]
            if g[0] == "e":
                o = oc.lookup(g[1])
                g = ("s", oc.as_ if o[0] == "s" else None, o[1], o[1] + 1)
            if st.truth(f_eq(g[2] - g[3])) is True:
                rest = rest[1:]
                continue
            if g[1] is oc.as_ and st.truth(f_and(f_eq(g[2] - (fr + t - L)), f_ge(t - L), f_or(f_le(g[3], f), f_lt(oc.ns, f + oc.np)), f_le(g[3], oc.ns))) is True:
                t = t + (g[3] - g[2])
                rest = rest[1:]
                continue
            if g[1] is oc.ar and st.truth(f_and(f_eq(t - L - (f - fr)), f_le(f + oc.np, oc.ns), f_eq(g[2]), f_eq(g[3] - oc.nr))) is True:
                t = t + oc.nr
                rest = rest[1:]
                if cur:
                    oc.advance(st)
                else:
                    scans = scans[1:]
                continue
            if not cur and st.truth(f_eq(t - L - (f - fr) - oc.nr)) is True:
                scans = scans[1:]
                continue
            break
        new = Seq(((("s", full, ZERO, t),) if t != ZERO or len(rest) != len(segs) else ()) + tuple(rest))
        return v if new == v else new
    hook.seq = fold_seq
    return hook


HIST = ("loop", "hist")


def search_contract(oc):
    """contract of matcher::naive_search (obligation naive_search): first occurrence at or after k"""
    def con(I, st, args, call):
        if len(args) != 3:
            return None
        out = []
        for s, rp in I.as_slice(st.fork(), args[0]):
            for s1, rs in I.as_slice(s, args[1]):
                (qp,), (qs,) = I.rload(s1, rp), I.rload(s1, rs)
                qp, qs, k = qp[1], qs[1], args[2]
                if qp != sl(oc.ap, ZERO, oc.np) or len(qs.s) != 1 or qs.s[0][1] is not oc.as_ or not s1.num.entails_eq(qs.s[0][3] - oc.ns):
                    return None
                a = qs.s[0][2]
                k = k + a
                adt = "crate::matcher::SearchResult"
                names = [v["n"] for v in I.P.adts[adt]["v"]]
                work = []
                for s2, low in cases(s1, f_lt(k, s1.mem[FROM])):
                    if low:
                        return None
                    for s3, here in cases(s2, f_or(f_le(k, s2.mem[F]), f_not(oc.found(s2)))):
                        if here:
                            work.append(s3)
                            continue
                        if not oc.multi:
                            return None
                        for s4, nx in cases(s3, f_le(s3.mem[F] + oc.np, k)):
                            if nx:
                                oc.advance(s4)
                                if s4.truth(f_le(k, s4.mem[FROM])) is not True:
                                    return None
                                work.append(s4)
                                continue
                            # k lies inside the last occurrence: there may be an overlapping one
                            x = s4.fork()
                            o = I.intsym(x, fresh("g:o"), 0, None)
                            if x.num.add_ge(o - k) and x.num.add_ge(x.mem[F] + oc.np - 1 - o) and x.num.add_ge(oc.ns - oc.np - o):
                                out.append(("ret", x, Agg(adt, names.index("Found"), (o - a, o + oc.np - a))))
                            oc.advance(s4)
                            work.append(s4)
                for s1 in work:
                  for s2, fd in cases(s1, f_and(oc.found(s1), f_le(k, oc.ns))):
                    f = s2.mem[F]
                    if fd:
                        out.append(("ret", s2, Agg(adt, names.index("Found"), (f - a, f + oc.np - a))))
                    else:
                        out.append(("ret", s2, Agg(adt, names.index("NotFound"), ())))
        return out
    return con


@ob("C06", "naive_search")
def nsearch(c):
    b = c.fn("matcher::naive_search", public=False)
    I = c.interp(peel=3)
    st = St()
    oc = Occ(c, I, st)
    oc.start = I.intsym(st, "i", 0, I32MAX)
    I.tmpl_extra = ["i"]
    adt = "crate::matcher::SearchResult"
    names = [v["n"] for v in c.P.adts[adt]["v"]]
    for s in oc.init(st):
        if not s.num.add_ge(oc.ns - oc.start):
            continue
        for o in c.run(I, b, s, [Ref(I.newcell(s, sl(oc.ap, ZERO, oc.np), "pat"), (("r", ZERO, oc.np),)), Ref(I.newcell(s, sl(oc.as_, ZERO, oc.ns), "str"), (("r", ZERO, oc.ns),)), oc.start]):
            if o[0] == "panic":
                c.no_panic(o, b.path)
                continue
            for s1, v in I.agg(o[1], o[2]):
                f = oc.found(s1)
                if names[v.var] == "Found":
                    c.prove(s1, f_and(f, f_eq(v.f[0] - s1.mem[F]), f_eq(v.f[1] - s1.mem[F] - oc.np)), "naive_search finds the first occurrence", b.path)
                else:
                    c.prove(s1, f_not(f), "naive_search fails only when there is no occurrence", b.path)


@ob("C06", "str_replace_all_first")
def replace_all_first(c):
    replace_all_ob(c, True, 2)


@ob("C06", "str_replace_all")
def replace_all(c):
    replace_all_ob(c, False, 4)


def replace_all_ob(c, exact, peel):
    def setup(I, st, oc):
        oc.vr, oc.ar, oc.nr = mk_str(c, I, st, "r")
        oc.full = SymArr("FULL", None, lambda I, s, i: [(s, chsym(I, s, "FULL[%r]" % (i,)))])
        st.mem[LL] = ZERO
        st.mem[HIST] = Agg("hist", 0, ())

        def adv(s):
            L0 = s.mem[LL]
            s.mem[LL] = L0 + (s.mem[F] - s.mem[FROM]) + oc.nr
            h = s.mem[HIST]
            s.mem[HIST] = Agg(h.k, 0, h.f + (s.mem[FROM], s.mem[F], L0))
        oc.on_advance = adv
        oc.hook = fold_out(oc, I, oc.full)
        I.rewrite = list(I.rewrite) + [oc.hook]
        ns = c.P.find("matcher::naive_search")
        if ns:
            I.contracts[ns.path] = search_contract(oc)

    def chk(c, I, oc, o, b):
        for s, e in cases(o[1], f_eq(oc.np)):
            if e:
                if o[0] == "panic":
                    c.no_panic(("panic", s, o[2]), b.path)
                else:
                    same_seq(c, I, s, str_seq(I, o[2]), sl(oc.as_, ZERO, oc.ns), "replace_all with an empty pattern is the identity", b.path)
                continue
            q = str_seq(I, o[2]) if o[0] == "ret" else None
            if q is not None and s.mem[HIST].k != "hist":
                q = oc.hook.seq(s, q, s.mem[HIST].f)
            for s1, fd in cases(s, oc.found(s)):
                L, fr = s1.mem[LL], s1.mem[FROM]
                if fd and o[0] == "ret" and s1.mem[HIST].k == "hist":
                    # the scan stopped early: the ideal output has another replacement; what follows is left open
                    def expand(s1, depth):
                        for s2, more in cases(s1, oc.found(s1)):
                            if not more:
                                same_seq(c, I, s2, q, cat(ideal(oc, s2.mem[HIST].f), sl(oc.as_, s2.mem[FROM], oc.ns)), "replace_all continues to the last occurrence", b.path)
                            elif depth:
                                oc.advance(s2)
                                expand(s2, depth - 1)
                    expand(s1, 3)
                    continue
                if o[0] == "panic":
                    if fd:
                        s1.exact = False
                    too_long(c, ("panic", s1, o[2]), L + oc.ns - fr, b.path)
                    continue
                if s1.mem[HIST].k == "hist":
                    same_seq(c, I, s1, q, cat(ideal(oc, s1.mem[HIST].f), sl(oc.as_, fr, oc.ns)), "replace_all replaces the left-to-right non-overlapping occurrences", b.path)
                    continue
                if fd:
                    c.prove(s1, False, "replace_all continues to the last occurrence", b.path, exact=False)
                    continue
                n1 = oc.hook.seq(s1, q, s1.mem[HIST].f)
                good = all(g[0] == "s" and g[1] is oc.full for g in n1.s)
                c.prove(s1, f_eq(n1.length() - L - (oc.ns - fr)) if good else False, "replace_all output is the ideal output", b.path, exact=False)
    search_ob(c, "str_replace_all", lambda I, s, oc: [ref(I, s, oc.vs), ref(I, s, oc.vp), ref(I, s, oc.vr)], None, chk, multi=True, peel=peel, setup=setup, exact_only="search" if exact else False)


def ideal(oc, h):
    parts = []
    for a, f in zip(h[::3], h[1::3]):
        parts += [sl(oc.as_, a, f), sl(oc.ar, ZERO, oc.nr)]
    return cat(*parts)
