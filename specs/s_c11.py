"""C11: CharPartition queries agree with the set-theoretic meaning of the partition."""
from part import *

M_ = "character_sets::CharPartition::"


def setup(c, probes=(), name="p", witness=True, **kw):
    I = c.interp(**kw)
    I.symhooks[CS] = charset_hook
    st = St()
    xs = []
    for nm in probes:
        xs.append(I.intsym(st, nm, 0, MAX))
        I.kinds[nm] = "c"
    I.ghosts = list(I.ghosts) + xs
    p = Part(c, I, st, name, xs, witness=witness)
    if not witness:
        p.w = I.intsym(st, "p.witness?", 0, MAX + 1)
    return I, st, p, xs


def pre(p, st, extra=()):
    """states in which the witness boundary and the neighbours of every probe are known; with the list of inside flags"""
    out = [(s, ()) for s in (p.init_w(st) if p.W is not None else [st])]
    for k in range(len(p.probes)):
        out = [(s2, fl + (b,)) for s, fl in out for s2, b in p.locate(s, k)]
    return out


def runw(c, I, b, st, args):
    """run with an unconstrained complement witness; a path that looks at it is not decided here"""
    outs = c.run(I, b, st, args)
    for o in outs:
        if any("p.witness?" in e.syms() for e in list(o[1].num.ge) + list(getattr(o[1].num, "eq", ()))):
            o[1].add_taint("depends on the complement witness")
    return outs


@ob("C11", "class_of_char")
def class_of_char(c):
    class_of_char_ob(c, peel=3)


def class_of_char_ob(c, **kw):
    b = c.fn(M_ + "class_of_char")
    I, st, p, (x,) = setup(c, ["x"], witness=False, **kw)
    g = p.probes[0][1]
    for s0, (inside,) in pre(p, st):
        for o in runw(c, I, b, s0, [ref(I, s0, p.value()), x]):
            if o[0] == "panic":
                c.no_panic(o, b.path)
                continue
            for s, v in I.agg(o[1], o[2]):
                if variant(c.P, v) == "Interval":
                    c.prove(s, f_eq(v.f[0] - (g - 1)) if inside else False, "class_of_char returns Interval(i) only for the interval that contains the character", b.path)
                else:
                    c.prove(s, not inside, "class_of_char returns Complement only outside every interval", b.path)


def cover_ob(c, fname, decide, **kw):
    b = c.fn(M_ + fname)
    I, st, p, (x,) = setup(c, ["x"], witness=False, **dict({"peel": 3}, **kw))
    y = I.intsym(st, "y", 0, MAX)
    I.kinds["y"] = "c"
    st.num.add_ge(y - x)
    g = p.probes[0][1]
    for s0, (ina,) in pre(p, st):
        l = []
        if ina:
            l = [(s, r, False) for s1, u, w in p.at(s0, g - 1) for s, r in cases(s1, f_le(y, w))]
        else:
            for s1, more in cases(s0, f_lt(g, p.n)):
                if more:
                    l += [(s, False, r) for s2, u, w in p.at(s1, g) for s, r in cases(s2, f_lt(y, u))]
                else:
                    l.append((s1, False, True))
        for s1, cov, dis in l:
            for o in runw(c, I, b, s1, [ref(I, s1, p.value()), ref(I, s1, mk_charset(I, x, y))]):
                if o[0] == "panic":
                    c.no_panic(o, b.path)
                else:
                    decide(c, I, o[1], o[2], g - 1, cov, dis, b)


@ob("C11", "interval_cover")
def interval_cover(c):
    def decide(c, I, st, v, i, cov, dis, b):
        for s, v in I.agg(st, v):
            k = variant(c.P, v)
            if k == "CoveredBy":
                c.prove(s, f_eq(v.f[0] - i) if cov else False, "CoveredBy(i) only when the set lies inside interval i", b.path)
            elif k == "DisjointFromAll":
                c.prove(s, dis, "DisjointFromAll only when the set meets no interval", b.path)
            else:
                c.prove(s, not cov and not dis, "Overlaps only when the set is neither covered nor disjoint", b.path)
    cover_ob(c, "interval_cover", decide)


@ob("C11", "class_of_set")
def class_of_set(c):
    def decide(c, I, st, v, i, cov, dis, b):
        for s, r in I.agg(st, v):
            if r.var == 1:
                for s, e in I.agg(s, r.f[0]):
                    c.prove(s, not cov and not dis and variant(c.P, e) == "AmbiguousCharSet", "class_of_set fails with AmbiguousCharSet only when the set is neither covered nor disjoint", b.path)
                continue
            for s, v in I.agg(s, r.f[0]):
                if variant(c.P, v) == "Interval":
                    c.prove(s, f_eq(v.f[0] - i) if cov else False, "Interval(i) only when the set lies inside interval i", b.path)
                else:
                    c.prove(s, dis, "Complement only when the set meets no interval", b.path)
    cover_ob(c, "class_of_set", decide)


@ob("C11", "good_char_set")
def good_char_set(c):
    def decide(c, I, st, v, i, cov, dis, b):
        for s, r in cases(st, v):
            c.prove(s, r == (cov or dis), "good_char_set holds exactly when the set is covered or disjoint", b.path)
    cover_ob(c, "good_char_set", decide)


# ---- simple accessors
def simple(c, fname, args, check, probes=(), pre_=None, minlen=0):
    b = c.fn(M_ + fname)
    I = c.interp(peel=3)
    I.symhooks[CS] = charset_hook
    st = St()
    p = Part(c, I, st, "p", [], minlen=minlen)
    for s0 in p.init_w(st):
        av = args(I, s0)
        if pre_ and not pre_(I, s0, p, av):
            continue
        for o in c.run(I, b, s0, [ref(I, s0, p.value())] + av):
            if o[0] == "panic":
                c.no_panic(o, b.path)
            else:
                check(c, I, o[1], o[2], p, av, b)


@ob("C11", "len_is_empty")
def len_(c):
    simple(c, "len", lambda I, s: [], lambda c, I, s, v, p, a, b: c.prove(s, f_eq(v - p.n), "len is the number of intervals", b.path))

    def chk(c, I, st, v, p, a, b):
        for s, r in cases(st, v):
            c.prove(s, f_eq(p.n) if r else f_ne(p.n), "is_empty holds exactly without intervals", b.path)
    simple(c, "is_empty", lambda I, s: [], chk)


def idx(I, s):
    return [I.intsym(s, "i", 0, 2**64 - 1)]


def inrange(I, s, p, a):
    return s.num.add_ge(p.n - 1 - a[0])


@ob("C11", "accessors")
def accessors(c):
    for f, k in (("start", 0), ("end", 1)):
        def chk(c, I, st, v, p, a, b):
            for s, inn in cases(st, f_lt(a[0], p.n)):
                if not inn:
                    c.prove(s, f_eq(v - (MAX + 1)), "%s is MAX_CHAR+1 beyond the last interval" % f, b.path)
                else:
                    for s1, x, y in p.at(s, a[0]):
                        c.prove(s1, f_eq(v - (x, y)[k]), "%s(i) is the %s of interval i" % (f, f), b.path)
        simple(c, f, idx, chk)

    def chk(c, I, st, v, p, a, b):
        for s, inn in cases(st, f_lt(a[0], p.n)):
            for s1, v1 in I.agg(s, v):
                if not inn:
                    c.prove(s1, f_and(f_eq(v1.f[0] - (MAX + 1)), f_eq(v1.f[1] - (MAX + 1))), "get is MAX_CHAR+1 beyond the last interval", b.path)
                else:
                    for s2, x, y in p.at(s1, a[0]):
                        c.prove(s2, f_and(f_eq(v1.f[0] - x), f_eq(v1.f[1] - y)), "get(i) is interval i", b.path)
    simple(c, "get", idx, chk)

    def chk(c, I, st, v, p, a, b):
        for s1, v1 in I.agg(st, v):
            for s2, x, y in p.at(s1, a[0]):
                s, e = cs_fields(c, v1)
                c.prove(s2, f_and(f_eq(s - x), f_eq(e - y)), "interval(i) is interval i", b.path)
    simple(c, "interval", idx, chk, pre_=inrange)

    def chk(c, I, st, v, p, a, b):
        for s2, x, y in p.at(st, a[0]):
            c.prove(s2, f_and(f_le(x, v), f_le(v, y)), "pick(i) lies in interval i", b.path)
    simple(c, "pick", idx, chk, pre_=inrange)


def compl_empty(p):
    return f_lt(Lin(MAX), p.w)


@ob("C11", "complement")
def complement(c):
    def chk(c, I, st, v, p, a, b):
        for s, r in cases(st, v):
            c.prove(s, compl_empty(p) if r else f_not(compl_empty(p)), "empty_complement holds exactly when every character is in an interval", b.path)
    simple(c, "empty_complement", lambda I, s: [], chk)
    # membership of the picked character, through a probe equal to the result
    b = c.fn(M_ + "pick_complement")
    I, st, p, (x,) = setup(c, ["x"], peel=3)
    st.num.add_ge(Lin(MAX) - p.w)
    for s0, (inside,) in pre(p, st):
        for o in c.run(I, b, s0, [ref(I, s0, p.value())]):
            if o[0] == "panic":
                c.no_panic(o, b.path)
                continue
            for s, same in cases(o[1], f_eq(o[2] - x)):
                if same:
                    c.prove(s, not inside, "pick_complement is outside every interval", b.path)
            c.prove(o[1], f_le(o[2], Lin(MAX)), "pick_complement is a character when the complementary class is not empty", b.path)


@ob("C11", "classes")
def classes(c):
    def chk(c, I, st, v, p, a, b):
        for s, e in cases(st, compl_empty(p)):
            c.prove(s, f_eq(v - p.n - (0 if e else 1)), "num_classes counts the non-empty classes", b.path)
    simple(c, "num_classes", lambda I, s: [], chk)
    for kind in ("Interval", "Complement"):
        def mk(I, s):
            i = I.intsym(s, "i", 0, 2**64 - 1)
            return [enum(c.P, CID, kind, *([i] if kind == "Interval" else []))]

        def chk(c, I, st, v, p, a, b):
            f = f_lt(a[0].f[0], p.n) if kind == "Interval" else f_not(compl_empty(p))
            for s, r in cases(st, v):
                c.prove(s, f if r else f_not(f), "valid_class_id holds exactly for the non-empty classes", b.path)
        simple(c, "valid_class_id", mk, chk)
    # pick_in_class
    b = c.fn(M_ + "pick_in_class")
    I, st, p, (x,) = setup(c, ["x"], peel=3)
    i = I.intsym(st, "i", 0, MAX)
    for s0, (inside,) in pre(p, st):
        s1 = s0.fork()
        if s1.num.add_ge(p.n - 1 - i):
            for o in c.run(I, b, s1, [ref(I, s1, p.value()), enum(c.P, CID, "Interval", i)]):
                if o[0] == "panic":
                    c.no_panic(o, b.path)
                else:
                    for s2, u, w in p.at(o[1], i):
                        c.prove(s2, f_and(f_le(u, o[2]), f_le(o[2], w)), "pick_in_class(Interval(i)) lies in interval i", b.path)
        if s0.num.add_ge(Lin(MAX) - p.w):
            for o in c.run(I, b, s0, [ref(I, s0, p.value()), enum(c.P, CID, "Complement")]):
                if o[0] == "panic":
                    c.no_panic(o, b.path)
                else:
                    for s, same in cases(o[1], f_eq(o[2] - x)):
                        if same:
                            c.prove(s, not inside, "pick_in_class(Complement) is outside every interval", b.path)
                    c.prove(o[1], f_le(o[2], Lin(MAX)), "pick_in_class(Complement) is a character", b.path)


# ---- constructors
def same_list(c, I, st, q, p, extra, what, where):
    """q is the list of p followed by the intervals of extra"""
    if not c.prove(st, f_eq(q.length() - p.n - len(extra)), what + " (number of intervals)", where):
        return
    k = I.intsym(st, "k!", 0, None)
    for s in st.fork().assume(f_lt(k, p.n)):
        for s1, v in I.seq_index(s, q, k):
            s_, e_ = cs_fields(c, v)
            for s2, x, y in p.at(s1, k):
                c.prove(s2, f_and(f_eq(s_ - x), f_eq(e_ - y)), what, where)
    for i, (a, b) in enumerate(extra):
        for s1, v in I.seq_index(st.fork(), q, p.n + i):
            s_, e_ = cs_fields(c, v)
            c.prove(s1, f_and(f_eq(s_ - a), f_eq(e_ - b)), what, where)


@ob("C11", "new_from_set")
def new_from_set(c):
    b = c.fn(M_ + "new")
    I = c.interp()
    for o in c.run(I, b, St(), []):
        if o[0] == "panic":
            c.no_panic(o, b.path)
            continue
        q, w = part_parts(c, o[2])
        c.prove(o[1], f_and(f_eq(q.length()), f_eq(w)), "new has no interval and complement witness 0", b.path)
    b = c.fn(M_ + "from_set")
    I = c.interp()
    I.symhooks[CS] = charset_hook
    st = St()
    a = charset_hook(I, st, None, "c")
    x, y = cs_fields(c, a)
    for o in c.run(I, b, st, [ref(I, st, a)]):
        if o[0] == "panic":
            c.no_panic(o, b.path)
            continue
        q, w = part_parts(c, o[2])
        c.prove(o[1], f_eq(q.length() - 1), "from_set has one interval", b.path)
        for s, v in I.seq_index(o[1].fork(), q, ZERO):
            u, t = cs_fields(c, v)
            c.prove(s, f_and(f_eq(u - x), f_eq(t - y)), "from_set contains the given set", b.path)
        for s, z in cases(o[1], f_eq(x)):
            c.prove(s, f_eq(w - y - 1) if z else f_eq(w), "the complement witness of from_set is the least character outside the set", b.path)


@ob("C11", "push")
def push(c):
    b = c.fn(M_ + "push")
    I = c.interp(peel=3)
    I.symhooks[CS] = charset_hook
    st = St()
    p = Part(c, I, st, "p", [])
    x, y = I.intsym(st, "start", 0, MAX), I.intsym(st, "end", 0, MAX)
    I.kinds["start"] = I.kinds["end"] = "c"
    st.num.add_ge(y - x)
    for s0 in p.init_w(st):
        for s1, some_ in cases(s0, f_ge(p.n - 1)):
            for s2, u, t in (p.at(s1, p.n - 1) if some_ else [(s1, None, Lin(-1))]):
                if not s2.num.add_ge(x - t - 1):
                    continue
                r = ref(I, s2, p.value())
                for o in c.run(I, b, s2, [r, x, y]):
                    if o[0] == "panic":
                        c.no_panic(o, b.path)
                        continue
                    for s3, v in I.rload(o[1], r):
                        q, w = part_parts(c, v)
                        same_list(c, I, s3.fork(), q, p, [(x, y)], "push appends the interval", b.path)
                        for s4, at in cases(s3, f_eq(x - p.w)):
                            c.prove(s4, f_eq(w - y - 1) if at else f_eq(w - p.w), "push keeps the complement witness the least character outside the intervals", b.path)


POS, PS, PE, CW = ("loop", "pos"), ("loop", "ps"), ("loop", "pe"), ("loop", "cw")
PS2, PE2 = ("loop", "ps2"), ("loop", "pe2")


class Sorted:
    """input of try_from_iter after sorting by start; K is the first position whose interval starts inside its predecessor (n when there is none).
    history variables of the left-to-right pass: number of intervals read, the last one, least character outside the ones read"""

    def __init__(self, c, I, st, n):
        self.c, self.I, self.n = c, I, n
        self.K = I.intsym(st, "g:K", 0, MAX + 2)
        st.num.add_ge(n - self.K)
        for cell, v in ((POS, ZERO), (PS, Lin(-1)), (PE, Lin(-1)), (CW, ZERO), (PS2, Lin(-1)), (PE2, Lin(-1))):
            st.mem[cell] = v
        self.arr = SymArr("sorted", None, self.elem)
        self.arr.onread = self.onread
        I.ghosts = list(I.ghosts) + [self.K]

    def elem(self, I, st, i):
        out = []
        num = st.num
        if num.entails_eq(i - st.mem[POS] + 1) and num.entails_ge(st.mem[POS] - 1):
            return [(st, mk_charset(I, st.mem[PS], st.mem[PE]))]
        if num.entails_eq(i - st.mem[POS] + 2) and num.entails_ge(st.mem[POS] - 2):
            return [(st, mk_charset(I, st.mem[PS2], st.mem[PE2]))]
        nm = "sorted[%r]" % (i,)
        a, b = I.intsym(st, nm + ".start", 0, MAX), I.intsym(st, nm + ".end", 0, MAX)
        I.kinds[nm + ".start"] = I.kinds[nm + ".end"] = "c"
        num.add_ge(b - a)
        v = mk_charset(I, a, b)
        for s, nxt in cases(st, f_eq(i - st.mem[POS])):
            if not nxt:
                out.append((s, v))      # random access: start and end are left open
                s.exact = False
                continue
            for s1, first in cases(s, f_eq(i)):
                if first:
                    if s1.num.add_ge(self.K - 1):
                        out.append((s1, v))
                    continue
                for s2, dis in cases(s1, f_lt(i, self.K)):
                    if dis:
                        if s2.num.add_ge(a - s2.mem[PE] - 1):
                            out.append((s2, v))
                        continue
                    for s3, at in cases(s2, f_eq(i - self.K)):
                        if s3.num.add_ge(a - s3.mem[PS]) and (not at or s3.num.add_ge(s3.mem[PE] - a)):
                            out.append((s3, v))
        return out

    def onread(self, I, st, i, v):
        if not st.num.entails_eq(i - st.mem[POS]):
            return [st]
        a, b = cs_fields(I, v)
        out = []
        for s, touch in cases(st, f_eq(a - s_cw(st))):
            for s1, good in cases(s, f_lt(i, self.K)):
                if touch and good:
                    s1.mem[CW] = b + 1
                s1.mem[PS2], s1.mem[PE2] = s1.mem[PS], s1.mem[PE]
                s1.mem[POS], s1.mem[PS], s1.mem[PE] = s1.mem[POS] + 1, a, b
                out.append(s1)
        return out


def s_cw(st):
    return st.mem[CW]


def key_is_start(c, I, st, fn, m, call):
    """the sort orders by start: decided from the comparison closure on two arbitrary intervals"""
    s = St()
    u, v = charset_hook(I, s, None, "u?"), charset_hook(I, s, None, "v?")
    us, vs = cs_fields(c, u)[0], cs_fields(c, v)[0]
    for nm in ("u?.start", "u?.end", "v?.start", "v?.end"):
        I.kinds[nm] = "c"
    for cell, x in st.mem.items():
        s.mem.setdefault(cell, x)
    ru, rv = ref(I, s, u), ref(I, s, v)
    if m.endswith("key"):
        for o in I.call_value(s, fn, [ru], call["fr"]):
            if o[0] != "ret":
                return False
            k = o[2]
            if isinstance(k, Agg) and k.k == "tuple" and k.f:
                k = k.f[0]
            if not (isinstance(k, Lin) and o[1].num.entails_eq(k - us)):
                return False
        return True
    if m in ("sort_by", "sort_unstable_by"):
        for o in I.call_value(s, fn, [ru, rv], call["fr"]):
            if o[0] != "ret":
                return False
            for s1, r in I.agg(o[1], o[2]):
                k = variant(c.P, r) if r.k in c.P.adts else {0: "Less", 1: "Equal", 2: "Greater"}[r.var]
                f = f_le(us, vs) if k == "Less" else f_le(vs, us) if k == "Greater" else f_eq(us - vs)
                if s1.truth(f) is not True:
                    return False
        return True
    return False


def try_from(c, fname, wrap):
    b = c.fn(M_ + fname)
    I = c.interp(peel=4)
    I.symhooks[CS] = charset_hook
    st = St()
    n = I.intsym(st, "a.len", 0, IM.MAXLEN)
    so = Sorted(c, I, st, n)

    def raw_elem(I, s, i):
        v = charset_hook(I, s, None, "a[%r]" % (i,))
        for nm in (".start", ".end"):
            I.kinds["a[%r]%s" % (i, nm)] = "c"
        return [(s, v)]
    raw = SymArr("a", None, raw_elem)
    sorts = []

    def sort_hook(I, s, r, q, fn, m, call):
        whole = len(q.s) == 1 and q.s[0][0] == "s" and q.s[0][1] is raw and q.s[0][2] == ZERO and s.num.entails_eq(q.s[0][3] - n)
        out = []
        for s1, few in cases(s, f_le(n, ONE)):
            if few and whole:
                for s2 in I.rstore(s1, r, arr_seq(so.arr, n)):
                    out.append(("ret", s2, Agg("tuple", 0, ())))
            elif whole and key_is_start(c, I, s1, fn, m, call):
                sorts.append(m)
                for s2 in I.rstore(s1, r, arr_seq(so.arr, n)):
                    out.append(("ret", s2, Agg("tuple", 0, ())))
            else:
                return None
        return out
    I.sort_hook = sort_hook
    for o in c.run(I, b, st, [wrap(I, st, raw, n)]):
        if o[0] == "panic":
            c.no_panic(o, b.path)
            continue
        for s, r in I.agg(o[1], o[2]):
            reads = s.reads.get("a", ())
            if r.var == 1:
                if sorts or not reads:
                    c.prove(s, f_lt(so.K, n), "an error is returned only when two sets meet", b.path)
                else:
                    # unsorted input: with no further element, some pair that was read must meet
                    for s1 in s.assume(f_le(n, Lin(len(reads)))):
                        fs = [f_and(f_le(cs_fields(c, u)[0], cs_fields(c, v)[1]), f_le(cs_fields(c, v)[0], cs_fields(c, u)[1]), f_ne(i - j))
                              for x, (i, u) in enumerate(reads) for j, v in reads[:x]]
                        c.prove(s1, f_or(*fs) if fs else False, "an error is returned only when two sets meet", b.path)
                for s1, e in I.agg(s, r.f[0]):
                    c.prove(s1, variant(c.P, e) == "NonDisjointCharSets", "overlapping sets are reported as NonDisjointCharSets", b.path)
                continue
            q, w = part_parts(c, r.f[0])
            if not c.prove(s, f_eq(q.length() - n), "the partition has all the given sets", b.path):
                continue
            if not all(g[0] == "s" and g[1] is so.arr for g in q.s):
                # not the sorted list: consecutive intervals must be increasing and disjoint
                k = I.intsym(s, "k!", 0, None)
                for s1 in s.fork().assume(f_lt(k + 1, n)):
                    for s2, u in I.seq_index(s1, q, k):
                        for s3, v in I.seq_index(s2, q, k + 1):
                            c.prove(s3, f_lt(cs_fields(c, u)[1], cs_fields(c, v)[0]), "the intervals of the partition are sorted and disjoint", b.path)
                continue
            c.prove(s, f_eq(so.K - n), "success only on pairwise disjoint sets", b.path)
            for s1, all_ in cases(s, f_eq(s.mem[POS] - n)):
                if all_:
                    c.prove(s1, f_eq(w - s1.mem[CW]), "the complement witness is the least character outside the sets", b.path)
                else:
                    c.undec.append("complement witness of try_from_iter: not all sets were read in order")


@ob("C11", "try_from_iter")
def try_from_iter(c):
    def wrap(I, st, raw, n):
        return Agg("it:Own", 0, (Ref(I.newcell(st, arr_seq(raw, n), "into")), ZERO, n))
    try_from(c, "try_from_iter", wrap)


@ob("C11", "try_from_list")
def try_from_list(c):
    def wrap(I, st, raw, n):
        cell = ("s", "a")
        st.mem[cell] = arr_seq(raw, n)
        return Ref(cell, (("r", ZERO, n),))
    try_from(c, "try_from_list", wrap)


# ---- iterators
def drive(c, I, st, itv, nxt):
    """outcomes ('ret', state, (position, item)) of stepping an iterator any number of times"""
    import stdmodels as SM
    cell = SM.iter_cell(I, st, itv, "drv")
    cnt = SM.iter_cell(I, st, ZERO, "dcnt")

    def iteration(s):
        outs = []
        for o in I.call_body(s, nxt, [Ref(cell)], 0):
            if o[0] != "ret":
                outs.append(o)
                continue
            for s1, v in I.agg(o[1], o[2]):
                outs.append(("ret", s1.fork(), Agg("tuple", 0, (s1.mem[cnt], v))))
                if v.var == 1:
                    s1.mem[cnt] = s1.mem[cnt] + 1
                    outs.append(("back", s1, None))
        return outs
    return I.loop(st, iteration, lambda s: SM.gc(I, s), "iterator")


def iter_ob(c, fname, check):
    b = c.fn(M_ + fname)
    rt = c.P.ret_ty(b) if hasattr(c.P, "ret_ty") else None
    I = c.interp(peel=3)
    I.symhooks[CS] = charset_hook
    st = St()
    p = Part(c, I, st, "p", [])
    for s0 in p.init_w(st):
        for o in c.run(I, b, s0, [ref(I, s0, p.value())]):
            if o[0] == "panic":
                c.no_panic(o, b.path)
                continue
            if not isinstance(o[2], Agg) or not o[2].k.startswith("crate::"):
                raise Skip("%s returns a library iterator" % fname)
            nx = c.impl("std::iter::Iterator", "next", o[2].k.split("::")[-1])
            for o2 in drive(c, I, o[1], o[2], nx):
                c.paths += 1
                if o2[0] == "panic":
                    c.no_panic(o2, nx.path)
                elif o2[0] == "unk":
                    c.undec.append(str(o2[2]))
                else:
                    for s, low in cases(o2[1], f_lt(o2[2].f[0], p.n)):
                        pos, it = o2[2].f
                        if low:
                            check(c, I, s, p, pos, it, "i", nx)
                            continue
                        for s1, comp in cases(s, f_and(f_eq(pos - p.n), f_not(compl_empty(p)))):
                            if comp:
                                check(c, I, s1, p, pos, it, "c", nx)
                            else:
                                c.prove(s1, it.var == 0, "%s stops after the last non-empty class" % fname, nx.path)
            c.harvest(I)


@ob("C11", "class_ids")
def class_ids(c):
    def chk(c, I, s, p, pos, it, kind, b):
        if not c.prove(s, it.var == 1, "class_ids lists every non-empty class", b.path) or it.var == 0:
            return
        for s1, v in I.agg(s, it.f[0]):
            if kind == "i":
                c.prove(s1, f_eq(v.f[0] - pos) if variant(c.P, v) == "Interval" else False, "class_ids lists every interval once", b.path)
            else:
                c.prove(s1, variant(c.P, v) == "Complement", "class_ids lists the complementary class", b.path)
    iter_ob(c, "class_ids", chk)


@ob("C11", "picks")
def picks(c):
    def chk(c, I, s, p, pos, it, kind, b):
        if not c.prove(s, it.var == 1, "picks lists every non-empty class", b.path) or it.var == 0:
            return
        v = it.f[0]
        if kind == "i":
            for s1, x, y in p.at(s, pos):
                c.prove(s1, f_and(f_le(x, v), f_le(v, y)), "every pick lies in its interval", b.path)
        else:
            c.prove(s, f_eq(v - p.w), "the last pick is the complement witness", b.path)
    iter_ob(c, "picks", chk)


@ob("C11", "class_of_char_deep")
def class_of_char_deep(c):
    class_of_char_ob(c, peel=5, exact_only="search")


@ob("C11", "good_char_set_deep")
def good_deep(c):
    def decide(c, I, st, v, i, cov, dis, b):
        for s, r in cases(st, v):
            c.prove(s, r == (cov or dis), "good_char_set holds exactly when the set is covered or disjoint", b.path)
    cover_ob(c, "good_char_set", decide, peel=5, exact_only="search")
