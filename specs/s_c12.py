"""C12: merge_partitions returns the coarsest common refinement.

The classes of a CharPartition other than the complement are intervals, so the coarsest common refinement has as intervals the maximal runs of
characters that have the same class in p1 and the same class in p2 and are not in both complements.  For an arbitrary ghost character x with
run [L,R]: the result has the interval [L,R] when x is covered by p1 or p2, and no interval containing x otherwise."""
from part import *

FR, CWI, BAD = ("loop", "frontier"), ("loop", "cw"), ("loop", "bad")
PRE = Term("pre")


class Stream:
    """sorted disjoint intervals of unknown number read from left to right; the ones read and not yet matched with the output are in a queue"""

    def __init__(self, c, I, st, name):
        self.c, self.name = c, name
        self.n = I.intsym(st, name + ".len", 0, MAX + 1)
        self.pos, self.queue, self.last = ("loop", name + ".pos"), ("loop", name + ".queue"), ("loop", name + ".last")
        st.mem[self.pos] = ZERO
        st.mem[self.queue] = Agg("queue", 0, ())
        st.mem[self.last] = Agg("last", 0, (Lin(-1), Lin(-1)))
        self.w = I.intsym(st, name + ".witness?", 0, MAX + 1)
        self.arr = SymArr(name, None, self.elem)
        self.arr.onread = self.onread

    def value(self):
        return mk_agg(self.c.P, CP, {"list": arr_seq(self.arr, self.n), "comp_witness": self.w})

    def elem(self, I, st, i):
        l = st.mem[self.last]
        num = st.num
        if num.entails_ge(st.mem[self.pos] - 1) and num.entails_eq(i - st.mem[self.pos] + 1):
            return [(st, mk_charset(I, *l.f))]
        nm = "%s[%r]" % (self.name, i)
        a, b = I.intsym(st, nm + ".start", 0, MAX), I.intsym(st, nm + ".end", 0, MAX)
        I.kinds[nm + ".start"] = I.kinds[nm + ".end"] = "c"
        num.add_ge(b - a)
        if not num.entails_eq(i - st.mem[self.pos]):
            st.exact = False
        elif not num.add_ge(a - l.f[1] - 1):
            return []
        return [(st, mk_charset(I, a, b))]

    def onread(self, I, st, i, v):
        if st.num.entails_eq(i - st.mem[self.pos]):
            a, b = cs_fields(I, v)
            st.mem[self.pos] = st.mem[self.pos] + 1
            st.mem[self.last] = Agg("last", 0, (a, b))
            st.mem[self.queue] = Agg("queue", 0, st.mem[self.queue].f + (a, b))
        return [st]


def is_cp(v):
    return isinstance(v, Agg) and v.k == CP


def map_cp(v, f):
    if is_cp(v):
        return f(v)
    if isinstance(v, Agg):
        fs = [map_cp(x, f) for x in v.f]
        return v if all(a is b for a, b in zip(fs, v.f)) else Agg(v.k, v.var, fs)
    return v


def run_cond(f, heads, u, v):
    """[u,v] is the first maximal run of covered characters after f with equal classes; heads: first interval of each partition that ends after f"""
    fs = [f_lt(f, u), f_le(u, v)]
    fs += [f_or(f_le(u, s), f_le(u, f + 1)) for s, e in heads]
    fs.append(f_or(*[f_or(f_eq(u - s), f_and(f_eq(u - f - 1), f_le(s, u))) for s, e in heads]))
    fs += [f_or(f_and(f_le(s, u), f_le(v, e)), f_and(f_lt(u, s), f_lt(v, s))) for s, e in heads]
    fs.append(f_or(*[f_or(f_and(f_le(s, u), f_eq(v - e)), f_and(f_lt(u, s), f_eq(v - s + 1))) for s, e in heads]))
    return f_and(*fs) if heads else False


def merge_ob(c, **kw):
    b = c.fn("character_sets::merge_partitions")
    I = c.interp(**kw)
    I.symhooks[CS] = charset_hook
    st = St()
    P2 = [Stream(c, I, st, "p"), Stream(c, I, st, "q")]
    li = adt_fields(c.P, CP, ["list", "comp_witness"]).index("list")
    st.mem[FR], st.mem[CWI], st.mem[BAD] = Lin(-1), ZERO, ZERO

    def heads(st):
        hs = []
        for r in P2:
            q = st.mem[r.queue].f
            if q:
                hs.append((q[0], q[1]))
            elif st.truth(f_eq(st.mem[r.pos] - r.n)) is not True:
                return None
        return hs

    I.intsym(st, "pre.len", 1, MAX + 1)     # the number of intervals produced so far is not tracked
    def shape(I, st):
        r = []
        for q in P2:
            h = st.mem[q.queue].f
            r.append((st.num.entails_eq(st.mem[q.pos] - q.n), st.truth(f_le(h[0], st.mem[FR])) if h else None))
        return r
    I.shape_hook = shape

    def fold(I, st):
        def f(v):
            l = v.f[li]
            if not isinstance(l, Seq) or not l.s:
                return v
            segs = list(l.s)
            done = 0
            if segs[0][0] == "t" and segs[0][1] == PRE:
                done = 1
            if any(g[0] != "e" for g in segs[done:]) or len(segs) <= done:
                return v
            for g in segs[done:]:
                u, w = cs_fields(c, g[1])
                hs = heads(st)
                if hs is None or st.truth(run_cond(st.mem[FR], hs, u, w)) is not True:
                    st.mem[BAD] = ONE
                advance(st, u, w)
            fs = list(v.f)
            fs[li] = Seq((("t", PRE, sym("pre.len")),))
            return Agg(v.k, v.var, fs)
        for cell in [k for k in st.mem if k[0] not in ("s", "loop")]:
            v = st.mem[cell]
            if isinstance(v, Agg):
                nv = map_cp(v, f)
                if nv is not v:
                    st.mem[cell] = nv
        for r in P2:
            if st.num.entails_eq(st.mem[r.pos] - r.n) and not st.mem[r.queue].f:
                st.mem[r.last] = Agg("last", 0, (Lin(-1), Lin(-1)))

    def advance(st, u, w):
        """without forking"""
        t = st.truth(f_eq(u - st.mem[CWI]))
        if t is None:
            st.mem[BAD] = ONE
        elif t:
            st.mem[CWI] = w + 1
        st.mem[FR] = w
        for r in P2:
            q = st.mem[r.queue].f
            while q:
                t = st.truth(f_le(q[1], w))
                if t is None:
                    st.mem[BAD] = ONE
                if not t:
                    break
                q = q[2:]
            st.mem[r.queue] = Agg("queue", 0, q)

    def finish(o):
        st, v = o[1], o[2]
        if any(nm.endswith("witness?") for e in list(st.num.ge) + list(st.num.eq) for nm in e.syms()):
            st.add_taint("depends on an input witness")
        for s, v in I.agg(st, v):
            q, w = part_parts(c, v)
            segs = list(q.s)
            if segs and segs[0][0] == "t" and segs[0][1] == PRE:
                segs = segs[1:]
            c.prove(s, f_eq(s.mem[BAD]), "every pushed interval is the next maximal common run", b.path)
            if any(g[0] != "e" for g in segs):
                raise Unsupported("result list %r" % (q,))
            cur = [s]
            for g in segs:
                u, t = cs_fields(c, g[1])
                nxt = []
                for s in cur:
                    for s1, hs in need_heads(s):
                        c.prove(s1, run_cond(s1.mem[FR], hs, u, t), "each result interval is the next maximal run of characters with equal classes in p1 and in p2", b.path)
                        for s2, at in cases(s1, f_eq(u - s1.mem[CWI])):
                            if at:
                                s2.mem[CWI] = t + 1
                            s2.mem[FR] = t
                            nxt += pop(s2, P2, t)
                cur = nxt
            for s in cur:
                for s1, hs in need_heads(s):
                    c.prove(s1, not hs, "every covered character is in a result interval", b.path)
                    if not hs:
                        c.prove(s1, f_eq(w - s1.mem[CWI]), "the complement witness is the least character outside both partitions", b.path)

    def need_heads(s):
        """read further intervals until the next one of each partition is known"""
        out = [(s, [])]
        for r in P2:
            nxt = []
            for s1, hs in out:
                if s1.mem[r.queue].f:
                    nxt.append((s1, hs + [s1.mem[r.queue].f[:2]]))
                    continue
                for s2, more in cases(s1, f_lt(s1.mem[r.pos], r.n)):
                    if not more:
                        nxt.append((s2, hs))
                        continue
                    for s3, v in I.arr_elem(s2, r.arr, s2.mem[r.pos]):
                        nxt.append((s3, hs + [s3.mem[r.queue].f[:2]]))
            out = nxt
        return out

    def pop(s, rs, t):
        if not rs:
            return [s]
        r = rs[0]
        q = s.mem[r.queue].f
        if not q:
            return pop(s, rs[1:], t)
        out = []
        for s1, gone in cases(s, f_le(q[1], t)):
            if gone:
                s1.mem[r.queue] = Agg("queue", 0, q[2:])
                out += pop(s1, rs, t)
            else:
                out += pop(s1, rs[1:], t)
        return out
    I.rewrite = [fold]
    args = []
    for r in P2:
        cell = ("s", "arg" + r.name)
        st.mem[cell] = r.value()
        args.append(Ref(cell))
    for o in c.run(I, b, st, args):
        if o[0] == "panic":
            c.no_panic(o, b.path)
        else:
            finish(o)


@ob("C12", "merge_partitions")
def merge(c):
    merge_ob(c, peel=2)


@ob("C12", "merge_partitions_first")
def merge_first(c):
    merge_ob(c, peel=4, exact_only="search")


@ob("C12", "merge_partition_list")
def merge_list(c):
    """the list is folded with merge_partitions (commutative, associative, neutral element the empty partition: consequences of its contract above)"""
    b = c.fn("character_sets::merge_partition_list")
    m = c.fn("character_sets::merge_partitions")
    I = c.interp(peel=3)
    st = St()
    n = I.intsym(st, "n", 0, IM.MAXLEN)
    arr = SymArr("ps", None, lambda I, s, i: [(s, Term("part", lin(i), lin(i) + 1))])

    def span(I, st, r):
        out = []
        todo = [(st, r)]
        while todo:
            s, x = todo.pop()
            if isinstance(x, Ref):
                todo += I.load(s, x.c, x.p)
                continue
            if isinstance(x, Term) and x.op == "part":
                out.append((s, x.a))
            elif is_cp(x):
                q, w = part_parts(c, x)
                if s.truth(f_eq(q.length())) is True and s.truth(f_eq(w)) is True:
                    out.append((s, None))
                else:
                    raise Unsupported("merge_partitions of %r" % (x,))
            else:
                raise Unsupported("merge_partitions of %r" % (x,))
        return out

    def merged(I, st, a, call):
        I.used_contracts.add(m.path)
        out = []
        for s, x in span(I, st, a[0]):
            for s1, y in span(I, s, a[1]):
                if x is None or y is None:
                    z = x or y
                    if z is None:
                        out += [("ret", s2, v) for s2, v in I.load(s1, a[0].c, a[0].p)]
                    else:
                        out.append(("ret", s1, Term("part", *z)))
                elif s1.truth(f_eq(x[1] - y[0])) is True:
                    out.append(("ret", s1, Term("part", x[0], y[1])))
                elif s1.truth(f_eq(y[1] - x[0])) is True:
                    out.append(("ret", s1, Term("part", y[0], x[1])))
                else:
                    out.append(("ret", s1, Term("parts", x, y)))
        return out
    I.ghosts = [n]
    I.contracts[m.path] = merged
    cell = ("s", "ps")
    st.mem[cell] = arr_seq(arr, n)
    it = Agg("it:Slice", 0, (Ref(cell), ZERO, n))
    for o in c.run(I, b, st, [it]):
        s, v = o[1], o[2]
        if o[0] == "panic":
            c.no_panic(o, b.path)
        elif isinstance(v, Term) and v.op == "part":
            c.prove(s, f_and(f_eq(v.a[0]), f_eq(v.a[1] - n)), "the result merges every partition of the list", b.path)
        elif isinstance(v, Term):
            c.prove(s, False, "the result merges every partition of the list", b.path)
        else:
            q, w = part_parts(c, v)
            c.prove(s, f_and(f_eq(q.length()), f_eq(w), f_eq(n)), "the result is the empty partition only for the empty list", b.path)
