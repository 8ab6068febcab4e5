"""C07: hash-consing, identity of terms, complement, independence of the history."""
from recon import *
import maps
P07 = "C07"
RMP = "regular_expressions::ReManager::"
ST = "crate::store::"


def hfeed(c, I, st, b, v):
    """what a value feeds to a hasher"""
    h = ref(I, st, Seq(()), "hasher")
    out = []
    for o in c.run(I, b, st, [v, h]):
        if o[0] != "ret":
            c.no_panic(o, b.path)
            continue
        out += [(s, q) for s, q in I.rload(o[1], h)]
    return out


def same_feed(c, R, st, p, q):
    if len(p.s) != len(q.s):
        return False
    f = True
    for x, y in zip(p.s, q.s):
        x, y = x[1], y[1]
        if isinstance(x, Lin) and isinstance(y, Lin):
            f = f_and(f, f_eq(x - y))
        elif x is True or x is False or isinstance(x, tuple):
            f = f_and(f, f_iff(x, y))
        elif x != y:
            return False
    return f


def key_ob(name, ty, mk, want):
    """Eq of a key type is structural (children by identity), and equal keys feed the same to a hasher"""
    def f(c):
        R = Re(c)
        for tag, a, b_ in mk(R):
            st0 = R.st
            eq = c.impl("std::cmp::PartialEq", "eq", ty)
            ha = c.impl("std::hash::Hash", "hash", ty)
            ra, rb = (x if isinstance(x, Ref) and not isinstance(x, Agg) else ref(R.I, st0, x) for x in (a, b_))
            for o in c.run(R.I, eq, st0.fork(), [ra, rb]):
                if o[0] != "ret":
                    c.no_panic(o, eq.path)
                    continue
                for s, e in cases(o[1], o[2]):
                    for s1, x in R.I.rload(s, ra):
                        for s2, y in R.I.rload(s1, rb):
                            w = want(R, s2, x, y)
                            c.prove(s2, w if e else f_not(w), "%s: equal exactly when they are the same construction (%s)" % (name, tag), eq.path)
                            if not e:
                                continue
                            for s3, p in hfeed(c, R.I, s2, ha, ra):
                                for s4, q in hfeed(c, R.I, s3, ha, rb):
                                    c.prove(s4, same_feed(c, R, s4, p, q), "%s: equal keys have the same hash (%s)" % (name, tag), ha.path)
    ob(P07, name)(f)


def same_id(R, st, x, y):
    return f_eq(R.W.id(st, x.c) - R.W.id(st, y.c))


def same_ast(R, st, x, y):
    W = R.W
    (x,), (y,) = ([v for s, v in R.I.agg(st, z)] for z in (x, y))
    if x.var != y.var:
        return False
    f = True
    for p, q in zip(x.f, y.f):
        f = f_and(f, same_part(R, st, p, q))
    return f


def same_part(R, st, p, q):
    W = R.W
    if isinstance(p, Ref) and p.c in st.mem and isinstance(st.mem[p.c], Agg) and st.mem[p.c].k == RE:
        return same_id(R, st, p, q)
    if isinstance(p, Agg) and p.k == CS:
        (a, b), (c, d) = cs_fields(R.I, p), cs_fields(R.I, q)
        return f_and(f_eq(a - c), f_eq(b - d))
    if isinstance(p, Agg) and p.k == LR:
        try:
            (a, b), (c, d) = range_parts(R.I, st, p), range_parts(R.I, st, q)
        except NeedSplit as e:
            raise Unsupported("loop range not split")
        return f_and(f_eq(a - c), (b is None) == (d is None) if b is None or d is None else f_eq(b - d))
    if isinstance(p, Ref):
        p, q = R.I.rload(st, p)[0][1], R.I.rload(st, q)[0][1]
    if isinstance(p, Seq):
        P, Q = [g[1] for g in p.s], [g[1] for g in q.s]
        if len(P) != len(Q):
            return False
        f = True
        for u, v in zip(P, Q):
            f = f_and(f, same_part(R, st, u, v))
        return f
    if isinstance(p, SymE) or isinstance(p, Agg):
        (x,), (y,) = ([v for s, v in R.I.agg(st, z)] for z in (p, q))
        if x.var != y.var:
            return False
        f = True
        for u, v in zip(x.f, y.f):
            f = f_and(f, same_part(R, st, u, v))
        return f
    if isinstance(p, Lin):
        return f_eq(p - q)
    raise Unsupported("component %r" % (p,))


def asts(R, n):
    """one AST of every shape: (tag, value)"""
    I, W, st = R.I, R.W, R.st
    mk = lambda v, *a: Agg(BRL, W.vi[v], a)
    box = lambda *a: ref(I, st, Seq([("e", x) for x in a]), "list")
    r = lambda k: R.re("%s%d" % (n, k))
    yield "Empty", mk("Empty")
    yield "Epsilon", mk("Epsilon")
    yield "Range", mk("Range", charset_hook(I, st, None, n + "S"))
    yield "Concat", mk("Concat", r(0), r(1))
    lo = I.intsym(st, n + "lo", 0, 2 ** 32 - 1)
    hi = I.intsym(st, n + "hi", 0, 2 ** 32 - 1)
    st.num.add_ge(hi - lo)
    st.num.add_ge(hi - 2)
    yield "Loop", mk("Loop", r(0), mk_range(I, lo, hi))
    yield "Loop*", mk("Loop", r(0), mk_range(I, lo, None))
    yield "Complement", mk("Complement", r(0))
    for v in ("Union", "Inter"):
        for k in (2, 3):
            yield "%s%d" % (v, k), mk(v, box(*[r(i) for i in range(k)]))


def ast_pairs(R):
    xs, ys = list(asts(R, "a")), list(asts(R, "b"))
    for (n, x) in xs:
        for (m, y) in ys:
            yield n + "/" + m, x, y


key_ob("key-eq-hash", "BaseRegLan", ast_pairs, same_ast)


def re_pairs(R):
    yield "RE", R.re("a"), R.re("b")


@ob(P07, "term-eq")
def o_eq(c):
    R = Re(c)
    a, b_ = R.re("a"), R.re("b")
    eq = c.impl("std::cmp::PartialEq", "eq", RE)
    ha = c.impl("std::hash::Hash", "hash", RE)
    same = same_id(R, R.st, a, b_)
    for o in c.run(R.I, eq, R.st.fork(), [a, b_]):
        if o[0] == "ret":
            c.prove(o[1], f_iff(o[2], same), "terms are equal exactly when they are the same object", eq.path)
        else:
            c.no_panic(o, eq.path)
    for s in R.st.fork().assume(same):
        for s3, p in hfeed(c, R.I, s, ha, a):
            for s4, q in hfeed(c, R.I, s3, ha, b_):
                c.prove(s4, same_feed(c, R, s4, p, q), "equal terms have the same hash", ha.path)
    cm = c.impl("std::cmp::Ord", "cmp", RE)
    for o in c.run(R.I, cm, R.st.fork(), [a, b_]):
        if o[0] == "ret":
            for s, v in R.I.agg(o[1], o[2]):
                c.prove(s, f_iff(v.var == 1, same), "the order is equal exactly on the same term", cm.path)
        else:
            c.no_panic(o, cm.path)


def cids(R):
    CI = "crate::character_sets::ClassId"
    I = R.I
    out = []
    for n in ("a", "b"):
        out.append([("Interval", Agg(CI, 0, (I.intsym(R.st, n + "i", 0, MAX),))), ("Complement", Agg(CI, 1, ()))])
    return out


def dkeys(R):
    P = R.c.P
    d = P.adts.get(RX + "DerivKey")
    if d is None or len(d["v"][0]["f"]) != 2:
        raise Skip("DerivKey changed")
    xs, ys = cids(R)
    for n, x in xs:
        for m, y in ys:
            yield n + "/" + m, Agg(RX + "DerivKey", 0, (R.re("a"), x)), Agg(RX + "DerivKey", 0, (R.re("b"), y))


def same_key(R, st, x, y):
    return f_and(same_part(R, st, x.f[0], y.f[0]), same_part(R, st, x.f[1], y.f[1]))


key_ob("derivative-key-eq-hash", "DerivKey", dkeys, same_key)


# ---- the store and the manager: programs over a manager with an arbitrary history
STORE = ST + "Store"
BASEK = ("s", "basekeys")


class Hist(Re):
    """manager with an arbitrary set of stored terms; the real store is analysed"""

    def __init__(self, c, contracts=()):
        Re.__init__(self, c, contracts)
        I = self.I
        del I.contracts[MG + "make"]
        self.mk = c.impl(ST + "HashConsed", "make", RE)
        I.contracts[self.mk.path] = I.contracts[ST + "HashConsed::make"] = self.k_new
        I.map_base = self.base
        I.roots.add(BASEK)
        self.st.mem[BASEK] = Seq(())
        self.c = c

    def k_new(self, I, st, a, call):
        """a new node: id and expression as asked, the rest is opaque"""
        v = I.rload(st, a[1])
        out = []
        for s, e in v:
            self.W.k += 1
            n = "new#%d" % self.W.k
            if isinstance(e, SymE):
                (s, e), = I.agg(s, e)
            try:
                lang = self.W.node(s, self.W.vn[e.var], e.f)
            except (Unsupported, NeedSplit):
                lang = ("at", n)
            r = self.W.new(s, n, expr=e, rid=a[0], lang=lang)
            out.append(("ret", s, s.mem.pop(r.c)))
        return out

    def base(self, I, st, name, key):
        if name != "store":
            raise Unsupported("map %s" % name)
        call = {"fr": self.fr, "line": 0}
        outs = []
        while isinstance(key, Ref):
            key = I.rload(st, key)[0][1]
        work = [(st, [g[1] for g in st.mem[BASEK].s])]
        while work:
            s, ks = work.pop()
            if not ks:
                # never asked for before: absent, or present with an old id
                if key.var == self.W.vi["Complement"]:
                    x = key.f[0]
                    for s2, old in cases(s, f_lt(self.W.id(s, x.c), sym(NH) * 2)):
                        if not old:
                            outs.append((s2, None))
                        else:
                            raise Unsupported("complement looked up in the store")
                    continue
                s2 = s.fork()
                s2.mem[BASEK] = Seq(s2.mem[BASEK].s + (("e", Agg("bk", 0, (key, False))),))
                outs.append((s2, None))
                self.W.k += 1
                n = "old#%d" % self.W.k
                r = self.W.new(s, n, expr=key)
                s.num.add_ge(sym(NH) - sym(n + ".h") - 1)
                for g in s.mem[BASEK].s:
                    if g[1].f[1] is not False:
                        s.num.add_ne(W_id(self, s, g[1].f[1]) - W_id(self, s, r))
                s.num.add_eq(sym(n + ".odd"))
                if s.num.feasible_with():
                    s.mem[BASEK] = Seq(s.mem[BASEK].s + (("e", Agg("bk", 0, (key, r))),))
                    s.note("the term is already in the store")
                    outs.append((s, r))
                continue
            k = ks[0]
            for s2, e in cases(s, same_ast(self, s, key, k.f[0])):
                if e:
                    outs.append((s2, None if k.f[1] is False else k.f[1]))
                else:
                    work.append((s2, ks[1:]))
        return outs

    def live(self):
        """manager whose store is analysed"""
        st, I, W = self.st, self.I, self.W
        m = self.manager()
        a = st.mem[m.c]
        sd = self.c.P.adts.get(STORE)
        names = [n for n, t in sd["v"][0]["f"]] if sd else []
        if sorted(names) != ["counter", "map"]:
            raise Skip("Store representation changed")
        d = {"map": maps.new_map("store"), "counter": sym(NH) * 2}
        f = list(a.f)
        f[W.mnames.index("store")] = Agg(STORE, 0, [d[n] for n in names])
        st.mem[m.c] = Agg(RM, 0, f)
        # terms given to the constructors exist already
        return m

    def counter(self, st, m):
        a = st.mem[m.c]
        names = [n for n, t in self.c.P.adts[STORE]["v"][0]["f"]]
        s = a.f[self.W.mnames.index("store")]
        return s.f[names.index("counter")]

    def seq(self, st, b, *args):
        self.fr = None
        out = []
        for o in self.c.run(self.I, b, st, list(args)):
            if o[0] != "ret":
                self.c.no_panic(o, b.path)
            else:
                out.append((o[1], o[2]))
        return out


def W_id(R, s, r):
    return R.W.id(s, r.c)


def repeat(tag):
    def f(c):
        R = Hist(c)
        m = R.live()
        mk = c.fn(RMP + "make", False)
        a = dict(asts(R, "a"))[tag]
        others = [x for n, x in asts(R, "b") if n in ("Range", "Concat", tag) and n != "Complement"]
        if tag == "Complement":
            return
        copy = lambda s, x: x
        for z in others:
            for s, x1 in R.seq(R.st.fork(), mk, m, a):
                n1 = R.counter(s, m)
                c.prove(s, f_or(f_eq(n1 - sym(NH) * 2), f_eq(n1 - sym(NH) * 2 - 2)), "a construction adds a term and its complement, or nothing", mk.path)
                for s2, y in R.seq(s, mk, m, z):
                    n2 = R.counter(s2, m)
                    c.prove(s2, f_iff(f_eq(R.W.id(s2, x1.c) - R.W.id(s2, y.c)), x1.c == y.c), "terms with the same id are the same object", mk.path)
                    for s3, x2 in R.seq(s2, mk, m, a):
                        c.prove(s3, x2.c == x1.c, "the same construction returns the same term after another one", mk.path)
                        c.prove(s3, f_eq(R.counter(s3, m) - n2), "repeating a construction creates nothing", mk.path)
    ob(P07, "repeat-" + tag)(f)


for t_ in ("Empty", "Epsilon", "Range", "Concat", "Loop", "Loop*", "Union2", "Union3", "Inter2"):
    repeat(t_)


@ob(P07, "complement")
def o_compl(c):
    """complement of an old term, of a new one, of a complement"""
    R = Hist(c)
    m = R.live()
    cp = c.fn(RMP + "complement")
    mk = c.fn(RMP + "make", False)
    cs = c.fn(RMP + "char_set")
    a = dict(asts(R, "a"))
    R.re("e")
    S = a["Range"].f[0]
    for s0, x in R.seq(R.st.fork(), cs, m, S) + [(R.st.fork(), R.re("e"))] + R.seq(R.st.fork(), mk, m, a["Concat"]):
        for s, y in R.seq(s0, cp, m, x):
            idx, idy = R.W.id(s, x.c), R.W.id(s, y.c)
            c.prove(s, f_or(f_eq(idy - idx - 1), f_eq(idy - idx + 1)), "the complement is the other term of the pair", cp.path)
            c.prove(s, y.c != x.c, "a term differs from its complement", cp.path)
            for s2, z in R.seq(s, cp, m, y):
                c.prove(s2, f_eq(R.W.id(s2, z.c) - R.W.id(s2, x.c)), "complement is an involution", cp.path)
                c.prove(s2, f_eq(R.counter(s2, m) - R.counter(s0, m)), "complement creates no term", cp.path)


@ob(P07, "complement-node")
def o_cnode(c):
    """the internal constructor maps Complement(x) to the term next to x"""
    R = Hist(c)
    m = R.live()
    mk = c.fn(RMP + "make", False)
    x = R.re("e")
    s = R.st
    R.st.num.add_ge(sym(NH) - sym("e.h") - 1)
    if s.num.add_eq(sym("e.odd")):
        for s2, y in R.seq(s, mk, m, Agg(BRL, R.W.vi["Complement"], (x,))):
            c.prove(s2, f_eq(R.W.id(s2, y.c) - R.W.id(s2, x.c) - 1), "Complement(x) is the term next to x", mk.path)


@ob(P07, "new-manager")
def o_new(c):
    R = Hist(c)
    W = R.W
    nw = c.fn(RMP + "new")
    cp = c.fn(RMP + "complement")
    for s, mv in R.seq(R.st, nw):
        m = ref(R.I, s, mv, "mgr")
        acc = {}
        sts = [(s, {})]
        for g in ("empty", "full", "epsilon", "sigma_plus", "all_chars"):
            b = c.fn(RMP + g)
            sts = [(s2, dict(d, **{g: v})) for s1, d in sts for s2, v in R.seq(s1, b, m)]
        for s1, d in sts:
            want = {"empty": EMPTY, "full": FULL, "epsilon": EPS, "sigma_plus": notl(EPS), "all_chars": SIGMA}
            for g, v in d.items():
                prove_lang(c, W, s1, L(v), want[g], "%s has its language in a new manager" % g, RMP + g)
                for g2, v2 in d.items():
                    c.prove(s1, f_iff(f_eq(W.id(s1, v.c) - W.id(s1, v2.c)), g == g2), "distinct constants have distinct ids", nw.path)
            for p, q in (("empty", "full"), ("epsilon", "sigma_plus")):
                for x, y in ((p, q), (q, p)):
                    for s2, v in R.seq(s1.fork(), cp, m, d[x]):
                        c.prove(s2, v.c == d[y].c, "complement of %s is %s in a new manager" % (x, y), cp.path)
            for s2, v in R.seq(s1.fork(), cp, m, d["all_chars"]):
                prove_lang(c, W, s2, L(v), notl(SIGMA), "complement of all_chars in a new manager", cp.path)
                for s3, w in R.seq(s2, cp, m, v):
                    c.prove(s3, w.c == d["all_chars"].c, "complement is an involution in a new manager", cp.path)
            b = c.fn(RMP + "char_set")
            for s2, v in R.seq(s1.fork(), b, m, mk_charset(R.I, ZERO, Lin(MAX))):
                c.prove(s2, v.c == d["all_chars"].c, "char_set of all characters is all_chars", b.path)
            S = charset_hook(R.I, s1, None, "S")
            lo, hi = cs_fields(R.I, S)
            for s2, v in R.seq(s1.fork(), b, m, S):
                c.prove(s2, f_iff(v.c == d["all_chars"].c, f_and(f_eq(lo), f_eq(hi - MAX))), "char_set returns the term of its set", b.path)
                for s3, y in R.seq(s2, cp, m, v):
                    c.prove(s3, y.c != v.c, "a term differs from its complement", cp.path)
                    prove_lang(c, W, s3, L(y), notl(L(v)), "the complement of a new term", cp.path)
                    for s4, z in R.seq(s3, cp, m, y):
                        c.prove(s4, z.c == v.c, "complement is an involution", cp.path)


# ---- no constructor looks at how many terms exist
def history(name, mk, contracts=()):
    def f(c):
        R = Hist(c, contracts)
        R.I.contracts[MG + "make"] = R.k_make
        m = R.live()
        args = mk(R)
        b = c.fn(RMP + name)
        base = sym(NH)
        rec = getattr(R, "k_" + name, None)
        if rec:
            roots = [L(x) for x in args if isinstance(x, Ref)]
            R.I.contracts[b.path] = lambda I, st, a, call: None if [L(x) for x in a[1:] if isinstance(x, Ref)] == roots else rec(I, st, a, call)
        top = [n for n in R.st.num.bnd if n.endswith(".h") and not n.startswith("id2re")]
        R.fr = None
        for o in c.run(R.I, b, R.st, [m] + list(args)):
            if o[0] != "ret":
                continue
            s = o[1]
            w = s.fork()
            w.num.add_ge(base - HMAX // 4)
            c.prove(s, f_eq(R.counter(s, m) - base * 2), "%s creates terms through the store only" % name, b.path, exact=False)
            deep = w.num.feasible_with() and (w.num.model() is not None or None)
            if deep is False:
                t = s.fork()
                for n in top:
                    t.num.add_ge(Lin(1000) - sym(n))
                if t.num.feasible_with():
                    c.prove(s, False, "%s gives the same result however many terms exist" % name, b.path)
                    continue
            c.prove(s, True, "history", b.path)
    ob(P07, "history-" + name)(f)


SETS_ = ["flatten1", "sub_language"]
two_ = lambda R: [R.re("a"), R.re("b")]
for n_ in ("concat", "union", "inter", "diff"):
    history(n_, two_, SETS_)
for n_ in ("star", "plus", "opt", "complement"):
    history(n_, lambda R: [R.re("a")], SETS_)
history("mk_loop", lambda R: [R.re("a"), R.sym_range("r")], ["mk_loop"][:0])
history("char_set", lambda R: [charset_hook(R.I, R.st, None, "S")])
