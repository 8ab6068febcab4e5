"""Contracts of the RegLan operations (each is itself an obligation of C01/C03/C16)."""
from lang import *
import stdmodels as SM
import maps

MG = RX + "ReManager::"
PRIV = RX


class Re:
    """interpreter set up for regular expressions"""

    def __init__(self, c, contracts=(), **kw):
        self.c = c
        self.I = I = c.interp(exact_only=True, peel=kw.pop("peel", 12), **kw)
        self.W = World(c, I)
        self.st = St()
        I.symhooks[LR] = self.range_hook
        I.symhooks[CS] = charset_hook
        I.tls_hook = self.tls
        self.obl = {}
        ex = I.expand_hook

        def chosen(I2, st, v, var):
            if v.n.endswith(".hi") and v.ty.get("p") == OPTION:
                return self.range_chosen(st, v, var)
            return ex(I2, st, v, var)
        I.expand_hook = chosen
        for n in contracts:
            self.use(n)
        I.contracts["crate::loop_ranges::LoopRange::right_mul_is_exact"] = self.k_exact
        I.contracts[MG + "make"] = self.k_make

    def mgr(self):
        c = ("h", "mgr")
        if c not in self.st.mem:
            r = self.W.manager(self.st)
            self.st.mem[c] = r
            self.I.roots.add(c)
            self.I.roots.add(r.c)
        return self.st.mem[c]

    def tls(self, I, st, key):
        return st, self.mgr_ref

    def manager(self):
        self.mgr_ref = self.mgr()
        return self.mgr_ref

    def re(self, name):
        return self.W.hook(self.I, self.st, REF_TY, name)

    def node(self, name, var, n=None):
        """RE whose root is the given AST constructor (with n operands)"""
        r = self.re(name)
        v = self.W.get(self.st, r.c, "expr")
        for s, _ in self.I.expand(self.st.fork(), v):
            if self.W.vn[s.ch[v.n]] == var:
                self.st = s
                if n is not None:
                    self.I.mk_variant(s, v.ty, v.n, s.ch[v.n])
                    s.num.add_eq(sym("%s.%s.0.len" % (v.n, var)) - n)
                return r
        raise Skip("no %s" % var)

    # ---- loop ranges
    def range_hook(self, I, st, ty, name):
        lo = I.intsym(st, name + ".lo", 0, 2 ** 32 - 1)
        return Agg(LR, 0, (lo, SymE({"k": "adt", "p": OPTION, "a": [{"k": "int", "n": "u32"}]}, name + ".hi")))

    def range_chosen(self, st, v, var):
        name = v.n[:-3]
        lo = sym(name + ".lo")
        if var == 0:
            return True
        hi = self.I.intsym(st, v.n + ".Some.0", 0, 2 ** 32 - 1)
        ok = st.num.add_ge(hi - lo)
        if ".expr.Loop" in name:
            ok = ok and st.num.add_ge(hi - 1)       # [0,0] and [1,1] are never built
            a = st.truth(f_or(f_ge(hi - 2), f_eq(lo)))
            if a is None:
                # lo = 0 or hi >= 2
                ok = ok and st.num.add_ge(hi * 2 - lo - 2) and st.num.add_ge(hi - 1)
        return ok and st.num.feasible_with()

    def sym_range(self, name):
        return self.range_hook(self.I, self.st, None, name)

    # ---- contracts
    def use(self, n):
        f = getattr(self, "k_" + n)
        if n in ("parts", "cache"):
            return f()
        if n == "flatten1":
            self.I.contracts[PRIV + "flatten_union"] = self.I.contracts[PRIV + "flatten_inter"] = f
            return
        for base in (MG, PRIV):
            self.I.contracts[base + n] = f

    def out(self, st, lang, base="t"):
        return [("ret", st, self.W.fresh(st, lang, base))]

    def k_exact(self, I, st, a, call):
        out = []
        for s, r in self.ranges(st, a[0]):
            for s2, r2 in self.ranges(s, a[1]):
                out.append(("ret", s2, exact_mul_f(r[0], r[1], r2[0], r2[1])))
        return out

    def ranges(self, st, v):
        work = [st]
        out = []
        while work:
            s = work.pop()
            try:
                out.append((s, range_parts(self.I, s, v)))
            except NeedSplit as e:
                work += [x for x, _ in self.I.expand(s, e.v)]
        return out

    def k_make(self, I, st, a, call):
        ast = a[1]
        if not isinstance(ast, Agg):
            raise Unsupported("AST %r" % (ast,))
        W = self.W
        v = W.vn[ast.var]
        outs = []
        sts = [st]
        if v == "Loop":
            sts = []
            for s, (lo, hi) in self.ranges(st, ast.f[1]):
                sts.append(s)
                if hi is not None:
                    self.c.prove(s, f_and(f_ge(hi - 1), f_or(f_ne(lo - 1), f_ne(hi - 1))), "a trivial range never enters a Loop node", call["fr"].b.path, exact=False)
                sub = W.id(s, ast.f[0].c)
                self.c.prove(s, f_and(f_ne(sub - 2), f_ne(sub - 4)), "the body of a Loop node is neither empty nor epsilon", call["fr"].b.path, exact=False)
        if v == "Complement":
            raise Unsupported("make of a complement")
        for s in sts:
            t = W.node(s, v, ast.f)
            outs += self.out(s, t, "mk")
        return outs

    def k_concat(self, I, st, a, call):
        return self.out(st, cat(L(a[1]), L(a[2])), "cat")

    def k_mk_loop(self, I, st, a, call):
        return [x for s, (lo, hi) in self.ranges(st, a[2]) for x in self.out(s, ("pow", L(a[1]), lo, hi), "loop")]

    def k_inter(self, I, st, a, call):
        return self.out(st, andd(L(a[1]), L(a[2])), "and")

    def k_union(self, I, st, a, call):
        return self.out(st, orr(L(a[1]), L(a[2])), "or")

    def lst(self, I, st, v, call):
        out = []
        if isinstance(v, (Seq, Ref)):
            return [(st, self.W.items(st, v))]
        for o in SM.collect(I, st, v, call, target="std::vec::Vec"):
            if o[0] != "ret":
                raise Unsupported("list argument")
            out.append((o[1], self.W.items(o[1], o[2])))
        return out

    def k_make_inter(self, I, st, a, call):
        return [x for s, q in self.lst(I, st, a[1], call) for x in self.out(s, ("and", tuple(q)), "and")]

    def k_make_union(self, I, st, a, call):
        return [x for s, q in self.lst(I, st, a[1], call) for x in self.out(s, ("or", tuple(q)), "or")]

    k_inter_list = k_make_inter
    k_union_list = k_make_union

    def k_concat_list(self, I, st, a, call):
        return [x for s, q in self.lst(I, st, a[1], call) for x in self.out(s, ("cat", tuple(q)), "cat")]

    def k_complement(self, I, st, a, call):
        return self.out(st, notl(L(a[1])), "not")

    def push(self, I, st, v, items):
        out = []
        for s, q in I.rload(st, v):
            if not isinstance(q, Seq):
                raise Unsupported("list")
            for s2 in I.rstore(s, v, Seq(q.s + tuple(items))):
                out.append(("ret", s2, UNIT))
        return out

    def k_flatten_union(self, I, st, a, call, k="U", n=None):
        n = I.intsym(st, fresh("n"), 0, 2 ** 31)
        return self.push(I, st, a[1], [("t", Term("flat", k, L(a[0])), n)])

    def k_flatten_inter(self, I, st, a, call):
        return self.k_flatten_union(I, st, a, call, "I")

    def k_flatten1(self, I, st, a, call):
        """the operand is not itself a union / intersection"""
        return self.push(I, st, a[1], [("e", self.deref(I, st, a[0]))])

    def k_flatten_concat(self, I, st, a, call):
        """nothing, one or two REs whose concatenation is the argument"""
        out = []
        W = self.W
        s0 = st.fork()
        nm = a[0].c[1][3:]
        if W.lang(st, a[0].c)[0] == "at" and W.expr(st, a[0].c) is None and s0.num.add_eq(W.id(s0, a[0].c) - 4):
            out += [("ret", s0, UNIT)]
        s1 = st.fork()
        s1.num.add_ne(W.id(s1, a[0].c) - 4)
        out += self.push(I, s1, a[1], [("e", a[0])])
        return out

    def k_sub_language(self, I, st, a, call):
        r, s = self.deref(I, st, a[0]), self.deref(I, st, a[1])
        t = st.fork()
        t.facts[("sub", L(r), L(s))] = True
        t.note("sub_language is true")
        return [("ret", t, True), ("ret", st, False)]

    def deref(self, I, st, v):
        while isinstance(v, Ref) and not (v.c in st.mem and isinstance(st.mem[v.c], Agg) and st.mem[v.c].k == RE):
            v = I.rload(st, v)[0][1]
        return v

    # ---- partitions as terms (C11, C12)
    def k_parts(self):
        CP = "crate::character_sets::CharPartition::"
        k = self.I.contracts
        k[CP + "new"] = lambda I, st, a, call: [("ret", st, Term("part", ("new",)))]
        k[CP + "from_set"] = self.k_from_set
        k["crate::character_sets::merge_partitions"] = self.k_merge
        for n in ("class_of_char", "class_of_set", "pick_in_class", "valid_class_id", "empty_complement", "class_ids", "ranges", "len", "num_classes"):
            k[CP + n] = lambda I, st, a, call, n=n: getattr(self, "p_" + n)(st, a, call)
        self.cid = "crate::character_sets::ClassId"

    def part_re(self, st, v):
        """cell of the RE whose partition this is, None otherwise (then the body is analysed)"""
        while isinstance(v, Ref):
            v = self.I.rload(st, v)[0][1]
        if not isinstance(v, Term):
            return None
        p = v.a[0]
        if p[0] != "re":
            raise Unsupported("query of %r" % (p,))
        return p[1]

    def nclasses(self, st, c):
        return self.I.intsym(st, c[1][3:] + ".ranges", 0, MAX + 1)

    def fork_cid(self, st, c, tag):
        """the classes of an RE: [(st, cid)]"""
        n = self.nclasses(st, c)
        s = st.fork()
        out = []
        i = self.I.intsym(s, tag, 0, MAX)
        if s.num.add_ge(n - i - 1) and s.num.feasible_with():
            out.append((s, Agg(self.cid, 0, (i,))))
        s2 = st.fork()
        for s3, e in cases(s2, ("at", c[1][3:] + ".nocomp", True)):
            if not e:
                out.append((s3, Agg(self.cid, 1, ())))
        return out

    def p_class_of_char(self, st, a, call):
        c = self.part_re(st, a[0])
        if c is None:
            return None
        out = []
        for s, cid in self.fork_cid(st, c, "cls(%s,%r)" % (c[1], a[1])):
            s.facts[("classof", c, cid)] = a[1]
            out.append(("ret", s, cid))
        return out

    def p_class_of_set(self, st, a, call):
        c = self.part_re(st, a[0])
        if c is None:
            return None
        s0 = self.W.charset(st, a[1])
        lo, hi = cs_fields(self.I, s0)
        out = []
        for s, cid in self.fork_cid(st, c, "cls(%s,%r,%r)" % (c[1], lo, hi)):
            x = s.facts.get(("probe",))
            if x is not None:
                # the probe character lies in the set
                for s2 in s.assume(f_and(f_le(lo, x), f_le(x, hi))):
                    s2.facts[("classof", c, cid)] = x
                    out.append(("ret", s2, ok(cid)))
            else:
                s.facts[("classof", c, cid)] = lo
                out.append(("ret", s, ok(cid)))
        e = st.fork()
        e.facts[("ambiguous", c)] = True
        er = self.I.P.adts["crate::errors::Error"]
        vi = {v["n"]: i for i, v in enumerate(er["v"])}
        out.append(("ret", e, err(Agg("crate::errors::Error", vi["AmbiguousCharSet"], ()))))
        return out

    def rep(self, st, c, cid):
        """the representative of a class, related to the character the class was found with"""
        x = chsym(self.I, st, "rep(%s,%s)" % (c[1], "comp" if cid.var else repr(cid.f[0])))
        for kk, v in list(st.facts.items()):
            if isinstance(kk, tuple) and kk[0] == "classof" and kk[1] == c and kk[2] == cid:
                st.facts[("samecls", c, x, v)] = True
        return x

    def p_pick_in_class(self, st, a, call):
        c = self.part_re(st, a[0])
        if c is None:
            return None
        out = []
        for s, cid in self.I.agg(st, a[1]):
            for s2, v in cases(s, self.valid_f(s, c, cid)):
                if not v:
                    out.append(("panic", s2, ("assert", call["line"], "invalid class id")))
                else:
                    out.append(("ret", s2, self.rep(s2, c, cid)))
        return out

    def valid_f(self, st, c, cid):
        if cid.var == 0:
            return f_lt(cid.f[0], self.nclasses(st, c))
        return ("at", c[1][3:] + ".nocomp", False)

    def p_valid_class_id(self, st, a, call):
        c = self.part_re(st, a[0])
        if c is None:
            return None
        return [("ret", s, self.valid_f(s, c, cid)) for s, cid in self.I.agg(st, a[1])]

    def p_empty_complement(self, st, a, call):
        c = self.part_re(st, a[0])
        if c is None:
            return None
        return [("ret", st, ("at", c[1][3:] + ".nocomp", True))]

    def p_len(self, st, a, call):
        c = self.part_re(st, a[0])
        if c is None:
            return None
        return [("ret", st, self.nclasses(st, c))]

    def p_num_classes(self, st, a, call):
        c = self.part_re(st, a[0])
        if c is None:
            return None
        return [("ret", s, self.nclasses(s, c) + (0 if e else 1)) for s, e in cases(st, ("at", c[1][3:] + ".nocomp", True))]

    def p_class_ids(self, st, a, call):
        c = self.part_re(st, a[0])
        if c is None:
            return None
        return [("ret", st, Term("class_ids", ("re", c)))]

    def p_ranges(self, st, a, call):
        c = self.part_re(st, a[0])
        if c is None:
            return None
        return [("ret", st, Term("ranges", ("re", c)))]

    # ---- the derivative cache: maps (e, class) to the derivative for the representative of the class
    def k_cache(self):
        self.I.map_base = self.cache_get
        self.I.map_insert = self.cache_put

    def cache_key(self, st, key):
        while isinstance(key, Ref):
            key = self.I.rload(st, key)[0][1]
        if len(key.f) != 2:
            raise Unsupported("cache key %r" % (key,))
        e = self.deref(self.I, st, key.f[0])
        r = self.I.agg(st, key.f[1])
        if len(r) != 1:
            raise Unsupported("class id")
        return e.c, r[0][1]

    def cache_get(self, I, st, name, key):
        c, cid = self.cache_key(st, key)
        t = st.fork()
        x = self.rep(t, c, cid)
        r = self.W.fresh(t, ("d", x, ("re", c)), "cached")
        return [(st, None), (t, r)]

    def cache_put(self, I, st, name, key, val, call):
        c, cid = self.cache_key(st, key)
        v = self.deref(I, st, val)
        prove_lang(self.c, self.W, st, L(v), ("d", self.rep(st, c, cid), ("re", c)), "a cached derivative is the derivative for the class of its key", call["fr"].b.path)

    def part(self, st, v):
        while isinstance(v, Ref):
            v = self.I.rload(st, v)[0][1]
        if isinstance(v, Term) and v.op == "part":
            return v.a[0]
        raise Unsupported("partition %r" % (v,))

    def k_from_set(self, I, st, a, call):
        lo, hi = cs_fields(I, self.W.charset(st, a[0]))
        return [("ret", st, Term("part", ("set", lo, hi)))]

    def k_merge(self, I, st, a, call):
        return [("ret", st, Term("part", ("merge", self.part(st, a[0]), self.part(st, a[1]))))]

    # ---- derivatives
    def k_deriv(self, I, st, a, call):
        r = self.deref(I, st, a[1])
        return self.out(st, ("d", a[2], L(r)), "der")

    k_compute_derivative = k_deriv
    k_char_derivative = k_deriv

    def run(self, name, args, public=True):
        b = self.c.fn(name, public)
        return b, self.c.run(self.I, b, self.st, args)


def arith_panic(o):
    """documented panic: the range of a loop does not fit in u32"""
    return o[2][0] == "unwrap" and "loop_ranges.rs" in o[2][1]


def check_re(R, o, want, what, where, panics=False):
    """one outcome of a function that must return a RegLan with the language want (a term, or a function of the state)"""
    c = R.c
    if o[0] == "panic":
        if not arith_panic(o) and not panics:
            c.no_panic(o, where)
        return
    v = o[2]
    if not isinstance(v, Ref):
        c.undec.append("%s returns %r" % (where, v))
        return
    v = R.deref(R.I, o[1], v)
    if v.c not in o[1].mem:
        c.undec.append("%s returns %r" % (where, v))
        return
    if callable(want):
        for s, t in want(o[1]):
            prove_lang(c, R.W, s, L(v), t, what, where)
    else:
        prove_lang(c, R.W, o[1], L(v), want, what, where)


def check_null(R, st, b, want, what, where, chk=None):
    """the boolean b says whether the empty word is in the language want"""
    for s, v in cases(st, b):
        cells = [c for c in s.mem if isinstance(c[1], str) and c[1].startswith("re:") and isinstance(s.mem[c], Agg)]
        try:
            sts = [s3 for s2, cs in split_ranges(R.W, s, [("re", c) for c in cells]) for s3 in nu_axioms(R.W, s2, cells)]
        except Unsupported as e:
            R.c.undec.append("%s: %s" % (what, e))
            continue
        for s2 in sts:
            if s2.num.feasible_with():
                prove_lang(R.c, R.W, s2, EPS if v else EMPTY, andd(EPS, want), what, where)


def text(R, name, n):
    """SmtString of n symbolic characters: (value, chars)"""
    cs = [chsym(R.I, R.st, "%s%d" % (name, i)) for i in range(n)]
    return Agg(SS, 0, [Seq(tuple(("e", x) for x in cs))]), cs


def word(cs):
    return ("cat", tuple(("rng", x, x) for x in cs))


def quot(t, cs):
    for x in cs:
        t = ("d", x, t)
    return t
