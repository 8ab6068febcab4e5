"""C01: every constructor denotes the SMT-LIB language, nullable flags, membership."""
from recon import *
P01 = "C01"
ST = "crate::store::"


@ob(P01, "concat")
def o_concat(c):
    R = Re(c, ["concat", "mk_loop"])
    m = R.manager()
    e1, e2 = R.re("e1"), R.re("e2")
    b, outs = R.run("regular_expressions::ReManager::concat", [m, e1, e2])
    for o in outs:
        check_re(R, o, cat(L(e1), L(e2)), "concat denotes the concatenation", b.path)


@ob(P01, "mk_loop")
def o_loop(c):
    R = Re(c, ["concat", "mk_loop"])
    m = R.manager()
    e = R.re("e")
    r = R.sym_range("range")
    b, outs = R.run("regular_expressions::ReManager::mk_loop", [m, e, r])
    for o in outs:
        check_re(R, o, lambda st: [(s, ("pow", L(e), lo, hi)) for s, (lo, hi) in R.ranges(st, r)], "mk_loop denotes the union of the powers", b.path)


def lst(R, n, base="x"):
    return [R.re("%s%d" % (base, i)) for i in range(n)]


def vec(R, refs):
    return Seq(tuple(("e", r) for r in refs))


def setop(name, op, contracts):
    for n in range(4):
        def f(c, n=n):
            R = Re(c, contracts)
            m = R.manager()
            xs = lst(R, n)
            b, outs = R.run("regular_expressions::ReManager::%s_list" % name, [m, vec(R, xs)])
            for o in outs:
                check_re(R, o, (op, tuple(L(x) for x in xs)), "%s_list denotes the %s of its operands" % (name, "union" if op == "or" else "intersection"), b.path)
        ob(P01, "%s-of-%d" % (name, n), **({"budget": 400} if n == 3 else {}))(f)


setop("inter", "and", ["flatten1"])
setop("union", "or", ["flatten1", "sub_language"])


# ---- flattening of associative operators: bodies against the language of what they push (recursive calls by contract)
def flat(name, var, op):
    for n in [None, 0, 1, 2, 3]:
        def f(c, n=n):
            R = Re(c, ["flatten_union" if op == "or" else "flatten_inter"])
            r = R.re("r") if n is None else R.node("r", var, n)
            v = ref(R.I, R.st, Seq(()), "v")
            b = c.fn("regular_expressions::" + name, False)
            for o in c.run(R.I, b, R.st, [r, v]):
                if o[0] == "ret":
                    if n is None and R.W.variant(o[1], r.c) == R.W.vi[var]:
                        continue
                    t = (op, tuple(R.W.items(o[1], v)))
                    prove_lang(c, R.W, o[1], t, L(r), "%s collects operands of the same language" % name, b.path)
                elif o[0] == "panic":
                    c.no_panic(o, b.path)
                else:
                    c.undec.append("%s: %s" % (name, o[2]))
        ob(P01, "%s-%s" % (name, "leaf" if n is None else n))(f)


flat("flatten_union", "Union", "or")
flat("flatten_inter", "Inter", "and")


@ob(P01, "flatten_concat")
def o_flatc(c):
    R = Re(c)
    n0 = [0]

    def k(I, st, a, call):
        n0[0] += 1
        n = I.intsym(st, "n%d" % n0[0], 0, 2 ** 31)
        return R.push(I, st, a[1], [("t", Term("flat", "C", L(a[0])), n)])
    R.I.contracts[RX + "flatten_concat"] = k
    r = R.re("r")
    x = R.re("before")
    v = ref(R.I, R.st, Seq((("e", x),)), "v")
    b = c.fn("regular_expressions::flatten_concat", False)
    for o in c.run(R.I, b, R.st, [r, v]):
        if o[0] == "ret":
            prove_lang(c, R.W, o[1], ("cat", tuple(R.W.items(o[1], v))), cat(L(x), L(r)), "flatten_concat appends factors of the same language", b.path)
        elif o[0] == "panic":
            c.no_panic(o, b.path)
        else:
            c.undec.append("flatten_concat: %s" % o[2])


# ---- the public constructors
def ctor(nm, mk, want, contracts=(), public=True, name=None, panics=False, path=None, **kw):
    def f(c):
        R = Re(c, list(contracts))
        m = R.manager()
        args = mk(R)
        b, outs = R.run((path or "regular_expressions::ReManager::") + nm, [m] + list(args), public=public)
        for o in outs:
            check_re(R, o, want(R, *args), "%s denotes its language" % (name or nm), b.path, panics)
    ob(P01, name or nm, **kw)(f)


def two(R):
    return [R.re("e1"), R.re("e2")]


def one(R):
    return [R.re("e")]


SET = ["flatten_union", "flatten_inter", "make_inter", "make_union", "complement", "inter", "union"]
ctor("inter", two, lambda R, a, b: andd(L(a), L(b)), [x for x in SET if x != "inter"])
ctor("union", two, lambda R, a, b: orr(L(a), L(b)), [x for x in SET if x != "union"])
ctor("diff", two, lambda R, a, b: andd(L(a), notl(L(b))), SET)
ctor("complement", one, lambda R, a: notl(L(a)), [])
for n_ in range(4):
    mkl = lambda R, n=n_: [vec(R, lst(R, n))]
    names = lambda R, v: tuple(("re", g[1].c) for g in v.s)
    ctor("inter_list", mkl, lambda R, v: ("and", names(R, v)), SET, name="inter_list-%d" % n_)
    ctor("union_list", mkl, lambda R, v: ("or", names(R, v)), SET, name="union_list-%d" % n_)
    ctor("diff_list", lambda R, n=n_: [R.re("e"), vec(R, lst(R, n))], lambda R, e, v: ("and", (L(e),) + tuple(notl(x) for x in names(R, v))), SET, name="diff_list-%d" % n_)
    ctor("concat_list", mkl, lambda R, v: ("cat", names(R, v)), ["concat", "flatten_concat"], name="concat_list-%d" % n_)

LOOP = ["mk_loop"]
for nm_, lo_, hi_ in (("star", 0, None), ("plus", 1, None), ("opt", 0, 1)):
    ctor(nm_, one, lambda R, e, lo=lo_, hi=hi_: powr(L(e), lo, hi), LOOP)


def u32s(R, *names):
    return [R.I.intsym(R.st, n, 0, 2 ** 32 - 1) for n in names]


ctor("exp", lambda R: [R.re("e")] + u32s(R, "k"), lambda R, e, k: powr(L(e), k, k), LOOP)
ctor("smt_loop", lambda R: [R.re("e")] + u32s(R, "i", "j"),
     lambda R, e, i, j: lambda st: [(s, powr(L(e), i, j) if t else EMPTY) for s, t in cases(st, f_le(i, j))], LOOP)

# ---- atoms
ATOM = []
ctor("empty", lambda R: [], lambda R: EMPTY)
ctor("full", lambda R: [], lambda R: FULL)
ctor("epsilon", lambda R: [], lambda R: EPS)
ctor("sigma_plus", lambda R: [], lambda R: ("pow", SIGMA, ONE, None))
ctor("all_chars", lambda R: [], lambda R: SIGMA)
ctor("char_set", lambda R: [charset_hook(R.I, R.st, None, "set")], lambda R, s: ("rng",) + cs_fields(R.I, s))


def chars(R, *names):
    return [chsym(R.I, R.st, n) for n in names]


ctor("char", lambda R: chars(R, "x"), lambda R, x: ("rng", x, x))


def ordered(R):
    a, b = chars(R, "start", "end")
    R.st.num.add_ge(b - a)
    return [a, b]


ctor("range", ordered, lambda R, a, b: ("rng", a, b))


def rng_strs(n1, n2):
    def f(c):
        R = Re(c)
        m = R.manager()
        s1, c1 = text(R, "a", n1)
        s2, c2 = text(R, "b", n2)
        b, outs = R.run("regular_expressions::ReManager::smt_range", [m, ref(R.I, R.st, s1), ref(R.I, R.st, s2)])
        for o in outs:
            check_re(R, o, (lambda st: [(s, ("rng", c1[0], c2[0]) if t else EMPTY) for s, t in cases(st, f_le(c1[0], c2[0]))])
                     if n1 == 1 and n2 == 1 else EMPTY, "smt_range of strings of length %d and %d" % (n1, n2), b.path)
    ob(P01, "smt_range-%d-%d" % (n1, n2))(f)


for a_ in range(3):
    for b_ in range(3):
        rng_strs(a_, b_)


def str_re(n):
    def f(c):
        R = Re(c, ["concat"])
        m = R.manager()
        s, cs = text(R, "c", n)
        b, outs = R.run("regular_expressions::ReManager::str", [m, ref(R.I, R.st, s)])
        for o in outs:
            check_re(R, o, word(cs), "str of a text of length %d" % n, b.path)
    ob(P01, "str-%d" % n)(f)

    def g(c):
        R = Re(c, ["char_derivative", "deriv"])
        m = R.manager()
        e = R.re("e")
        s, cs = text(R, "c", n)
        b, outs = R.run("regular_expressions::ReManager::str_in_re", [m, ref(R.I, R.st, s), e])
        for o in outs:
            if o[0] == "ret":
                check_null(R, o[1], o[2], quot(L(e), cs), "str_in_re tests whether the quotient by the text is nullable", b.path)
            else:
                c.no_panic(o, b.path)
    ob(P01, "str_in_re-%d" % n)(g)


for n_ in range(4):
    str_re(n_)


# ---- the cached flags of a new term
def nullable(var, ns=(None,)):
    for n in ns:
        def f(c, n=n):
            R = Re(c, ["parts"])
            r = R.node("r", var, n)
            k = R.W.get(R.st, r.c, "expr")
            b = c.impl(ST + "HashConsed", "make", RE)
            for o in c.run(R.I, b, R.st, [R.I.intsym(R.st, "index", 0, 2 ** 40), ref(R.I, R.st, k, "key")]):
                if o[0] != "ret":
                    c.no_panic(o, b.path)
                    continue
                s, v = o[1], o[2]
                check_null(R, s, v.f[R.W.ix["nullable"]], ("re", r.c), "nullable is set exactly when the empty string is in the language (%s)" % var, b.path)
                c.prove(s, f_eq(v.f[R.W.ix["id"]] - sym("index")), "the id of a new term is its index", b.path)
        ob(P01, "nullable-%s%s" % (var, "" if n is None else "-%d" % n))(f)


for v_ in ("Empty", "Epsilon", "Range", "Concat", "Loop", "Complement"):
    nullable(v_)
for v_ in ("Inter", "Union"):
    nullable(v_, (0, 1, 2, 3))


# ---- the SMT-LIB named wrappers use the thread-local manager
def wrap(nm, mk, want):
    def f(c):
        R = Re(c, WRAP)
        R.manager()
        args = mk(R)
        b, outs = R.run("smt_regular_expressions::" + nm, list(args))
        for o in outs:
            check_re(R, o, want(R, *args), "%s denotes its SMT-LIB language" % nm, b.path)
    ob(P01, nm)(f)


WRAP = ["concat", "mk_loop", "inter", "union", "inter_list", "union_list", "concat_list", "complement", "flatten_inter", "make_inter", "flatten_union", "make_union", "flatten_concat"]
v2 = lambda R: [vec(R, lst(R, 2))]
wrap("re_none", lambda R: [], lambda R: EMPTY)
wrap("re_all", lambda R: [], lambda R: FULL)
wrap("re_allchar", lambda R: [], lambda R: SIGMA)
wrap("re_concat", two, lambda R, a, b: cat(L(a), L(b)))
wrap("re_union", two, lambda R, a, b: orr(L(a), L(b)))
wrap("re_inter", two, lambda R, a, b: andd(L(a), L(b)))
wrap("re_diff", two, lambda R, a, b: andd(L(a), notl(L(b))))
wrap("re_comp", one, lambda R, a: notl(L(a)))
wrap("re_star", one, lambda R, a: powr(L(a), 0, None))
wrap("re_plus", one, lambda R, a: powr(L(a), 1, None))
wrap("re_opt", one, lambda R, a: powr(L(a), 0, 1))
wrap("re_power", lambda R: [R.re("e")] + u32s(R, "k"), lambda R, e, k: powr(L(e), k, k))
wrap("re_loop", lambda R: [R.re("e")] + u32s(R, "i", "j"),
     lambda R, e, i, j: lambda st: [(s, powr(L(e), i, j) if t else EMPTY) for s, t in cases(st, f_le(i, j))])
nm2 = lambda v: tuple(("re", g[1].c) for g in v.s)
wrap("re_concat_list", v2, lambda R, v: ("cat", nm2(v)))
wrap("re_union_list", v2, lambda R, v: ("or", nm2(v)))
wrap("re_inter_list", v2, lambda R, v: ("and", nm2(v)))
wrap("re_diff_list", lambda R: [R.re("e")] + v2(R), lambda R, e, v: ("and", (L(e),) + tuple(notl(x) for x in nm2(v))))


def wrapped(n):
    def f(c):
        R = Re(c, WRAP)
        R.manager()
        s, cs = text(R, "c", n)
        b, outs = R.run("smt_regular_expressions::str_to_re", [ref(R.I, R.st, s)])
        for o in outs:
            check_re(R, o, word(cs), "str_to_re of a text of length %d" % n, b.path)
    ob(P01, "str_to_re-%d" % n)(f)

    def g(c):
        R = Re(c, WRAP + ["char_derivative", "deriv"])
        R.manager()
        e = R.re("e")
        s, cs = text(R, "c", n)
        b, outs = R.run("smt_regular_expressions::str_in_re", [ref(R.I, R.st, s), e])
        for o in outs:
            if o[0] == "ret":
                check_null(R, o[1], o[2], quot(L(e), cs), "str_in_re is membership", b.path)
            else:
                c.no_panic(o, b.path)
    ob(P01, "smt-str_in_re-%d" % n)(g)


def smt_rng(n1, n2):
    def f(c):
        R = Re(c)
        R.manager()
        s1, c1 = text(R, "a", n1)
        s2, c2 = text(R, "b", n2)
        b, outs = R.run("smt_regular_expressions::re_range", [ref(R.I, R.st, s1), ref(R.I, R.st, s2)])
        for o in outs:
            check_re(R, o, (lambda st: [(s, ("rng", c1[0], c2[0]) if t else EMPTY) for s, t in cases(st, f_le(c1[0], c2[0]))])
                     if n1 == 1 and n2 == 1 else EMPTY, "re_range of strings of length %d and %d" % (n1, n2), b.path)
    ob(P01, "re_range-%d-%d" % (n1, n2))(f)


for n_ in range(3):
    wrapped(n_)
    for k_ in range(3):
        smt_rng(n_, k_)
