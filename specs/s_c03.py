"""C03: derivatives are left quotients, every derivative class is uniform."""
from recon import *
P03 = "C03"
ST = "crate::store::"
RMP = "regular_expressions::ReManager::"
NODES = [("Empty", None), ("Epsilon", None), ("Range", None), ("Concat", None), ("Loop", None), ("Complement", None)] + [(v, n) for v in ("Inter", "Union") for n in range(4)]
SETS = ["concat", "mk_loop", "union", "inter", "complement", "inter_list", "union_list", "concat_list", "flatten_union", "flatten_inter", "make_inter", "make_union"]


def der(var, n):
    def f(c):
        R = Re(c, SETS + ["deriv", "parts"])
        m = R.manager()
        e = R.node("e", var, n)
        x = chsym(R.I, R.st, "x")
        b, outs = R.run(RMP + "compute_derivative", [m, e, x], public=False)
        for o in outs:
            check_re(R, o, ("d", x, L(e)), "compute_derivative is the left quotient (%s)" % var, b.path)
    return f


def uniform(var, n):
    def f(c):
        R = Re(c, ["parts"])
        e = R.node("e", var, n)
        k = R.W.get(R.st, e.c, "expr")
        b = c.impl(ST + "HashConsed", "make", RE)
        for o in c.run(R.I, b, R.st, [R.I.intsym(R.st, "index", 0, 2 ** 40), ref(R.I, R.st, k, "key")]):
            if o[0] != "ret":
                c.no_panic(o, b.path)
                continue
            s = o[1]
            p = R.part(s, o[2].f[R.W.ix["deriv_class"]])
            x, y = chsym(R.I, s, "x"), chsym(R.I, s, "y")
            for s2 in same_class(R, s, p, x, y):
                prove_lang(c, R.W, s2, ("d", x, L(e)), ("d", y, L(e)), "characters of one derivative class have the same derivative (%s)" % var, b.path)
    return f


def same_class(R, st, p, x, y):
    """states in which x and y are in the same class of the partition term p"""
    if p[0] == "new":
        return [st]
    if p[0] == "re":
        st.facts[("samecls", p[1], x, y)] = True
        return [st]
    if p[0] == "set":
        inn = lambda z: f_and(f_le(p[1], z), f_le(z, p[2]))
        return [s for s, v in cases(st, inn(x)) for s in s.assume(inn(y) if v else f_not(inn(y)))]
    if p[0] == "merge":
        return [s2 for s in same_class(R, st, p[1], x, y) for s2 in same_class(R, s, p[2], x, y)]
    raise Unsupported("partition %r" % (p,))


for v_, n_ in NODES:
    sfx = v_ if n_ is None else "%s-%d" % (v_, n_)
    ob(P03, "derivative-" + sfx)(der(v_, n_))
    ob(P03, "classes-" + sfx)(uniform(v_, n_))


def fresh_re(c, contracts):
    R = Re(c, contracts)
    return R, R.manager(), R.re("e")


DC = ["parts", "cache", "compute_derivative"]


def char_der(nm, public=True):
    def f(c):
        R, m, e = fresh_re(c, DC)
        x = chsym(R.I, R.st, "x")
        b, outs = R.run(RMP + nm, [m, e, x], public)
        for o in outs:
            check_re(R, o, ("d", x, L(e)), nm + " is the left quotient", b.path)
    return f


ob(P03, "char_derivative")(char_der("char_derivative"))


@ob(P03, "class_derivative")
def o_class(c):
    R, m, e = fresh_re(c, DC)
    for s, cid in every_cid(R, e):
        x = chsym(R.I, s, "x")
        for s2, v in cases(s, R.valid_f(s, e.c, cid)):
            if v:
                s2.facts[("classof", e.c, cid)] = x
            b = c.fn(RMP + "class_derivative")
            for o in c.run(R.I, b, s2, [m, e, cid]):
                result_ob(R, o, v, ("d", x, L(e)), "BadClassId", "class_derivative", b.path)


@ob(P03, "class_derivative_unchecked")
def o_classu(c):
    R, m, e = fresh_re(c, DC)
    for s, cid in every_cid(R, e):
        x = chsym(R.I, s, "x")
        for s2, v in cases(s, R.valid_f(s, e.c, cid)):
            if not v:
                continue
            s2.facts[("classof", e.c, cid)] = x
            b = c.fn(RMP + "class_derivative_unchecked")
            for o in c.run(R.I, b, s2, [m, e, cid]):
                check_re(R, o, ("d", x, L(e)), "class_derivative_unchecked is the derivative for every character of the class", b.path)


def every_cid(R, e):
    i = R.I.intsym(R.st, "i", 0, 2 ** 60)
    s = R.st.fork()
    return [(s, Agg(R.cid, 0, (i,))), (R.st, Agg(R.cid, 1, ()))]


def result_ob(R, o, good, want, ename, what, where):
    c = R.c
    if o[0] != "ret":
        c.no_panic(o, where)
        return
    for s, v in R.I.agg(o[1], o[2]):
        if v.var == 0:
            if not good:
                c.prove(s, False, "%s rejects what it must reject" % what, where)
                continue
            c.prove(s, True, "%s accepts" % what, where)
            check_re(R, ("ret", s, v.f[0]), want, "%s is the common derivative" % what, where)
        else:
            er = [x["n"] for x in R.c.P.adts["crate::errors::Error"]["v"]]
            for s2, ev in R.I.agg(s, v.f[0]):
                c.prove(s2, (not good) and er[ev.var] == ename, "%s fails with %s exactly when it must" % (what, ename), where)


@ob(P03, "set_derivative")
def o_set(c):
    R, m, e = fresh_re(c, DC)
    S = charset_hook(R.I, R.st, None, "S")
    lo, hi = cs_fields(R.I, S)
    x = chsym(R.I, R.st, "x")
    R.st.num.add_ge(x - lo)
    R.st.num.add_ge(hi - x)
    R.st.facts[("probe",)] = x
    b, outs = R.run(RMP + "set_derivative", [m, e, ref(R.I, R.st, S)])
    for o in outs:
        amb = ("ambiguous", e.c) in o[1].facts
        result_ob(R, o, not amb, ("d", x, L(e)), "AmbiguousCharSet", "set_derivative", b.path)


@ob(P03, "set_derivative_unchecked")
def o_setu(c):
    R, m, e = fresh_re(c, DC)
    S = charset_hook(R.I, R.st, None, "S")
    lo, hi = cs_fields(R.I, S)
    x = chsym(R.I, R.st, "x")
    R.st.num.add_ge(x - lo)
    R.st.num.add_ge(hi - x)
    R.st.facts[("probe",)] = x
    b, outs = R.run(RMP + "set_derivative_unchecked", [m, e, ref(R.I, R.st, S)])
    for o in outs:
        if ("ambiguous", e.c) in o[1].facts and o[0] == "panic":
            continue
        check_re(R, o, ("d", x, L(e)), "set_derivative_unchecked is the common derivative", b.path)


def str_der(n):
    def f(c):
        R, m, e = fresh_re(c, ["char_derivative", "deriv"])
        s, cs = text(R, "c", n)
        b, outs = R.run(RMP + "str_derivative", [m, e, ref(R.I, R.st, s)])
        for o in outs:
            check_re(R, o, quot(L(e), cs), "str_derivative composes char_derivative along the text", b.path)
    return f


for n_ in range(4):
    ob(P03, "str_derivative-%d" % n_)(str_der(n_))


# ---- the class queries of a RE are those of its partition
@ob(P03, "class-queries")
def o_queries(c):
    R, m, e = fresh_re(c, ["parts"])
    RX_ = "regular_expressions::RE::"
    i = R.I.intsym(R.st, "i", 0, 2 ** 60)
    comp = ("at", e.c[1][3:] + ".nocomp", True)

    def go(nm, args, chk):
        b = c.fn(RX_ + nm)
        for o in c.run(R.I, b, R.st.fork(), [e] + args):
            if o[0] != "ret":
                c.no_panic(o, b.path)
            else:
                chk(o[1], o[2], b.path, nm)
    go("empty_complement", [], lambda s, v, w, nm: c.prove(s, f_iff(v, comp), "empty_complement is that of the derivative classes", w))
    go("num_deriv_classes", [], lambda s, v, w, nm: None)
    for cid in (Agg(R.cid, 0, (i,)), Agg(R.cid, 1, ())):
        go("valid_class_id", [cid], lambda s, v, w, nm, cid=cid: c.prove(s, f_iff(v, R.valid_f(s, e.c, cid)), "valid_class_id is that of the derivative classes", w))
    go("class_ids", [], lambda s, v, w, nm: c.prove(s, v == Term("class_ids", ("re", e.c)), "class_ids lists the derivative classes", w, exact=isinstance(v, Term)))
    go("char_ranges", [], lambda s, v, w, nm: c.prove(s, v == Term("ranges", ("re", e.c)), "char_ranges lists the derivative classes", w, exact=isinstance(v, Term)))
