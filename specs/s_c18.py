"""C18: start_char / start_class say whether some member starts with the character."""
from recon import *
P18 = "C18"
RMP = "regular_expressions::ReManager::"


class NonEmpty:
    """non-emptiness of a language as a boolean formula over opaque languages"""

    def __init__(self, p):
        self.p = p
        self.ax = []
        self.complex = set()
        self.seen = set()

    def f(self, t):
        k = t[0]
        if k == "0":
            return False
        if k in ("1", "rng"):
            return True
        if k == "cat":
            return f_and(*[self.f(x) for x in t[1]])
        if k == "or":
            return f_or(*[self.f(x) for x in t[1]])
        if k == "pow":
            return f_or(f_eq(t[2]), self.f(t[1]))
        key = ("NE", repr(t))
        a = ("at", key, True)
        if key not in self.seen:
            self.seen.add(key)
            if k == "d":
                self.ax.append(f_or(f_not(a), self.f(t[2])))
                if t[2][0] not in ("re", "d"):
                    self.complex.add(key)
            elif k == "re":
                self.ax.append(f_or(f_not(self.p.nu(t)), a))
            else:
                self.complex.add(key)
        return a


def check_ne(c, W, st, v, t, what, where, budget=60):
    """on this path, v says that t is not empty"""
    cells = []
    facts = [(k, x) for k, x in st.at.items() if isinstance(k, tuple) and k[0] == "ne"]
    for z in [t] + [k[1] for k, _ in facts]:
        re_cells(W, st, z, cells)
    exp = {x for x in cells if W.expr(st, x) is not None and W.lang(st, x)[0] == "at" and not W.id(st, x).is_const()}
    p = Pivot(W, st, exp)
    n = NonEmpty(p)
    F = n.f(p.nf(t))
    con = [f_iff(n.f(p.nf(k[1])), x) for k, x in facts]
    if p.need and budget > 0:
        for s, _ in cases(st.fork(), p.need[0]):
            for s2 in nu_axioms(W, s, cells):
                if s2.num.feasible_with():
                    check_ne(c, W, s2, v, t, what, where, budget - 1)
        return
    sts = [st.fork()]
    for f in con + n.ax:
        sts = [s2 for s in sts for s2 in s.assume(f)]
    for s in sts:
        if s.num.feasible_with():
            c.prove(s, f_iff(F, v), what, where, exact=len(n.complex) <= 1)
    if not sts:
        c.prove(st, True, what, where)


def use(R, root=None):
    I = R.I

    def ne(st, t, pos):
        return [("ret", st, ("at", ("ne", t), pos))]

    def empty(I2, st, a, call):
        r = R.deref(I, st, a[1])
        return ne(st, L(r), False)

    def start(I2, st, a, call):
        r = R.deref(I, st, a[1])
        if r.c == root:
            return None
        return ne(st, ("d", a[2], L(r)), True)
    I.contracts[MG + "is_empty_re"] = empty
    I.contracts[MG + "start_char"] = start


WHAT = "start_char says whether a member starts with the character"


def starts(var, n):
    def f(c):
        R = Re(c, ["deriv", "char_derivative"])
        m = R.manager()
        e = R.node("e", var, n)
        use(R, e.c)
        x = chsym(R.I, R.st, "x")
        b, outs = R.run(RMP + "start_char", [m, e, x])
        for o in outs:
            if o[0] != "ret":
                c.no_panic(o, b.path)
                continue
            for s, v in cases(o[1], o[2]):
                for s2, cells in split_ranges(R.W, s, [L(e)]):
                    for s3 in nu_axioms(R.W, s2, cells):
                        if s3.num.feasible_with():
                            check_ne(c, R.W, s3, v, ("d", x, L(e)), WHAT, b.path)
    return f


for v_, n_ in [("Empty", None), ("Epsilon", None), ("Range", None), ("Concat", None), ("Loop", None), ("Complement", None)] + [(v, n) for v in ("Inter", "Union") for n in range(4)]:
    ob(P18, "start_char-" + (v_ if n_ is None else "%s-%d" % (v_, n_)))(starts(v_, n_))


@ob(P18, "start_class")
def o_start_class(c):
    R = Re(c, ["parts", "cache", "deriv", "char_derivative"])
    m = R.manager()
    e = R.re("e")
    use(R)
    i = R.I.intsym(R.st, "i", 0, 2 ** 60)
    er = [x["n"] for x in c.P.adts["crate::errors::Error"]["v"]]
    W = R.W
    for cid in (Agg("crate::character_sets::ClassId", 0, (i,)), Agg("crate::character_sets::ClassId", 1, ())):
        st = R.st.fork()
        x = chsym(R.I, st, "x")
        for s, v in cases(st, R.valid_f(st, e.c, cid)):
            if v:
                s.facts[("classof", e.c, cid)] = x
            b = c.fn(RMP + "start_class")
            for o in c.run(R.I, b, s, [m, e, cid]):
                if o[0] != "ret":
                    c.no_panic(o, b.path)
                    continue
                for s2, r in R.I.agg(o[1], o[2]):
                    if r.var == 0:
                        c.prove(s2, v, "start_class rejects an invalid class id", b.path)
                        if v:
                            for s3, w in cases(s2, r.f[0]):
                                check_ne(c, W, s3, w, ("d", x, L(e)), "start_class is the answer for every character of the class", b.path)
                    else:
                        for s3, ev in R.I.agg(s2, r.f[0]):
                            c.prove(s3, (not v) and er[ev.var] == "BadClassId", "start_class fails with BadClassId exactly on invalid class ids", b.path)
