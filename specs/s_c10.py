"""C10: replacement of regular-expression matches."""
from recon import *
from occ import *
P10 = "C10"
SR = "smt_regular_expressions::"


def setup(c, n, k):
    R = Re(c, ["char_derivative", "deriv"])
    R.manager()
    r = R.re("r")
    R.I.contracts["crate::regular_expressions::RE::is_empty"] = lambda I, st, a, call: [("ret", st, f_eq(R.W.id(st, R.deref(I, st, a[0]).c) - 2))]
    R.I.contracts[MG + "is_empty_re"] = lambda I, st, a, call: [("ret", st, ("at", ("ne", L(R.deref(I, st, a[1]))), False))]
    s, cs = text(R, "c", n)
    t, ts = text(R, "t", k)
    return R, r, s, cs, t, ts


def dead(W, p):
    """languages that the path knows to be empty"""
    out = []
    for c in p.st.mem:
        if isinstance(c[1], str) and c[1].startswith("re:") and isinstance(p.st.mem[c], Agg) and W.lang(p.st, c)[0] != "at":
            rid = W.id(p.st, c)
            if p.st.num.entails_eq(rid - 2):
                out.append(p.nf(W.lang(p.st, c)))
            elif W.variant(p.st, c) == W.vi["Empty"]:
                out.append(p.nf(W.lang(p.st, c)))
    out += [p.nf(k[1]) for k, v in p.st.at.items() if isinstance(k, tuple) and k[0] == "ne" and not v]
    return out


class Match:
    """membership of the factors of the text, read off the path (case splits where the path does not know)"""

    def __init__(self, R, st, r, cs):
        self.R, self.st, self.r, self.cs = R, st, r, cs
        self.p = Pivot(R.W, st, set())
        self.dead = dead(R.W, self.p)

    def get(self, i, j):
        t = L(self.r)
        p = self.p
        for x in self.cs[i:j]:
            t = ("d", x, t)
            z = p.nf(t)
            if z == EMPTY or any(p.same(z, d) for d in self.dead):
                return False
        z = p.nf(t)
        f = p.nu(z)
        v = self.st.truth(f)
        if v is None:
            raise Split(f)
        return v


class Split(Exception):
    def __init__(self, f):
        self.f = f


def axioms(R, st):
    cells = [c for c in st.mem if isinstance(c[1], str) and c[1].startswith("re:") and isinstance(st.mem[c], Agg)]
    return nu_axioms(R.W, st, cells)


def decide(R, st, r, cs, spec, use):
    """split st until the specification is determined"""
    work = axioms(R, st)
    while work:
        s = work.pop()
        if not s.num.feasible_with():
            continue
        try:
            w = spec(Match(R, s, r, cs))
        except Split as e:
            for s2, _ in cases(s.fork(), e.f):
                work += axioms(R, s2)
            continue
        use(s, w)


def first(M, n, i0, lo):
    for i in range(i0, n + 1):
        for j in range(i + lo, n + 1):
            if M.get(i, j):
                return i, j
    return None


def same_text(c, R, st, v, want, what, where):
    q = str_seq(R.I, v)
    got = []
    for g in q.s:
        if g[0] == "e":
            got.append(g[1])
            continue
        if g[0] == "s":
            n = R.W.fixed(st, g[3] - g[2])
            if n is not None:
                for k in range(n):
                    x = R.I.arr_elem(st, g[1], g[2] + k)
                    if len(x) != 1:
                        raise Unsupported("aliased text")
                    got.append(x[0][1])
                continue
        raise Unsupported("text %r" % (q,))
    if len(got) != len(want):
        c.prove(st, False, what, where)
    else:
        c.prove(st, f_and(*[f_eq(lin(a) - b) for a, b in zip(got, want)]), what, where)


def replace(n, k):
    def f(c):
        R, r, s, cs, t, ts = setup(c, n, k)
        b, outs = R.run(SR + "str_replace_re", [ref(R.I, R.st, s), r, ref(R.I, R.st, t)])

        def spec(M):
            m = first(M, n, 0, 0)
            return cs if m is None else cs[:m[0]] + ts + cs[m[1]:]
        for o in outs:
            if o[0] != "ret":
                c.no_panic(o, b.path)
                continue
            decide(R, o[1], r, cs, spec, lambda st, w: same_text(c, R, st, o[2], w, "str_replace_re replaces the leftmost shortest match", b.path))
    return f


def replace_all(n, k):
    def f(c):
        R, r, s, cs, t, ts = setup(c, n, k)
        b, outs = R.run(SR + "str_replace_re_all", [ref(R.I, R.st, s), r, ref(R.I, R.st, t)])

        def spec(M):
            out, i = [], 0
            while True:
                m = first(M, n, i, 1)
                if m is None:
                    return out + cs[i:]
                out += cs[i:m[0]] + ts
                i = m[1]
        for o in outs:
            if o[0] != "ret":
                c.no_panic(o, b.path)
                continue
            decide(R, o[1], r, cs, spec, lambda st, w: same_text(c, R, st, o[2], w, "str_replace_re_all replaces each leftmost shortest non-empty match", b.path))
    return f


@ob(P10, "is_empty")
def o_isempty(c):
    R = Re(c)
    e = R.re("e")
    b, outs = R.run("regular_expressions::RE::is_empty", [e])
    for o in outs:
        if o[0] != "ret":
            c.no_panic(o, b.path)
        else:
            c.prove(o[1], f_iff(o[2], f_eq(R.W.id(o[1], e.c) - 2)), "is_empty recognises the term of the empty language", b.path)


for n_ in range(5):
    for k_ in (0, 1, 2):
        if n_ == 4 and k_ != 1:
            continue
        ob(P10, "replace-%d-%d" % (n_, k_))(replace(n_, k_))
        ob(P10, "replace_all-%d-%d" % (n_, k_))(replace_all(n_, k_))
