"""C19: the derivative iterator enumerates the closure once; try_compile honours its bound."""
from graph import *
P19 = "C19"
RMP = "regular_expressions::ReManager::"
ROOTS = ["0c", "1c", "1n", "2n", "2c", "2c0", "1c0"]


def iter_ob(root, N, shapes):
    def f(c):
        R = Graph(c, N, shapes, root)
        I = R.I
        m = R.manager()
        it = c.fn(RMP + "iter_derivatives")
        nx = c.impl("std::iter::Iterator", "next", "DerivativeIterator")
        work = []
        for o in c.run(I, it, R.st, [m, R.root]):
            if o[0] != "ret":
                c.no_panic(o, it.path)
                continue
            work.append((o[1], ref(I, o[1], o[2], "it"), ()))
        while work:
            s, r, got = work.pop()
            if len(got) > N + 1:
                c.prove(s, False, "the iterator stops after the last derivative", nx.path)
                continue
            for o in c.run(I, nx, s, [r]):
                if o[0] != "ret":
                    c.no_panic(o, nx.path)
                    continue
                for s2, v in I.agg(o[1], o[2]):
                    if v.var == 0:
                        for s3, seen in R.settle(s2):
                            c.prove(s3, sorted(seen) == sorted(got), "every derivative is enumerated exactly once (%d of %d)" % (len(got), len(seen)), nx.path)
                            c.prove(s3, got[:1] == ("n0",), "the term itself comes first", nx.path)
                    else:
                        n = R.name(s2, v.f[0])
                        if n in got:
                            c.prove(s2, False, "no derivative is enumerated twice", nx.path)
                            continue
                        if not got:
                            c.prove(s2, n == "n0", "the term itself comes first", nx.path)
                        work.append((s2, r, got + (n,)))
    ob(P19, "iter-%s-%d" % (root, N))(f)


for r_ in ROOTS:
    iter_ob(r_, 3, ["0c", "1c", "2n"])
iter_ob("1c", 4, ["1c"])


def bound_ob(root, N, shapes, which):
    def f(c):
        R = Graph(c, N, shapes, root)
        I = R.I
        m = R.manager()
        if which == "compile":
            b, args = c.fn(RMP + "compile"), [m, R.root]
        else:
            n = I.intsym(R.st, "n", 0, 2 ** 64 - 1)
            b, args = c.fn(RMP + "try_compile"), [m, R.root, n]
        for o in c.run(I, b, R.st, args):
            for s0, seen in R.settle(o[1]):
                if o[0] != "ret":
                    c.no_panic(("panic", s0, o[2]), b.path, "compilation always succeeds")
                    continue
                if which == "compile":
                    res = [(s0, o[2])]
                else:
                    res = []
                    for s, v in I.agg(s0, o[2]):
                        c.prove(s, f_iff(v.var == 1, f_ge(n - len(seen))), "try_compile succeeds exactly when the number of derivatives is within the bound", b.path)
                        if v.var == 1:
                            res.append((s, v.f[0]))
                for s, a in res:
                    ar = ref(I, s, a, "aut")
                    for s2, v in calls(c, I, s, AUTO + "num_states", ar):
                        c.prove(s2, f_eq(v - len(seen)), "the automaton has one state for every distinct derivative", AUTO + "num_states")
    ob(P19, "%s-%s-%d" % (which, root, N))(f)


for r_ in ROOTS:
    for w_ in ("compile", "try_compile"):
        bound_ob(r_, 3 if r_[0] != "2" or r_ == "2n" else 2, ["0c", "1c"], w_)


# ---- compile has no bound, try_compile has the caller's (the bounded search by contract)
@ob(P19, "bounds-passed-on")
def o_bounds(c):
    for which in ("compile", "try_compile"):
        R = Re(c)
        I = R.I
        m = R.manager()
        e = R.re("e")
        k = I.intsym(R.st, "count", 1, 2 ** 62)
        n = I.intsym(R.st, "n", 0, 2 ** 64 - 1)
        inner = c.fn(RMP + "compile_with_bound", False)

        def search(I2, st, a, call):
            r = []
            for s, e2 in cases(st, f_le(k, a[2])):
                r.append(("ret", s, some(Term("automaton")) if e2 else NONE))
            return r
        I.contracts[inner.path] = search
        b = c.fn(RMP + which)
        for o in c.run(I, b, R.st, [m, e] + ([n] if which != "compile" else [])):
            if o[0] != "ret":
                c.no_panic(o, b.path, "compilation succeeds however many states are needed")
            elif which == "compile":
                c.prove(o[1], True, "compile returns", b.path)
            else:
                for s, v in I.agg(o[1], o[2]):
                    c.prove(s, f_iff(v.var == 1, f_le(k, n)), "try_compile uses the bound it is given", b.path)
