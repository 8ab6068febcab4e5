"""Sequences of queries on one manager: the answer to the second does not depend on the first (memo tables, cursors, buffers kept between calls)."""
from graph import *
from common import SS
import s_c05
RMP = "regular_expressions::ReManager::"
OPS = {"is_empty_re": "C05", "get_string": "C05", "try_compile": "C02", "iter_derivatives": "C19"}


def answer(c, R, m, op, b, s, v, n):
    """the answer v to op on the term n is right"""
    I = R.I
    if op == "is_empty_re":
        for s1, e in cases(s, v):
            for s2, seen in R.settle(s1, n):
                f = s_c05.some_nullable(R, seen)
                c.prove(s2, f_not(f) if e else f, "is_empty_re is right after other queries", b.path)
    elif op == "get_string":
        for s1, w in I.agg(s, v):
            if w.var == 0:
                for s2, seen in R.settle(s1, n):
                    c.prove(s2, f_not(s_c05.some_nullable(R, seen)), "get_string is right after other queries", b.path)
                continue
            q = str_seq(I, w.f[0])
            if any(g[0] != "e" for g in q.s):
                c.undec.append("get_string: open result")
                continue
            s_c05.walk(c, R, s1, [g[1] for g in q.s], 0, n, b)
    elif op == "try_compile":
        for s1, seen in R.settle(s, n):
            for s2, w in I.agg(s1, v):
                c.prove(s2, w.var == (1 if len(seen) <= R.N else 0), "try_compile is right after other queries", b.path)
                if w.var == 1:
                    check_automaton(c, R, s2, w.f[0], seen, "try_compile after other queries", n)
    else:
        nx = c.impl("std::iter::Iterator", "next", "DerivativeIterator")
        work = [(s, ref(I, s, v, "it"), ())]
        while work:
            s, r, got = work.pop()
            if len(got) > R.N + 1:
                c.prove(s, False, "the iterator stops", nx.path)
                continue
            for o in c.run(I, nx, s, [r]):
                if o[0] != "ret":
                    c.no_panic(o, nx.path)
                    continue
                for s2, w in I.agg(o[1], o[2]):
                    if w.var == 0:
                        for s3, seen in R.settle(s2, n):
                            c.prove(s3, sorted(seen) == sorted(got), "the derivatives enumerated are right after other queries", nx.path)
                    else:
                        work.append((s2, r, got + (R.name(s2, w.f[0]),)))


def pair(a, b, root, N, shapes):
    def f(c):
        R = Graph(c, N, shapes, root)
        m = R.manager()
        ba, bb = c.fn(RMP + a), c.fn(RMP + b)
        extra = lambda op: [Lin(N)] if op == "try_compile" else []
        for o in c.run(R.I, ba, R.st, [m, R.node(0)] + extra(a)):
            if o[0] != "ret":
                continue
            for s0, seen in R.settle(o[1]):
                for k in range(s0.facts[("nn",)]):
                    for o2 in c.run(R.I, bb, s0.fork(), [m, R.node(k)] + extra(b)):
                        if o2[0] != "ret":
                            c.no_panic(o2, bb.path)
                        else:
                            answer(c, R, m, b, bb, o2[1], o2[2], "n%d" % k)
    ob(OPS[b], "%s-then-%s-%s-%d" % (a, b, root, N))(f)


# ---- derivatives and membership: the derivative for a class by contract
def follow(c, R, st, x, n):
    """[(state, node)] of the derivative by the character x"""
    out, cur = [], [st]
    for j, (lo, hi) in enumerate(R.ivs(st, n)):
        nxt = []
        for s in cur:
            for s2, e in cases(s, f_and(f_le(lo, x), f_le(x, hi))):
                if e:
                    out += R.succ(s2, n, j)
                else:
                    nxt.append(s2)
        cur = nxt
    for s in cur:
        out += R.succ(s, n, "c")
    return out


def words(c, R, st, cs, n):
    cur = [(st, n)]
    for x in cs:
        cur = [r for s, m in cur for r in follow(c, R, s, x, m)]
    return cur


def derivs(prop, op, root, N, shapes, la, lb):
    def f(c):
        R = Graph(c, N, shapes, root)
        I = R.I
        m = R.manager()
        for nm in ("class_derivative_unchecked", "class_derivative", "set_derivative_unchecked", "set_derivative", "char_derivative"):
            del I.contracts[MG + nm]
        b = c.fn(RMP + op)
        xs = [chsym(I, R.st, "x%d" % i) for i in range(la)]
        ys = [chsym(I, R.st, "y%d" % i) for i in range(lb)]

        def args(st, cs, k, tag):
            if op == "char_derivative":
                return [m, R.node(k), cs[0]]
            t = ref(I, st, Agg(SS, 0, (Seq([("e", x) for x in cs]),)), tag)
            return [m, t, R.node(k)] if op == "str_in_re" else [m, R.node(k), t]
        for o in c.run(I, b, R.st, args(R.st, xs, 0, "w1")):
            if o[0] != "ret":
                continue
            for k in range(o[1].facts[("nn",)]):
                s0 = o[1].fork()
                for o2 in c.run(I, b, s0, args(s0, ys, k, "w2")):
                    if o2[0] != "ret":
                        c.no_panic(o2, b.path)
                        continue
                    for s, n in words(c, R, o2[1], ys, "n%d" % k):
                        if op == "str_in_re":
                            c.prove(s, f_iff(o2[2], R.nullable(n)), "str_in_re is right after another membership test", b.path)
                        else:
                            c.prove(s, R.name(s, o2[2]) == n, op + " is right after another derivative", b.path)
    ob(prop, "%s-twice-%s-%d-%d%d" % (op, root, N, la, lb))(f)


for r_, sh_ in (("1c", ["0c"]), ("1n", ["1n", "1c"]), ("2n", ["0c"])):
    derivs("C03", "char_derivative", r_, 3, sh_, 1, 1)
    derivs("C03", "str_derivative", r_, 3, sh_, 1, 2)
    derivs("C01", "str_in_re", r_, 3, sh_, 1, 1)
for r_, sh_ in (("1c", ["0c"]), ("1n", ["1n", "1c"])):
    derivs("C03", "str_derivative", r_, 3, sh_, 2, 1)
    derivs("C01", "str_in_re", r_, 3, sh_, 2, 1)
    derivs("C01", "str_in_re", r_, 3, sh_, 1, 2)
for p_, o_ in (("C01", "str_in_re"), ("C03", "str_derivative")):
    derivs(p_, o_, "1c", 3, ["0c"], 2, 2)
    derivs(p_, o_, "2n", 3, ["1n"], 2, 2)
    derivs(p_, o_, "1c", 4, ["1c"], 2, 2)


# MARK
for b_ in OPS:
    for a_ in OPS:
        if a_ == "iter_derivatives":
            continue        # lazy: nothing happens before next
        pair(a_, b_, "0c", 3, ["0c"])
        if b_ == a_:
            pair(a_, b_, "1c", 2, ["0c", "1c"])
        pair(a_, b_, "1c", 3, ["0c"])


# ---- start_char twice
import s_c18


def starts_twice(var, n):
    def f(c):
        R = Re(c, ["deriv", "char_derivative"])
        m = R.manager()
        e = R.node("e", var, n)
        s_c18.use(R, e.c)
        x, y = (chsym(R.I, R.st, z) for z in "xy")
        b = c.fn(s_c18.RMP + "start_char")
        for o in c.run(R.I, b, R.st, [m, e, x]):
            if o[0] != "ret":
                continue
            for o2 in c.run(R.I, b, o[1], [m, e, y]):
                if o2[0] != "ret":
                    c.no_panic(o2, b.path)
                    continue
                for s, v in cases(o2[1], o2[2]):
                    for s2, cells in split_ranges(R.W, s, [L(e)]):
                        for s3 in s_c18.nu_axioms(R.W, s2, cells):
                            if s3.num.feasible_with():
                                s_c18.check_ne(c, R.W, s3, v, ("d", y, L(e)), "start_char is right after another start_char", b.path)
    return f


for v_, n_ in [("Range", None), ("Concat", None), ("Loop", None), ("Complement", None), ("Inter", 2), ("Union", 2)]:
    ob("C18", "start_char-twice-" + (v_ if n_ is None else "%s-%d" % (v_, n_)))(starts_twice(v_, n_))
