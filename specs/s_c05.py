"""C05: emptiness is the absence of a reachable nullable derivative; a witness spells a path to one."""
from graph import *
P05 = "C05"
RMP = "regular_expressions::ReManager::"


def some_nullable(R, seen):
    f = False
    for n in seen:
        f = f_or(f, R.nullable(n))
    return f


def empty_ob(root, N, shapes):
    def f(c):
        R = Graph(c, N, shapes, root)
        m = R.manager()
        b = c.fn(RMP + "is_empty_re")
        for o in c.run(R.I, b, R.st, [m, R.root]):
            if o[0] != "ret":
                c.no_panic(o, b.path)
                continue
            for s, e in cases(o[1], o[2]):
                for s2, seen in R.settle(s):
                    c.prove(s2, f_not(some_nullable(R, seen)) if e else some_nullable(R, seen), "is_empty_re holds exactly when no derivative is nullable", b.path)
    ob(P05, "is_empty_re-%s-%d" % (root, N))(f)


def walk(c, R, st, q, i, n, b):
    """follow the characters of the witness along the derivatives"""
    if i == len(q):
        c.prove(st, R.nullable(n), "the witness ends in a nullable derivative", b.path)
        return
    x = q[i]
    iv = R.ivs(st, n)
    c.prove(st, f_and(f_ge(x), f_le(x, Lin(MAX))), "the witness is a string of SMT characters", b.path)
    cur = [st]
    for j, (lo, hi) in enumerate(iv):
        nxt = []
        for s in cur:
            for s2, e in cases(s, f_and(f_le(lo, x), f_le(x, hi))):
                if e:
                    for s3, m in R.succ(s2, n, j):
                        walk(c, R, s3, q, i + 1, m, b)
                else:
                    nxt.append(s2)
        cur = nxt
    for s in cur:
        for s3, m in R.succ(s, n, "c"):
            walk(c, R, s3, q, i + 1, m, b)


def string_ob(root, N, shapes):
    def f(c):
        R = Graph(c, N, shapes, root)
        m = R.manager()
        b = c.fn(RMP + "get_string")
        for o in c.run(R.I, b, R.st, [m, R.root]):
            if o[0] != "ret":
                c.no_panic(o, b.path)
                continue
            for s, v in R.I.agg(o[1], o[2]):
                if v.var == 0:
                    for s2, seen in R.settle(s):
                        c.prove(s2, f_not(some_nullable(R, seen)), "get_string gives None only for an empty language", b.path)
                    continue
                q = str_seq(R.I, v.f[0])
                if any(g[0] != "e" for g in q.s):
                    c.undec.append("get_string: open result")
                    continue
                walk(c, R, s, [g[1] for g in q.s], 0, "n0", b)
    ob(P05, "get_string-%s-%d" % (root, N))(f)


for r_, N_, sh_ in (("0c", 3, ["0c", "1c", "2n"]), ("1c", 3, ["0c", "1c", "1n"]), ("1n", 3, ["1c", "2n"]), ("2n", 3, ["0c", "1c"]), ("2c", 3, ["0c", "1n"]), ("2c0", 3, ["0c", "1c0"]), ("1c0", 3, ["1c0", "2c0"]),
                    ("0c", 4, ["0c"]), ("1n", 5, ["1n"]), ("2n", 4, ["1n"])):
    empty_ob(r_, N_, sh_)
    string_ob(r_, N_, sh_)
