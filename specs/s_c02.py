"""C02: the compiled automaton is the graph of derivatives, hence a total DFA of the language (with C03 and C01)."""
from graph import *
P02 = "C02"
RMP = "regular_expressions::ReManager::"


def comp_ob(root, N, shapes, which):
    def f(c):
        R = Graph(c, N, shapes, root)
        I = R.I
        m = R.manager()
        b = c.fn(RMP + which)
        args = [m, R.root] + ([Lin(N)] if which == "try_compile" else [])
        for o in c.run(I, b, R.st, args):
            if o[0] != "ret":
                c.no_panic(o, b.path)
                continue
            for s0, seen in R.settle(o[1]):
                if which == "compile":
                    check_automaton(c, R, s0, o[2], seen, which)
                else:
                    for s, v in I.agg(s0, o[2]):
                        if v.var == 1:
                            check_automaton(c, R, s, v.f[0], seen, which)
    ob(P02, "%s-%s-%d" % (which, root, N))(f)


for r_ in ("0c", "1c", "1c0", "1n", "2n"):
    comp_ob(r_, 3, ["0c", "1c"], "compile")
for r_ in ("2c", "2c0", "2n"):
    comp_ob(r_, 3, ["0c"], "compile")
    comp_ob(r_, 2, ["0c", "1c", "2n"], "compile")
comp_ob("1c", 2, ["0c", "1c", "1n"], "try_compile")
