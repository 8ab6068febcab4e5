"""C04: minimize quotients by Nerode equivalence, for every transition structure of bounded size (successors, finality and labels symbolic)."""
from aut import *
from s_c14 import Sym, elems
P04 = "C04"


class Min(Sym):
    """an automaton whose states all have the same k symbolic classes; the compiled table is by contract (C14): columns are the classes"""

    def __init__(self, c, N, k, fixed=(), init=0, default=True, contract=True):
        self.k = k
        sh = {1: "1n", 2: "1c0" if default else "2n", 3: "2c0" if default else "3n"}[k]
        SHAPES.setdefault("3n", (3, False))
        Sym.__init__(self, c, [sh] * N, init=init, peel=400, max_steps=6000000)
        st = self.st
        for q in range(1, N):
            for a, b in zip(self.sets[q], self.sets[0]):
                st.num.add_eq(a[0] - b[0])
                st.num.add_eq(a[1] - b[1])
        self.delta = [self.succs[q] + ([self.dflt[q]] if self.dflt[q] is not None else []) for q in range(N)]
        for (q, j), t in dict(fixed).items():
            st.num.add_eq(self.delta[q][j] - t)
        if contract:
            A, T = "crate::automata::Automaton::", "crate::compact_tables::CompactTable::"
            k_ = self.I.contracts
            k_[A + "compile_successors"] = lambda I, s, a, call: [("ret", s, Term("table"))]
            k_[T + "eval"] = self.k_eval
            k_[T + "alphabet_size"] = lambda I, s, a, call: [("ret", s, Lin(k))]
            k_[T + "num_states"] = lambda I, s, a, call: [("ret", s, Lin(N))]

    def k_eval(self, I, st, a, call):
        out = []
        for s, q in self.split(st, a[1]):
            for j in range(self.k):
                for s2 in s.fork().assume(f_eq(a[2] - j)):
                    if s2.num.feasible_with():
                        out += [("ret", s3, Lin(t)) for s3, t in self.split(s2, self.delta[q][j])]
        return out

    def known(self, st, v):
        for i in range(self.N):
            if st.num.entails_eq(v - i):
                return i
        return None

    def distinguished(self, st):
        """pairs of states told apart by what the path knows"""
        N = self.N
        fin = [st.truth(f_ge(f - 1)) for f in self.fin]
        d = [[self.known(st, v) for v in self.delta[q]] for q in range(N)]
        dist = {(p, q) for p in range(N) for q in range(N) if None not in (fin[p], fin[q]) and fin[p] != fin[q]}
        while True:
            new = {(p, q) for p in range(N) for q in range(N) if (p, q) not in dist
                   and any(x is not None and y is not None and (x, y) in dist for x, y in zip(d[p], d[q]))}
            if not new:
                return dist
            dist |= new

    def settle(self, st):
        work = [st]
        for f in self.fin:
            work = [s2 for s in work for b in (0, 1) for s2 in s.fork().assume(f_eq(f - b)) if s2.num.feasible_with()]
        for q in range(self.N):
            for v in self.delta[q]:
                work = [s2 for s in work for s2, t in self.split(s, v)]
        return work


def check_min(c, S, st, ar):
    N = S.N
    what = "minimize"
    if len(S.distinguished(st)) == N * (N - 1) and same(c, S, st, ar):
        c.prove(st, True, "pairwise inequivalent states: the automaton is unchanged", AUTO + what)
        return
    for s in S.settle(st):
        dist = S.distinguished(s)
        cls = []
        rep = {}
        for q in range(N):
            r = next((p for p in cls if (p, q) not in dist), None)
            if r is None:
                cls.append(q)
                r = q
            rep[q] = r
        fin = {q: s.truth(f_ge(S.fin[q] - 1)) for q in cls}
        i = rep[S.known(s, S.init)]
        delta = {}
        for q in cls:
            delta[q] = [(reg, rep[S.known(s, v)]) for reg, v in S.regions(q)]
        check_delta(c, S.I, s, ar, i, delta, fin, what, len(cls), sum(1 for q in cls if fin[q]))


def same(c, S, st, ar):
    """the automaton still has state q in place q (a quick sufficient condition)"""
    I = S.I
    v, a = state_cell(I, st, ar)
    try:
        names = adt_names(c, "crate::automata::Automaton")
        d = dict(zip(names, a.f))
        o = dict(zip(names, S.value.f))
        return all(d[n] == o[n] for n in names) and all(I.rload(st, d["states"]) and x == y for x, y in
                                                         zip([w for s, w in I.rload(st, d["states"])], [w for s, w in I.rload(S.st, o["states"])]))
    except (KeyError, Unsupported):
        return False


def adt_names(c, path):
    return [n for n, t in c.P.adts[path]["v"][0]["f"]]


def min_ob(name, N, k, fixed=(), contract=True, init=0, tier="quick", default=True):
    def f(c):
        S = Min(c, N, k, fixed, init, default, contract)
        ar = S.ref(S.st)
        b = c.fn(AUTO + "minimize")
        for o in c.run(S.I, b, S.st, [ar]):
            if o[0] != "ret":
                c.no_panic(o, b.path)
                continue
            check_min(c, S, o[1], ar)
    ob(P04, name, tier=tier)(f)



def rows(name, N, k, base, over, **kw):
    """one obligation for every choice of the successors in over, on top of the fixed ones in base"""
    import itertools
    for ts in itertools.product(range(N), repeat=len(over)):
        fx = dict(base)
        fx.update(zip(over, ts))
        min_ob("%s-%s" % (name, "".join(map(str, ts))), N, k, fx, **kw)


chain = {(0, 0): 1, (1, 0): 2, (2, 0): 3, (3, 0): 3}
cycle = {(0, 0): 1, (1, 0): 2, (2, 0): 3, (3, 0): 0}
swap = {(0, 0): 1, (1, 0): 0, (2, 0): 3, (3, 0): 2}
down = {(0, 0): 0, (1, 0): 0, (2, 0): 1, (3, 0): 2}
min_ob("1x1", 1, 1)
min_ob("1x2", 1, 2)
min_ob("2x1", 2, 1)
min_ob("2x2", 2, 2)
min_ob("2x3", 2, 3)
min_ob("3x1", 3, 1)
min_ob("2x2-last-initial", 2, 2, init=1, default=False)
min_ob("2x2-table", 2, 2, contract=False)
min_ob("2x2-table-total", 2, 2, contract=False, default=False)
rows("4x1", 4, 1, {}, [(0, 0)])
rows("3x2", 3, 2, {}, [(0, 0), (2, 1)])
rows("4x2-chain", 4, 2, chain, [(1, 1)])
rows("4x2-cycle", 4, 2, cycle, [(1, 1)], tier="thorough")
rows("4x2-swap", 4, 2, swap, [(1, 1)], tier="thorough")
rows("4x2-down", 4, 2, down, [(1, 1)], tier="thorough")
rows("5x1-chain", 5, 1, {(1, 0): 0, (2, 0): 1}, [(0, 0)], tier="thorough")
