"""C13: AutomatonBuilder::build accepts exactly the complete deterministic specifications and keeps their transitions."""
from aut import *
P13 = "C13"


def interp13(c):
    return c.interp(peel=40, max_steps=2000000, exact_only=True)


class Build:
    """drives the builder through its public interface with symbolic keys and symbolic labels"""

    def __init__(self, c, nkeys):
        self.c = c
        self.I = interp13(c)
        self.st = St()
        self.keys = []
        for i in range(nkeys):
            k = self.I.intsym(self.st, "key%d" % i, 0, 2**32 - 1)
            for j in self.keys:
                if not self.st.assume(f_ne(k - j)):
                    pass
            self.keys.append(k)
        # distinct keys: ordered, without loss of generality for a map that only tests equality and hashes
        for p, q in zip(self.keys, self.keys[1:]):
            self.st.num.add_ge(q - p - 1)

    def kr(self, s, i):
        return ref(self.I, s, self.keys[i], "key")

    def label(self, nm):
        a, b = chsym(self.I, self.st, nm + ".start"), chsym(self.I, self.st, nm + ".end")
        self.st.num.add_ge(b - a)
        return a, b

    def start(self):
        out = []
        for s, v in calls(self.c, self.I, self.st, AB + "new", self.kr(self.st, 0)):
            out.append((s, ref(self.I, s, v, "builder")))
        return out

    def do(self, sts, fn, *args):
        """args: ('k', i) or ('l', (a, b))"""
        out = []
        for s, b in sts:
            vs = []
            for kind, x in args:
                vs.append(self.kr(s, x) if kind == "k" else ref(self.I, s, mk_charset(self.I, *x), "label"))
            out += [(s2, b) for s2, r in calls(self.c, self.I, s, AB + fn, b, *vs)]
        return out

    def build(self, sts):
        out = []
        for s, b in sts:
            for s2, v in calls(self.c, self.I, s, AB + "build", b):
                out += [(s3, b, w) for s3, w in self.I.agg(s2, v)]
        return out


def judge(c, B, s, res, spec, nkeys, what):
    """spec: key -> (transitions [(iv, target)], default or None, final)"""
    conflict = f_any(overlap(p, q) for tr, d, f in spec.values() for i, (p, t) in enumerate(tr) for q, u in tr[:i] if t != u)
    cov = {k: covers([iv for iv, t in tr]) for k, (tr, d, f) in spec.items()}
    complete = f_all(cov[k] if d is None else True for k, (tr, d, f) in spec.items())
    redundant = f_any(cov[k] for k, (tr, d, f) in spec.items() if d is not None)
    W = AB + "build"
    if res.var == 1:
        c.prove(s, f_or(conflict, f_or(f_not(complete), redundant)), "%s: a complete conflict-free specification is accepted" % what, W)
        return
    c.prove(s, f_not(conflict), "%s: conflicting labels are rejected" % what, W)
    c.prove(s, complete, "%s: an incomplete state is rejected" % what, W)
    for s2 in s.assume(f_and(f_not(conflict), complete)):
        if not s2.num.feasible_with():
            continue
        ar = ref(B.I, s2, res.f[0], "aut")
        check_delta(c, B.I, s2, ar, 0, {k: regions(tr, d) for k, (tr, d, f) in spec.items()}, {k: f for k, (tr, d, f) in spec.items()},
                    what, nkeys, sum(1 for k in spec if spec[k][2]))


def spec_ob(name, nkeys, plan, twice=None):
    """plan: list of ('t', state, target) | ('d', state, target) | ('f', state) | ('chain', state, [targets]) | ('b',) build"""
    def f(c):
        B = Build(c, nkeys)
        sts = B.start()
        spec = {k: ([], None, False) for k in range(nkeys)}
        ops = []
        n = 0
        labels = []
        for op in plan:
            if op[0] == "t":
                iv = B.label("l%d" % n)
                n += 1
                ops.append(("t", op[1], iv, op[2]))
            elif op[0] == "same":      # the label of an earlier transition once more
                ops.append(("t", op[1], [o for o in ops if o[0] == "t"][op[3]][2], op[2]))
            elif op[0] == "chain":     # adjacent labels that cover the alphabet
                lo = ZERO
                ts = op[2]
                for i, t in enumerate(ts):
                    hi = Lin(MAX) if i == len(ts) - 1 else chsym(B.I, B.st, "h%d" % i)
                    B.st.num.add_ge(hi - lo)
                    ops.append(("t", op[1], (lo, hi), t))
                    lo = hi + 1
            else:
                ops.append(op)
        sts = B.start()
        known = {0}
        for op in ops + [("b",)]:
            known |= {"t": {op[1], op[-1]}, "d": {op[1], op[-1]}, "f": {op[-1]}, "b": set()}[op[0]] if len(op) > 1 else set()
            if op[0] == "t":
                sts = B.do(sts, "add_transition", ("k", op[1]), ("l", op[2]), ("k", op[3]))
                tr, d, fin = spec[op[1]]
                spec[op[1]] = (tr + [(op[2], op[3])], d, fin)
            elif op[0] == "d":
                sts = B.do(sts, "set_default_successor", ("k", op[1]), ("k", op[2]))
                tr, d, fin = spec[op[1]]
                spec[op[1]] = (tr, op[2], fin)
            elif op[0] == "f":
                sts = B.do(sts, "mark_final", ("k", op[1]))
                tr, d, fin = spec[op[1]]
                spec[op[1]] = (tr, d, True)
            else:
                nxt = []
                for s, b, r in B.build(sts):
                    judge(c, B, s.fork(), r, {k: spec[k] for k in known}, len(known), name)
                    nxt.append((s, b))
                sts = nxt
    ob(P13, name)(f)


def dflts(ks):
    return [("d", k, k) for k in ks]


spec_ob("default-only", 2, [("d", 0, 1), ("d", 1, 1), ("f", 1)])
spec_ob("no-transition", 1, [("f", 0)])
spec_ob("one", 2, [("t", 0, 1)] + dflts([1]) + [("f", 1)])
spec_ob("one-self", 1, [("t", 0, 0)])
spec_ob("one-default", 2, [("t", 0, 1), ("d", 0, 0), ("f", 0), ("d", 1, 0)])
spec_ob("one-to-default", 2, [("t", 0, 1), ("d", 0, 1), ("d", 1, 1)])
for nm_, a_, b_ in (("AA", 1, 1), ("AB", 1, 2), ("SA", 0, 1), ("AS", 1, 0)):
    n_ = max(a_, b_) + 1
    rest_ = [("d", k, 0) for k in range(1, n_)]
    spec_ob("two-" + nm_, n_, [("t", 0, a_), ("t", 0, b_)] + rest_ + [("f", a_)])
    spec_ob("two-%s-default" % nm_, n_, rest_ + [("t", 0, a_), ("t", 0, b_), ("d", 0, 0), ("f", b_)])
    spec_ob("two-%s-default-A" % nm_, n_, [("t", 0, a_), ("d", 0, a_), ("t", 0, b_)] + rest_)
for nm_, ts_ in (("AAA", (1, 1, 1)), ("AAB", (1, 1, 0)), ("ABA", (1, 0, 1)), ("BAA", (0, 1, 1)), ("ABC", (0, 1, 2))):
    n_ = max(ts_) + 1
    rest_ = [("d", k, 0) for k in range(1, n_)]
    spec_ob("three-" + nm_, n_, [("t", 0, t) for t in ts_] + rest_ + [("f", 1)])
    spec_ob("three-%s-default" % nm_, n_, [("d", 0, 1)] + [("t", 0, t) for t in ts_] + rest_ + [("f", 0)])
for ts_ in ((0, 1), (1, 1, 0), (0, 1, 2), (1, 0, 1), (0, 1, 1, 0), (0, 1, 0, 2), (1, 1, 2, 2), (1, 2, 0, 1, 2), (0, 1, 2, 3), (1, 1, 1, 2, 2, 0)):
    n_ = max(ts_) + 1
    rest_ = [("d", k, 0) for k in range(1, n_)]
    nm_ = "".join(map(str, ts_))
    spec_ob("cover-" + nm_, n_, [("chain", 0, list(ts_))] + rest_ + [("f", n_ - 1)])
    spec_ob("cover-%s-reversed-others" % nm_, n_, [("f", 0)] + [("chain", k, list(ts_)) for k in range(min(n_, 2))] + [("d", k, 0) for k in range(2, n_)])
# the same label twice: same successor (no conflict), other successor (conflict)
spec_ob("same-label-same", 2, [("t", 0, 1), ("same", 0, 1, 0), ("d", 0, 0), ("d", 1, 1)])
spec_ob("same-label-other", 3, [("t", 0, 1), ("same", 0, 2, 0), ("d", 0, 0), ("d", 1, 1), ("d", 2, 2)])
spec_ob("same-label-default", 2, [("t", 0, 1), ("same", 0, 0, 0), ("d", 0, 0), ("d", 1, 1)])
# several states with transitions, a state mentioned only as a successor, an unreachable state
spec_ob("two-states", 2, [("t", 0, 1), ("d", 0, 0), ("t", 1, 0), ("d", 1, 1), ("f", 1)])
spec_ob("successor-only", 2, [("t", 0, 1), ("d", 0, 0), ("f", 0)])
spec_ob("unreachable", 3, [("d", 0, 0), ("t", 1, 2), ("d", 1, 0), ("d", 2, 2), ("f", 2)])
spec_ob("final-unreachable", 2, [("d", 0, 0), ("f", 1), ("d", 1, 1)])
spec_ob("final-twice", 3, [("f", 0), ("f", 1), ("f", 0), ("d", 0, 1), ("d", 1, 2), ("f", 2), ("d", 2, 2)])
spec_ob("default-changed", 3, [("d", 0, 1), ("d", 0, 2), ("t", 0, 1), ("d", 1, 1), ("d", 2, 2)])
spec_ob("default-changed-late", 3, [("d", 0, 1), ("t", 0, 1), ("d", 0, 2), ("d", 1, 1), ("d", 2, 2), ("f", 1)])
spec_ob("default-changed-back", 3, [("d", 0, 1), ("t", 0, 2), ("d", 0, 2), ("d", 0, 1), ("t", 0, 1), ("d", 1, 1), ("d", 2, 2), ("f", 1)])
spec_ob("default-after-transitions", 3, [("t", 0, 1), ("t", 0, 2), ("d", 1, 0), ("t", 1, 2), ("f", 2), ("d", 2, 2), ("d", 0, 1)])
# sequences with several calls of build
spec_ob("build-twice", 2, [("t", 0, 1), ("d", 0, 0), ("d", 1, 1), ("f", 1), ("b",), ("b",)])
spec_ob("build-twice-no-default", 2, [("t", 0, 1), ("t", 0, 1), ("d", 1, 1), ("b",)])
spec_ob("build-then-default", 2, [("t", 0, 1), ("d", 1, 1), ("b",), ("d", 0, 0)])
spec_ob("build-then-transition", 2, [("t", 0, 1), ("d", 0, 1), ("d", 1, 1), ("b",), ("t", 0, 0), ("f", 1)])
spec_ob("build-then-other-default", 3, [("t", 0, 1), ("d", 0, 1), ("d", 1, 1), ("d", 2, 2), ("b",), ("d", 0, 2)])
spec_ob("build-cover-then-state", 3, [("chain", 0, [1, 1, 0]), ("d", 1, 0), ("b",), ("t", 1, 2), ("d", 2, 2)])
