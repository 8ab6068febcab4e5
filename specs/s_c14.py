"""C14: reachability pruning, combined alphabet, compiled successor table, edge and final-state iterators against next."""
from aut import *
from common import SS
P14 = "C14"
AUTP, STATEP = "crate::automata::Automaton", "crate::automata::State"


class Sym:
    """a complete automaton: shapes give the number of intervals of each state, bounds, finality and successors are symbolic"""

    def __init__(self, c, shapes, final=True, init=None, fixed=False, **kw):
        self.c, self.N, self.shapes = c, len(shapes), shapes
        kw.setdefault("peel", 60)
        self.I = I = c.interp(max_steps=kw.pop("max_steps", 3000000), exact_only=True, **kw)
        self.st = st = St()
        self.sets, self.succs, self.dflt, self.fin = [], [], [], []
        P = c.P
        states = []
        for q, sh in enumerate(shapes):
            k, comp = SHAPES[sh]
            cs = []
            for j in range(k):
                a, b = (chsym(I, st, "q%d.%s%d" % (q, z, j)) for z in "ab")
                st.num.add_ge(b - a)
                if j:
                    st.num.add_ge(a - cs[-1][1] - (1 if sh != "2c0" else 2))
                cs.append((a, b))
            if not comp or sh.endswith("0"):
                st.num.add_eq(cs[0][0])
            elif cs:
                st.num.add_ge(cs[0][0] - 1)
            if not comp:
                st.num.add_eq(cs[-1][1] - MAX)
                for x, y in zip(cs, cs[1:]):
                    st.num.add_eq(y[0] - x[1] - 1)
                w = Lin(MAX + 1)
            else:
                w = cs[0][1] + 1 if sh.endswith("0") else ZERO
                st.num.add_ge(Lin(MAX) - w)
            su = [I.intsym(st, "q%d.succ%d" % (q, j), 0, self.N - 1) for j in range(k)]
            d = I.intsym(st, "q%d.default" % q, 0, self.N - 1) if comp else None
            if fixed:
                su, d = [lin((q + j + 1) % self.N) for j in range(k)], (lin(q) if comp else None)
            f = I.intsym(st, "q%d.final" % q, 0, 1)
            self.sets.append(cs)
            self.succs.append(su)
            self.dflt.append(d)
            self.fin.append(f)
            part = mk_agg(P, CP, {"list": Seq([("e", mk_charset(I, a, b)) for a, b in cs]), "comp_witness": w})
            states.append(mk_agg(P, STATEP, {"id": Lin(q), "is_final": f_ge(f - 1), "classes": part, "successor": ref(I, st, Seq([("e", x) for x in su]), "successors"),
                                             "default_successor": NONE if d is None else some(d)}))
        nf = ZERO
        for f in self.fin:
            nf = nf + f
        self.init = lin(init) if init is not None else I.intsym(st, "initial", 0, self.N - 1)
        self.value = mk_agg(P, AUTP, {"num_states": Lin(self.N), "num_final_states": nf, "initial_state": self.init,
                                      "states": ref(I, st, Seq([("e", s) for s in states]), "states")})

    def ref(self, st):
        return self.hold(ref(self.I, st, self.value, "aut"))

    def hold(self, r):
        self.I.roots.add(r.c)
        return r

    def call(self, st, fn, *a):
        return calls(self.c, self.I, st, fn, *a)

    def split(self, st, v):
        """value of an index on this path: [(state, int)]"""
        out = []
        for i in range(self.N):
            for s in st.fork().assume(f_eq(v - i)):
                if s.num.feasible_with():
                    out.append((s, i))
        return out

    def state(self, st, ar, q):
        return self.call(st, AUTO + "state", ar, Lin(q))

    def regions(self, q):
        """[(formula of x, successor index)]"""
        return regions(list(zip(self.sets[q], self.succs[q])), self.dflt[q])

    def graph(self, st):
        """decide the initial state and the successors reachable from it: [(state, init, {q: [(reg, target)]})]"""
        out = []
        for s, i in self.split(st, self.init):
            work = [(s, {}, [i])]
            while work:
                s, d, todo = work.pop()
                todo = [q for q in todo if q not in d]
                if not todo:
                    out.append((s, i, d))
                    continue
                q = todo[0]
                pend = [(s, [])]
                for reg, v in self.regions(q):
                    pend = [(s3, l + [(reg, t)]) for s2, l in pend for s3, t in self.split(s2, v)]
                for s2, l in pend:
                    work.append((s2, dict(list(d.items()) + [(q, l)]), todo[1:] + [t for reg, t in l]))
        return out


def elems(c, v):
    """elements of a vector of known length"""
    if isinstance(v, Seq) and all(g[0] == "e" for g in v.s):
        return [g[1] for g in v.s]
    raise Unsupported("open result %r" % (v,))


def drain(S, st, it_v, path, lim=12):
    """all items of an iterator value: [(state, items)]"""
    c, I = S.c, S.I
    b = c.impl("std::iter::Iterator", "next", path)
    r = ref(I, st, it_v, "it")
    out = []
    work = [(st, [])]
    while work:
        s, l = work.pop()
        if len(l) > lim:
            c.undec.append("iterator %s does not end" % path)
            continue
        for o in c.run(I, b, s, [r]):
            if o[0] != "ret":
                c.no_panic(o, b.path)
                continue
            for s2, v in I.agg(o[1], o[2]):
                if v.var == 0:
                    out.append((s2, l))
                else:
                    work.append((s2, l + [v.f[0]]))
    return out


def ob14(name):
    return ob(P14, name)


def prune_ob(shapes):
    def f(c):
        S = Sym(c, shapes)
        ar = S.ref(S.st)
        for s, u in S.call(S.st, AUTO + "remove_unreachable_states", ar):
            for s2, i, d in S.graph(s):
                nf = ZERO
                for q in d:
                    nf = nf + S.fin[q]
                check_delta(c, S.I, s2, ar, i, d, {q: f_ge(S.fin[q] - 1) for q in d}, "remove_unreachable_states", len(d), nf)
    ob14("prune-" + "-".join(shapes))(f)


def edges_ob(shapes, q):
    def f(c):
        S = Sym(c, shapes)
        ar = S.ref(S.st)
        EI = "automata::EdgeIterator"
        for s, qs in S.state(S.st, ar, q):
            for s1, it in S.call(s, AUTO + "edges", ar, qs):
                for s2, l in drain(S, s1, it, EI):
                    c.prove(s2, len(l) == len(S.regions(q)), "edges lists one edge for every class of the state", AUTO + "edges")
                    # the successor for any character is the edge of its class, listed once
                    s3 = s2.fork()
                    x = chsym(S.I, s3, "x")
                    for s4, cid in S.call(s3, STATE + "class_of_char", qs, x):
                        for s5, t in S.call(s4, AUTO + "next", ar, qs, x):
                            hits = 0
                            for e in l:
                                ecid, et = e.f
                                for s6, e1 in S.I.agg(s5, ecid):
                                    same = cid_eq(S, s6, e1, cid)
                                    if same is None:
                                        c.undec.append("class id")
                                        continue
                                    if s6.truth(same) is True:
                                        hits += 1
                                        for s7, a, b in same_state(c, S.I, s6.fork(), et, t):
                                            c.prove(s7, f_eq(a - b), "the edge of a class leads to the successor of its characters", AUTO + "edges")
                                    elif s6.truth(same) is None:
                                        c.undec.append("class id")
                            c.prove(s5, hits == 1, "the class of every character has exactly one edge", AUTO + "edges")
    ob14("edges-%s-%d" % ("-".join(shapes), q))(f)


def cid_eq(S, st, a, b):
    l = S.I.agg(st, b)
    if len(l) != 1:
        return None
    b = l[0][1]
    if a.var != b.var:
        return False
    return f_eq(a.f[0] - b.f[0]) if a.f else True


def finals_ob(n):
    def f(c):
        S = Sym(c, ["0c"] * n)
        ar = S.ref(S.st)
        for s, it in S.call(S.st, AUTO + "final_states", ar):
            for s1, l in drain(S, s, it, "automata::FinalStateIterator"):
                for s2, k in S.call(s1, AUTO + "num_final_states", ar):
                    c.prove(s2, f_eq(k - len(l)), "final_states lists num_final_states states", AUTO + "final_states")
                ids = []
                cur = [(s1, [])]
                for t in l:
                    cur = [(s4, ids + [a]) for s2, ids in cur for s3, a in S.call(s2, STATE + "id", t) for s4 in [s3]]
                for s2, ids in cur:
                    for i, a in enumerate(ids):
                        for b in ids[:i]:
                            c.prove(s2, f_ne(a - b), "final_states lists every final state once", AUTO + "final_states")
                        for s3, q in S.split(s2.fork(), a):
                            c.prove(s3, f_ge(S.fin[q] - 1), "final_states lists only final states", AUTO + "final_states")
                nf = ZERO
                for z in S.fin:
                    nf = nf + z
                c.prove(s1, f_eq(nf - len(l)), "final_states lists all final states", AUTO + "final_states")
        for s, k in S.call(S.st, AUTO + "num_states", ar):
            c.prove(s, f_eq(k - n), "num_states is the number of states", AUTO + "num_states")
            for q in range(n):
                for s2, t in S.state(s, ar, q):
                    for s3, i in S.call(s2, STATE + "id", t):
                        c.prove(s3, f_eq(i - q), "state(i) has id i", AUTO + "state")
    ob14("finals-%d" % n)(f)


def combined_ob(shapes, fixed=False):
    def f(c):
        S = Sym(c, shapes, fixed=fixed)
        I = S.I
        ar = S.ref(S.st)
        for s, p in S.call(S.st, AUTO + "combined_char_partition", ar):
            s = s.fork()
            pr = S.hold(ref(I, s, p, "combined"))
            x, y = chsym(I, s, "x"), chsym(I, s, "y")
            for s1, cx in S.call(s, CPF + "class_of_char", pr, x):
                for s2, cy in S.call(s1, CPF + "class_of_char", pr, y):
                    for s3, ax in I.agg(s2, cx):
                        same = cid_eq(S, s3, ax, cy)
                        if same is None:
                            c.undec.append("class id")
                            continue
                        for s4 in s3.assume(same):
                            if not s4.num.feasible_with():
                                continue
                            for q in range(S.N):
                                for s5, qs in S.state(s4.fork(), ar, q):
                                    for s6, t in S.call(s5, AUTO + "next", ar, qs, x):
                                        for s7, u in S.call(s6, AUTO + "next", ar, qs, y):
                                            for s8, a, b in same_state(c, I, s7, t, u):
                                                c.prove(s8, f_eq(a - b), "characters of one class have the same successors", AUTO + "combined_char_partition")
    ob14("combined-" + "-".join(shapes))(f)


def alphabet_ob(shapes):
    def f(c):
        S = Sym(c, shapes)
        I = S.I
        ar = S.ref(S.st)
        for s, p in S.call(S.st, AUTO + "combined_char_partition", ar):
            for s0, v in S.call(s, AUTO + "pick_alphabet", ar):
                l = elems(c, v)
                s0 = s0.fork()
                pr = S.hold(ref(I, s0, p, "combined"))
                for a in l:
                    c.prove(s0, f_and(f_ge(a), f_le(a, Lin(MAX))), "pick_alphabet returns characters", AUTO + "pick_alphabet")
                x = chsym(I, s0, "x")
                for s1, cx in S.call(s0, CPF + "class_of_char", pr, x):
                    cur = [(s1, 0)]
                    for a in l:
                        nxt = []
                        for s2, k in cur:
                            for s3, ca in S.call(s2, CPF + "class_of_char", pr, a):
                                for s4, a4 in I.agg(s3, ca):
                                    same = cid_eq(S, s4, a4, cx)
                                    if same is None:
                                        c.undec.append("class id")
                                        continue
                                    for s5, e in cases(s4, same):
                                        nxt.append((s5, k + (1 if e else 0)))
                        cur = nxt
                    for s2, k in cur:
                        c.prove(s2, k == 1, "pick_alphabet has exactly one character of every class", AUTO + "pick_alphabet")
    ob14("alphabet-" + "-".join(shapes))(f)


def table_ob(shapes, fixed=False):
    def f(c):
        S = Sym(c, shapes, fixed=fixed)
        I = S.I
        ar = S.ref(S.st)
        CT = "compact_tables::CompactTable::"
        for s, t in S.call(S.st, AUTO + "compile_successors", ar):
            tr = S.hold(ref(I, s, t, "table"))
            for s0, v in S.call(s, AUTO + "pick_alphabet", ar):
                l = elems(c, v)
                for s1, n in S.call(s0, CT + "num_states", tr):
                    c.prove(s1, f_eq(n - S.N), "the table has one row for every state", CT + "num_states")
                for s1, n in S.call(s0, CT + "alphabet_size", tr):
                    c.prove(s1, f_eq(n - len(l)), "the table has one column for every class", CT + "alphabet_size")
                for q in range(S.N):
                    for i, x in enumerate(l):
                        for s1, z in S.call(s0.fork(), CT + "eval", tr, Lin(q), Lin(i)):
                            for s2, qs in S.state(s1, ar, q):
                                for s3, u in S.call(s2, AUTO + "next", ar, qs, x):
                                    for s4, a in S.call(s3, STATE + "id", u):
                                        c.prove(s4, f_eq(a - z), "the compiled successor is the id of next", AUTO + "compile_successors")
    ob14("table-" + "-".join(shapes) + ("-fixed" if fixed else ""))(f)


CPF = "character_sets::CharPartition::"

def rows_ob(name, N, A, rows, dflts):
    """the table builder: rows of ('*' all columns | list of concrete columns | int: that many symbolic columns)"""
    def f(c):
        I = c.interp(peel=200, max_steps=3000000, exact_only=True)
        st = St()
        S = Sym.__new__(Sym)
        S.c, S.I = c, I
        TB, CT = "compact_tables::CompactTableBuilder::", "compact_tables::CompactTable::"
        want = []
        lists = []
        for q, r in enumerate(rows):
            if isinstance(r, int):
                cols = []
                for j in range(r):
                    x = I.intsym(st, "q%d.col%d" % (q, j), 0, A - 1)
                    if cols:
                        st.num.add_ge(x - cols[-1] - 1)
                    cols.append(x)
            else:
                cols = [Lin(j) for j in (range(A) if r == "*" else r)]
            vals = [I.intsym(st, "q%d.val%d" % (q, j), 0, N - 1) for j in range(len(cols))]
            lists.append(list(zip(cols, vals)))
        ds = [I.intsym(st, "q%d.def" % q, 0, N - 1) if d else None for q, d in enumerate(dflts)]
        b0 = c.fn(TB + "new", public=False)
        sts = []
        for s, v in S.call(st, TB + "new", Lin(N), Lin(A)):
            sts.append((s, S.hold(ref(I, s, v, "builder"))))
        c.fn(TB + "set_default", public=False), c.fn(TB + "set_successors", public=False)
        for q in range(N):
            nxt = []
            for s, br in sts:
                l = [s] if ds[q] is None else [s2 for s2, u in S.call(s, TB + "set_default", br, Lin(q), ds[q])]
                for s2 in l:
                    sl = ref(I, s2, Seq([("e", Agg("tuple", 0, (x, y))) for x, y in lists[q]]), "row")
                    sl = Ref(sl.c, (("r", ZERO, Lin(len(lists[q]))),))
                    nxt += [(s3, br) for s3, u in S.call(s2, TB + "set_successors", br, Lin(q), sl)]
            sts = nxt
        for s, br in sts:
            for s1, t in S.call(s, TB + "build", br):
                tr = S.hold(ref(I, s1, t, "table"))
                for q in range(N):
                    for i in range(A):
                        cur = [(s1.fork(), None)]
                        for x, y in lists[q]:
                            cur = [(s3, (y if e else w) if w is None else w) for s2, w in cur for s3, e in cases(s2, f_eq(x - i))]
                        for s2, w in cur:
                            w = w if w is not None else ds[q]
                            if w is None or not s2.num.feasible_with():
                                continue
                            for s3, z in S.call(s2, CT + "eval", tr, Lin(q), Lin(i)):
                                c.prove(s3, f_eq(z - w), "eval gives the value stored for the state and the column, else the default", CT + "eval")
    ob14("rows-" + name)(f)


rows_ob("dense", 6, 4, ["*"] * 6, [0] * 6)
rows_ob("sparse", 3, 4, [1, 1, 1], [1] * 3)
rows_ob("pairs", 3, 3, [2, 1, 2], [1] * 3)
rows_ob("mixed", 4, 3, [1, "*", 0, 2], [1, 0, 1, 1])
rows_ob("alternating", 5, 5, [[0, 2, 4], [1, 3], [0, 2, 4], [1, 3], [0, 4]], [1] * 5)
rows_ob("single", 1, 1, [1], [0])
for sh_ in (["1c", "1c", "1c"], ["2c", "1c"]):
    combined_ob(sh_, True)
    alphabet_ob(sh_)
    table_ob(sh_, True)
table_ob(["2c0", "2n", "1c"], True)
table_ob(["2c", "1c0"], True)
table_ob(["2n", "2n", "2n"], True)
table_ob(["2n", "1n", "2c"], True)
for sh_ in (["0c"], ["0c", "0c", "0c"], ["1c", "0c"], ["1n", "1n", "1n"], ["1c", "1c0"], ["1n"] * 4, ["2n", "1n", "0c"], ["2c", "0c"]):
    prune_ob(sh_)
for sh_ in ("0c", "1c", "1c0", "1n", "2n", "2c", "2c0"):
    edges_ob([sh_, "0c"], 0)
for n_ in (1, 2, 3, 4, 5):
    finals_ob(n_)
for sh_ in (["0c"], ["1n"], ["2n"], ["2c"], ["1c", "1c"], ["1c", "2n"], ["2c0", "1c"], ["2n", "2n"], ["0c", "1c"], ["1c", "0c", "1c0"], ["2n", "1n", "2c"]):
    combined_ob(sh_)
    alphabet_ob(sh_)
    if sh_ != ["2n", "1n", "2c"]:
        table_ob(sh_)


# ---- stepping along strings, sets and classes agrees with next
def follow_word(S, st, q, xs):
    """[(state, index)] reached from state q along the characters xs"""
    cur = [(st, q)]
    for x in xs:
        nxt = []
        for s, p in cur:
            for reg, v in S.regions(p):
                for s2 in s.fork().assume(inside_reg(reg, x)):
                    if s2.num.feasible_with():
                        nxt += S.split(s2, v)
        cur = nxt
    return cur


def inside_reg(reg, x):
    return reg(x) if callable(reg) else reg


def word_ob(shapes, n, fn):
    def f(c):
        S = Sym(c, shapes)
        I = S.I
        ar = S.ref(S.st)
        xs = [chsym(I, S.st, "x%d" % i) for i in range(n)]
        w = S.hold(ref(I, S.st, Agg(SS, 0, (Seq([("e", x) for x in xs]),)), "w"))
        W = AUTO + fn
        if fn == "accepts":
            for s, v in S.call(S.st, W, ar, w):
                for s1, i in S.split(s, S.init):
                    for s2, q in follow_word(S, s1, i, xs):
                        c.prove(s2, f_iff(v, f_ge(S.fin[q] - 1)), "accepts says whether the state reached along the string is final", W)
            return
        for k in range(S.N):
            for s, qs in S.state(S.st.fork(), ar, k):
                for s1, t in S.call(s, W, ar, qs, w):
                    for s2, tid in calls(c, I, s1, STATE + "id", t):
                        for s3, q in follow_word(S, s2, k, xs):
                            c.prove(s3, f_eq(tid - q), "str_next is next along the string", W)
    ob14("%s-%s-%d" % (fn, "-".join(shapes), n))(f)


for fn_ in ("str_next", "accepts"):
    word_ob(["1c", "2n"], 0, fn_)
    word_ob(["1c", "2n"], 1, fn_)
    word_ob(["1c", "1n"], 2, fn_)
    word_ob(["1c0", "0c"], 2, fn_)
    word_ob(["2n", "1n"], 2, fn_)
    word_ob(["1n", "1n", "1n"], 3, fn_)
    word_ob(["1c", "1n"], 3, fn_)
word_ob(["1n", "1n"], 6, "accepts")


def class_ob(shapes):
    def f(c):
        S = Sym(c, shapes)
        I = S.I
        ar = S.ref(S.st)
        CI = "crate::character_sets::ClassId"
        for k in range(S.N):
            for s, qs in S.state(S.st.fork(), ar, k):
                # class by class
                for j, t in list(enumerate(S.succs[k])) + ([("c", S.dflt[k])] if S.dflt[k] is not None else []):
                    cid = Agg(CI, 1, ()) if j == "c" else Agg(CI, 0, (Lin(j),))
                    for s1, u in S.call(s.fork(), AUTO + "class_next", ar, qs, cid):
                        for s2, tid in calls(c, I, s1, STATE + "id", u):
                            c.prove(s2, f_eq(tid - t), "class_next is the successor for the characters of the class", AUTO + "class_next")
                # valid class ids are those classes
                m = I.intsym(s, "m%d" % k, 0, 2 ** 62)
                for cid, good in ((Agg(CI, 0, (m,)), f_lt(m, Lin(len(S.sets[k])))), (Agg(CI, 1, ()), S.dflt[k] is not None)):
                    for s1, v in S.call(s.fork(), STATE + "valid_class_id", qs, cid):
                        c.prove(s1, f_iff(v, good), "valid_class_id holds exactly for the classes of the state", STATE + "valid_class_id")
                for s1, v in S.call(s.fork(), AUTO + "default_successor", ar, qs):
                    for s2, o in I.agg(s1, v):
                        c.prove(s2, o.var == (S.dflt[k] is not None), "a default successor exists exactly when the intervals leave characters", AUTO + "default_successor")
                        if o.var == 1 and S.dflt[k] is not None:
                            for s3, tid in calls(c, I, s2, STATE + "id", o.f[0]):
                                c.prove(s3, f_eq(tid - S.dflt[k]), "default_successor is the successor of the complementary class", AUTO + "default_successor")
    ob14("class_next-" + "-".join(shapes))(f)


class_ob(["1c", "2n"])
class_ob(["2c", "0c", "1n"])


def set_ob(shapes):
    def f(c):
        S = Sym(c, shapes)
        I = S.I
        ar = S.ref(S.st)
        a, b = chsym(I, S.st, "a"), chsym(I, S.st, "b")
        S.st.num.add_ge(b - a)
        r = S.hold(ref(I, S.st, mk_charset(I, a, b), "set"))
        W = AUTO + "char_set_next"
        for s, qs in S.state(S.st, ar, 0):
            for s1, v in S.call(s, W, ar, qs, r):
                iv = S.sets[0]
                within = [f_and(f_le(x, a), f_le(b, y)) for x, y in iv]
                apart = f_all(f_or(f_lt(b, x), f_lt(y, a)) for x, y in iv)
                for s2, o in I.agg(s1, v):
                    if o.var == 1:
                        c.prove(s2, f_not(f_or(f_any(within), apart)), "char_set_next fails only for a set that meets two classes", W)
                        continue
                    for f, t in list(zip(within, S.succs[0])) + ([(apart, S.dflt[0])] if S.dflt[0] is not None else []):
                        for s3 in s2.fork().assume(f):
                            if s3.num.feasible_with():
                                for s4, tid in calls(c, I, s3, STATE + "id", o.f[0]):
                                    c.prove(s4, f_eq(tid - t), "char_set_next is the successor for every character of the set", W)
                    c.prove(s2, f_or(f_any(within), apart), "char_set_next succeeds only for a set inside a class", W)
    ob14("char_set_next-" + "-".join(shapes))(f)


for sh_ in (["1c", "0c"], ["2n", "0c"], ["2c", "0c"], ["2c0", "0c"], ["1n", "0c"], ["0c", "0c"]):
    set_ob(sh_)
