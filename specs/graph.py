"""Bounded derivative graphs: a few opaque terms, their classes and the derivatives between them, chosen lazily and consistently."""
from recon import *
import part, mir
from part import mk_agg, CP, CID

G = ("s", "graph")          # Agg("graph", 0, (number of nodes,))
SHAPES = {"0c": (0, True), "1c": (1, True), "1c0": (1, True), "1n": (1, False), "2n": (2, False), "2c": (2, True), "2c0": (2, True)}


class Graph(Re):
    def __init__(self, c, N, shapes, root, **kw):
        Re.__init__(self, c, [], peel=kw.pop("peel", 40), max_steps=kw.pop("max_steps", 3000000), **kw)
        self.N, self.shapes = N, shapes
        self.W.pairs = False
        self.manager()
        k = self.I.contracts
        for nm, f in (("class_derivative_unchecked", self.g_class), ("class_derivative", self.g_class_ok), ("set_derivative_unchecked", self.g_set),
                      ("set_derivative", self.g_set_ok), ("char_derivative", self.g_char), ("cached_deriv", self.g_class)):
            k[MG + nm] = f
        self.I.eq_hook = self.expr_eq
        for t, targs, b in c.P.impls.get(("std::cmp::PartialEq", "eq"), ()):
            if mir.base_ty(t).get("p") == BRL:
                k[b.path] = self.k_expr_eq
        for t, targs, b in c.P.impls.get(("std::clone::Clone", "clone"), ()):
            if mir.base_ty(t).get("p") == BRL:
                k[b.path] = self.k_expr_clone
        self.st.facts[("nn",)] = 0
        self.st, self.root = self.add(self.st, root)

    # ---- nodes
    def add(self, st, shape):
        i = st.facts[("nn",)]
        st.facts[("nn",)] = i + 1
        n = "n%d" % i
        st.facts[("shape", n)] = shape
        k, comp = SHAPES[shape]
        I = self.I
        cs = []
        for j in range(k):
            a, b = (chsym(I, st, "%s.%s%d" % (n, z, j)) for z in "ab")
            st.num.add_ge(b - a)
            if j:
                st.num.add_ge(a - cs[-1][1] - (1 if shape != "2c0" else 2))
            cs.append((a, b))
        if not comp or shape.endswith("0"):
            st.num.add_eq(cs[0][0])
        elif cs:
            st.num.add_ge(cs[0][0] - 1)
        if not comp:
            st.num.add_eq(cs[-1][1] - MAX)
            for x, y in zip(cs, cs[1:]):
                st.num.add_eq(y[0] - x[1] - 1)
            w = Lin(MAX + 1)
        else:
            w = cs[0][1] + 1 if shape.endswith("0") else ZERO
            st.num.add_ge(Lin(MAX) - w)
        r = self.W.new(st, n)
        st.mem[("s", "part:" + n)] = mk_agg(self.c.P, CP, {"list": Seq([("e", mk_charset(I, a, b)) for a, b in cs]), "comp_witness": w})
        f = list(st.mem[r.c].f)
        f[self.W.ix["id"]] = Lin(10 + 2 * i)
        st.mem[r.c] = Agg(RE, 0, f)
        st.note("node %s has shape %s" % (n, shape))
        return st, r

    def node(self, i):
        return Ref(("s", "re:n%d" % i))

    def name(self, st, v):
        r = self.deref(self.I, st, v)
        return r.c[1][3:]

    def classes(self, st, n):
        k, comp = SHAPES[st.facts[("shape", n)]]
        return list(range(k)) + (["c"] if comp else [])

    def ivs(self, st, n):
        q = st.mem[("s", "part:" + n)]
        for f in q.f:
            if isinstance(f, Seq):
                return [cs_fields(self.I, g[1]) for g in f.s]
        return []

    def nullable(self, n):
        return ("at", n + ".nullable", True)

    # ---- derivatives
    def succ(self, st, n, cls):
        """[(state, node name)]"""
        k = ("succ", n, cls)
        if k in st.facts:
            return [(st, st.facts[k])]
        if cls not in self.classes(st, n):
            return []
        out = []
        nn = st.facts[("nn",)]
        for i in range(nn):
            s = st.fork()
            s.facts[k] = "n%d" % i
            s.note("derivative of %s for class %s is n%d" % (n, cls, i))
            out.append((s, "n%d" % i))
        if nn < self.N:
            for sh in self.shapes:
                s = st.fork()
                s, r = self.add(s, sh)
                m = r.c[1][3:]
                s.facts[k] = m
                s.note("derivative of %s for class %s is the new term %s" % (n, cls, m))
                out.append((s, m))
        return out

    def known(self, st, n, cls):
        return st.facts.get(("succ", n, cls))

    def cell(self, m):
        return Ref(("s", "re:" + m))

    def g_class(self, I, st, a, call):
        n = self.name(st, a[1])
        out = []
        for s, cid in I.agg(st, a[2]):
            if cid.var == 1:
                if "c" not in self.classes(s, n):
                    out.append(("panic", s, ("assert", call["line"], "derivative for an empty class")))
                for s2, m in self.succ(s, n, "c"):
                    out.append(("ret", s2, self.cell(m)))
                continue
            k = SHAPES[s.facts[("shape", n)]][0]
            i = cid.f[0]
            for j in range(k):
                for s2, e in cases(s.fork(), f_eq(i - j)):
                    if e:
                        out += [("ret", s3, self.cell(m)) for s3, m in self.succ(s2, n, j)]
            for s2, e in cases(s, f_ge(i - k)):
                if e:
                    out.append(("panic", s2, ("assert", call["line"], "derivative for a class that does not exist")))
        return out

    def okay(self, outs):
        return [("ret", o[1], ok(o[2])) if o[0] == "ret" else o for o in outs]

    def g_class_ok(self, I, st, a, call):
        return self.okay(self.g_class(I, st, a, call))

    def g_set(self, I, st, a, call):
        n = self.name(st, a[1])
        lo, hi = cs_fields(I, self.W.charset(st, a[2]))
        return self.by_char(st, n, lo, hi, call)

    def g_set_ok(self, I, st, a, call):
        return self.okay(self.g_set(I, st, a, call))

    def g_char(self, I, st, a, call):
        n = self.name(st, a[1])
        return self.by_char(st, n, a[2], a[2], call)

    def by_char(self, st, n, lo, hi, call):
        out = []
        cur = [st]
        for j, (a, b) in enumerate(self.ivs(st, n)):
            nxt = []
            for s in cur:
                for s2, e in cases(s, f_and(f_le(a, lo), f_le(hi, b))):
                    if e:
                        out += [("ret", s3, self.cell(m)) for s3, m in self.succ(s2, n, j)]
                        continue
                    for s3, off in cases(s2, f_or(f_lt(hi, a), f_lt(b, lo))):
                        if off:
                            nxt.append(s3)
                        else:
                            out.append(("panic", s3, ("unwrap", call["line"], "the set overlaps several classes")))
            cur = nxt
        for s in cur:
            if s.num.feasible_with():
                out += [("ret", s3, self.cell(m)) for s3, m in self.succ(s, n, "c")]
        return out

    def k_expr_eq(self, I, st, a, call):
        v = []
        for x in a:
            while isinstance(x, Ref):
                w = I.rload(st, x)
                if len(w) != 1:
                    return None
                x = w[0][1]
            v.append(x)
        if all(isinstance(x, SymE) for x in v):
            return [("ret", st, v[0].n == v[1].n)]
        return None

    def k_expr_clone(self, I, st, a, call):
        w = I.rload(st, a[0])
        if all(isinstance(v, SymE) for s, v in w):
            return [("ret", s, v) for s, v in w]
        return None

    def expr_eq(self, I, st, x, y, ra, rb):
        if isinstance(x, SymE) and isinstance(y, SymE) and x.ty.get("p") == BRL and y.ty.get("p") == BRL:
            return [("ret", st, x.n == y.n)]
        return None

    # ---- the part of the graph reachable from the root through the derivatives known on this path
    def reach(self, st, root="n0"):
        seen, work, open_ = [root], [root], []
        while work:
            n = work.pop(0)
            for k in self.classes(st, n):
                m = self.known(st, n, k)
                if m is None:
                    open_.append((n, k))
                elif m not in seen:
                    seen.append(m)
                    work.append(m)
        return seen, open_

    def settle(self, st, root="n0"):
        """choose what the path has not asked for: [(state, reachable nodes)]"""
        out = []
        work = [st]
        while work:
            s = work.pop()
            seen, op = self.reach(s, root)
            if not op:
                out.append((s, seen))
                continue
            n, k = op[0]
            work += [s2 for s2, m in self.succ(s, n, k)]
        return out


# ---- automata returned by the compiler, seen through their public interface
AUTO = "automata::Automaton::"
STATE = "automata::State::"


def calls(c, I, st, fn, *args):
    b = c.fn(fn)
    out = []
    for o in c.run(I, b, st, list(args)):
        if o[0] != "ret":
            c.no_panic(o, b.path)
        else:
            out.append((o[1], o[2]))
    return out


def state_cell(I, st, v):
    """identity of a state: the reference itself"""
    while isinstance(v, Ref):
        w = I.rload(st, v)
        if len(w) != 1:
            raise Unsupported("state reference")
        if isinstance(w[0][1], Ref):
            v = w[0][1]
            continue
        return v, w[0][1]
    raise Unsupported("state %r" % (v,))


def same_state(c, I, st, x, y):
    out = []
    for s, a in calls(c, I, st, STATE + "id", x):
        for s2, b in calls(c, I, s, STATE + "id", y):
            out.append((s2, a, b))
    return out


def where_char(R, st, n, cls, tag):
    """a character of the class"""
    x = chsym(R.I, st, "x%s" % tag)
    iv = R.ivs(st, n)
    sts = [st]
    if cls == "c":
        for a, b in iv:
            sts = [s2 for s in sts for s2 in s.assume(f_or(f_lt(x, a), f_lt(b, x)))]
    else:
        a, b = iv[cls]
        sts = [s2 for s in sts for s2 in s.assume(f_and(f_le(a, x), f_le(x, b)))]
    return x, [s for s in sts if s.num.feasible_with()]


def check_automaton(c, R, st, aut, seen, what, root="n0"):
    """the automaton is the graph of derivatives: one state for each term, successors as the derivatives, final iff nullable"""
    I = R.I
    ar = ref(I, st, aut, "aut")
    for s, v in calls(c, I, st, AUTO + "num_states", ar):
        c.prove(s, f_eq(v - len(seen)), "%s: one state for every distinct derivative" % what, AUTO + "num_states")
    for s, q0 in calls(c, I, st, AUTO + "initial_state", ar):
        ids = {}
        work = [(s, {root: q0}, [root])]
        while work:
            s, mp, todo = work.pop()
            if not todo:
                # distinct terms have distinct states
                ns = list(mp)
                for i in range(len(ns)):
                    for j in range(i):
                        for s2, a, b in same_state(c, I, s.fork(), mp[ns[i]], mp[ns[j]]):
                            c.prove(s2, f_ne(a - b), "%s: distinct derivatives have distinct states" % what, AUTO + "next")
                tot = 0
                for n in ns:
                    tot = tot + 0
                for s2, v in calls(c, I, s, AUTO + "num_final_states", ar):
                    cur = [(s2, 0)]
                    for n in ns:
                        cur = [(s4, k + (1 if e else 0)) for s3, k in cur for s4, e in cases(s3, R.nullable(n))]
                    for s3, k in cur:
                        c.prove(s3, f_eq(v - k), "%s: num_final_states counts the final states" % what, AUTO + "num_final_states")
                continue
            n, todo = todo[0], todo[1:]
            for s2, fin in calls(c, I, s, STATE + "is_final", mp[n]):
                c.prove(s2, f_iff(fin, R.nullable(n)), "%s: a state is final exactly when its term is nullable" % what, STATE + "is_final")
                s = s2
            pend = [(s, mp, todo)]
            for k in R.classes(s, n):
                m = R.known(s, n, k)
                nxt = []
                for s1, mp1, td1 in pend:
                    x, sts = where_char(R, s1.fork(), n, k, "%s.%s" % (n, k))
                    done = False
                    for s2 in sts:
                        for s3, t in calls(c, I, s2, AUTO + "next", ar, mp1[n], x):
                            if m in mp1:
                                for s4, a, b in same_state(c, I, s3, t, mp1[m]):
                                    c.prove(s4, f_eq(a - b), "%s: the successor for a character is the state of the derivative" % what, AUTO + "next")
                                if not done:
                                    nxt.append((s1, mp1, td1))
                                    done = True
                            elif not done:
                                nxt.append((s3, dict(mp1, **{m: t}), td1 + [m]))
                                first = t
                                done = True
                            else:
                                for s4, a, b in same_state(c, I, s3, t, first):
                                    c.prove(s4, f_eq(a - b), "%s: all characters of a class have the same successor" % what, AUTO + "next")
                pend = nxt
            work += pend
