"""Language-valued abstract domain for regular expressions.

A RegLan is a pointer to a cell holding the fields of RE plus the language it denotes.  Languages are terms (tuples) over the languages of
opaque REs; a claim "these two language terms are equal" is decided by normal forms under the facts of the path (range bounds, nullable flags,
which REs are the same object or each other's complement, structure revealed by matches).  A claim that the normal forms do not settle is a
violation only when the terms evaluate to different languages for some choice of the opaque languages that satisfies every fact of the path
(words up to a small length over a small alphabet, on which all the operators used are computed exactly)."""
import itertools, random, time
from common import *
import re as _re
import maps

RX = "crate::regular_expressions::"
RE, BRL, RM = RX + "RE", RX + "BaseRegLan", RX + "ReManager"
REF_TY = {"k": "ref", "e": {"k": "adt", "p": RE, "a": []}, "m": False}
FIELDS = ["expr", "id", "nullable", "singleton", "simple_pattern", "deriv_class"]
VARS = ["Empty", "Epsilon", "Range", "Concat", "Loop", "Complement", "Union", "Inter"]
HMAX = 2 ** 40
NH = "re:pairs"

EMPTY, EPS = ("0",), ("1",)
SIGMA = ("rng", ZERO, Lin(MAX))
FULL = ("pow", SIGMA, ZERO, None)


def cat(*a):
    return ("cat", tuple(a))


def orr(*a):
    return ("or", tuple(a))


def andd(*a):
    return ("and", tuple(a))


def notl(a):
    return ("not", a)


def powr(a, lo, hi):
    return ("pow", a, lin(lo), None if hi is None else lin(hi))


def L(ref):
    return ("re", ref.c)


def deriv(x, t):
    return ("d", x, t)


SPECIAL = {0: SIGMA, 2: EMPTY, 3: FULL, 4: EPS, 5: ("pow", SIGMA, ONE, None)}


class World:
    """RE cells, symbolic or produced by a contract"""

    def __init__(self, c, I):
        self.c, self.I = c, I
        P = c.P
        a = P.adts.get(RE)
        names = [n for n, t in a["v"][0]["f"]] if a else []
        if not set(FIELDS) <= set(names):
            raise Skip("RE representation changed")
        self.extra = {n: t for n, t in a["v"][0]["f"] if n not in FIELDS}
        self.names = names
        self.ix = {n: i for i, n in enumerate(names)}
        b = P.adts.get(BRL)
        if not b or sorted(v["n"] for v in b["v"]) != sorted(VARS):
            raise Skip("BaseRegLan representation changed")
        self.vn = [v["n"] for v in b["v"]]
        self.vi = {n: i for i, n in enumerate(self.vn)}
        m = P.adts.get(RM)
        want = ["deriv_cache", "empty", "epsilon", "id2re", "sigma", "sigma_plus", "sigma_star", "store"]
        self.mnames = [n for n, t in m["v"][0]["f"]] if m else []
        if not set(want) <= set(self.mnames):
            raise Skip("ReManager representation changed")
        self.mextra = {n: t for n, t in m["v"][0]["f"] if n not in want}
        I.world = self
        I.symhooks["&" + RE] = self.hook
        I.expand_hook = self.chosen
        I.kinds[NH] = "x"
        self.k = 0
        self.init = None
        self.pairs = True       # ids are indices of id2re

    # ---- construction
    def hook(self, I, st, ty, name):
        c = ("s", "re:" + name)
        if c not in st.mem:
            self.new(st, name)
        return Ref(c)

    def new(self, st, name, expr=None, lang=None, rid=None, nullable=None):
        I = self.I
        c = ("s", "re:" + name)
        nh = I.intsym(st, NH, 3, HMAX)
        if rid is None:
            h = I.intsym(st, name + ".h", 0, HMAX)
            s = I.intsym(st, name + ".odd", 0, 1)
            if self.pairs:
                st.num.add_ge(nh - h - 1)
            rid = h * 2 + s
        ety = {"k": "adt", "p": BRL, "a": []}
        d = {"expr": expr if expr is not None else SymE(ety, name + ".expr"), "id": rid,
             "nullable": ("at", name + ".nullable", True) if nullable is None else nullable,
             "singleton": ("at", name + ".singleton", True), "simple_pattern": ("at", name + ".simple", True),
             "deriv_class": Ref(("s", "part:" + name))}
        st.mem[("s", "part:" + name)] = Term("part", ("re", c))
        for n, t in self.extra.items():
            d[n] = Term("field", "%s.%s" % (name, n))
        st.mem[c] = Agg(RE, 0, [d[n] for n in self.names] + [Term("lang", lang if lang is not None else ("at", name))])
        return Ref(c)

    def fresh(self, st, lang, base="t", expr=None):
        self.k += 1
        return self.new(st, "%s#%d" % (base, self.k), lang=lang, expr=expr)

    def special(self, st, rid):
        """sigma, empty, sigma_star, epsilon, sigma_plus"""
        nm = {0: "sigma", 2: "empty", 3: "sigma_star", 4: "epsilon", 5: "sigma_plus"}[rid]
        c = ("s", "re:" + nm)
        if c not in st.mem:
            ag = lambda v, *a: Agg(BRL, self.vi[v], a)
            sg = mk_charset(self.I, ZERO, Lin(MAX))
            ex = {0: lambda: ag("Range", sg), 2: lambda: ag("Empty"), 4: lambda: ag("Epsilon"),
                  3: lambda: ag("Loop", self.special(st, 0), mk_range(self.I, ZERO, None)),
                  5: lambda: ag("Loop", self.special(st, 0), mk_range(self.I, ONE, None))}[rid]()
            self.new(st, nm, expr=ex, lang=SPECIAL[rid], rid=Lin(rid), nullable=rid in (3, 4))
            st.mem[("s", "part:" + nm)] = Term("part", ("re", c))
        return Ref(c)

    def manager(self, st, name="m"):
        I = self.I
        nh = I.intsym(st, NH, 3, HMAX)

        def elem(I2, s, i):
            for k in SPECIAL:
                if i == Lin(k):
                    return [(s, self.special(s, k))]
            r = self.new(s, "id2re[%r]" % (i,), rid=i)
            if ("id", repr(i)) not in s.facts:
                # id = 2 pair + parity
                out = []
                h = I.intsym(s, "id2re[%r].h" % (i,), 0, HMAX)
                o = I.intsym(s, "id2re[%r].odd" % (i,), 0, 1)
                s.num.add_eq(i - h * 2 - o)
                s.num.add_ge(nh - h - 1)
            return [(s, r)]
        arr = SymArr("id2re", None, elem, fork_eq=False)
        d = {"store": Term("store"), "id2re": arr_seq(arr, nh * 2), "deriv_cache": maps.new_map("cache"),
             "sigma": self.special(st, 0), "empty": self.special(st, 2), "sigma_star": self.special(st, 3),
             "epsilon": self.special(st, 4), "sigma_plus": self.special(st, 5)}
        for n, t in self.mextra.items():
            d[n] = self.unknown_field(st, t, "%s.%s" % (name, n))
        return ref(I, st, Agg(RM, 0, [d[n] for n in self.mnames]), name)

    def unknown_field(self, st, t, name):
        """a field the specification does not know: any number; other fields as `new` sets them; otherwise unknown"""
        if t["k"] == "int":
            return self.I.mk_sym(st, t, name)
        v = self.initial(st).get(name.rsplit(".", 1)[1])
        return Term("field", name) if v is None else v

    def initial(self, st):
        """the other fields of a new manager: empty collections and None"""
        if self.init is None:
            self.init = {}
            I = self.I
            b = I.P.bodies.get(RM + "::new")
            mk = [x for x in I.P.bodies if x.endswith("store::Store::<T>::make")]
            if b is None or not mk:
                return self.init
            old = dict(I.contracts)

            def make(I2, s, a, call):
                k = s.facts.get(("made",), 0)
                s.facts[("made",)] = k + 1
                return [("ret", s, self.special(s, k) if k in SPECIAL else self.new(s, "made%d" % k, rid=Lin(k)))]
            I.contracts[mk[0]] = make
            try:
                outs = I.call_body(st.fork(), b, [], 0)
                outs = [o for o in outs if o[0] == "ret"]
                if len(outs) == 1 and isinstance(outs[0][2], Agg):
                    for n, v in zip(self.mnames, outs[0][2].f):
                        if n in self.mextra and (isinstance(v, Agg) and v.k == maps.HM and not v.f[0].s or isinstance(v, Seq) and not v.s or isinstance(v, Agg) and not v.f):
                            self.init[n] = v
            except (Unsupported, Skip, RecursionError):
                pass
            finally:
                I.contracts.clear()
                I.contracts.update(old)
                I.side_outcomes = []
        return self.init

    # ---- access
    def get(self, st, c, f):
        a = st.mem[c]
        return a.f[self.ix[f]]

    def lang(self, st, c):
        return st.mem[c].f[len(self.names)].a[0]

    def id(self, st, c):
        return self.get(st, c, "id")

    def expr(self, st, c):
        """the AST node when it is known: (variant name, fields)"""
        e = self.get(st, c, "expr")
        if isinstance(e, SymE):
            k = st.ch.get(e.n)
            if k is None:
                return None
            e = self.I.mk_variant(st, e.ty, e.n, k)
        if self.vn[e.var] in ("Union", "Inter"):
            try:
                self.items(st, e.f[0])
            except Unsupported:
                return None         # operands of unknown number: opaque
        return self.vn[e.var], e.f

    def variant(self, st, c):
        e = self.get(st, c, "expr")
        return st.ch.get(e.n) if isinstance(e, SymE) else e.var

    def node(self, st, v, f):
        """language of an AST node"""
        if v == "Empty":
            return EMPTY
        if v == "Epsilon":
            return EPS
        if v == "Range":
            lo, hi = cs_fields(self.I, self.charset(st, f[0]))
            return ("rng", lo, hi)
        if v == "Concat":
            return cat(("re", f[0].c), ("re", f[1].c))
        if v == "Loop":
            lo, hi = range_parts(self.I, st, f[1])
            return ("pow", ("re", f[0].c), lo, hi)
        if v == "Complement":
            return notl(("re", f[0].c))
        q = self.items(st, f[0])
        return ("or" if v == "Union" else "and", tuple(q))

    def charset(self, st, v):
        while isinstance(v, Ref):
            v = self.I.rload(st, v)[0][1]
        return v

    def items(self, st, v):
        """languages of the elements of a list of REs"""
        while isinstance(v, Ref):
            r = self.I.rload(st, v)
            if len(r) != 1:
                raise Unsupported("list of REs")
            v = r[0][1]
        return self.seq_langs(st, v)

    def seq_langs(self, st, q):
        out = []
        for g in q.s:
            if g[0] == "e":
                out.append(("re", g[1].c))
            elif g[0] == "t" and g[1].op == "flat":
                out.append(g[1].a[1])
            elif g[0] == "s":
                n = self.fixed(st, g[3] - g[2])
                if n is None:
                    raise Unsupported("list of REs of unknown length")
                for k in range(n):
                    r = self.I.arr_elem(st, g[1], g[2] + k)
                    if len(r) != 1:
                        raise Unsupported("aliased list")
                    out.append(("re", r[0][1].c))
            else:
                raise Unsupported("list of REs %r" % (q,))
        return out

    def fixed(self, st, n):
        """value of an integer term that the path determines"""
        k = n.c
        for m, a in n.t:
            b = st.num.bnd.get(m[0]) if len(m) == 1 else None
            if b is None or b[0] is None or b[0] != b[1]:
                return None
            k += a * b[0]
        return k

    # ---- facts that follow from the choice of a variant (hash-consing, id layout, normal form of ASTs)
    def chosen(self, I, st, v, var):
        if not (isinstance(v, SymE) and v.ty.get("p") == BRL):
            return True
        nm = v.n[:-5]
        c = ("s", "re:" + nm)
        if c not in st.mem:
            return True
        rid = self.id(st, c)
        vn = self.vn[var]
        num = st.num
        ok = True
        if vn == "Empty":
            return num.add_eq(rid - 2)
        if vn == "Epsilon":
            return num.add_eq(rid - 4)
        ok = ok and num.add_ne(rid - 2) and num.add_ne(rid - 4)
        if vn in ("Concat", "Union", "Inter"):
            ok = ok and num.add_ge(rid - 6) and self.even(st, rid)
        elif vn == "Complement":
            a = I.mk_variant(st, v.ty, v.n, var)
            sub = self.id(st, a.f[0].c)
            ok = ok and num.add_eq(rid - sub - 1) and num.add_ne(rid - 3) and num.add_ne(rid - 5) and self.odd(st, rid)
        elif vn == "Range":
            a = I.mk_variant(st, v.ty, v.n, var)
            ok = ok and self.even(st, rid)
            lo, hi = cs_fields(I, a.f[0])
            if st.num.entails_eq(rid):
                ok = ok and num.add_eq(lo) and num.add_eq(hi - MAX)
            elif st.num.entails_ne(rid):
                ok = ok and num.add_ge(lo + (MAX - 1) - hi)
        elif vn == "Loop":
            a = I.mk_variant(st, v.ty, v.n, var)
            num.add_ne(rid)
            num.add_ne(rid - 1)
            r = a.f[1]
            sub = self.id(st, a.f[0].c)
            # loops are over neither the empty set nor epsilon; trivial ranges are never built
            ok = ok and num.add_ne(sub - 2) and num.add_ne(sub - 4)
            if st.num.entails_eq(rid - 3) or st.num.entails_eq(rid - 5):
                ok = ok and num.add_eq(sub)
            hi = range_hi_sym(I, r)
            if hi is not None:
                # [0,0] and [1,1] are never built
                st.facts[("loopinv", nm)] = True
        return ok and st.num.feasible_with()

    def even(self, st, rid):
        if len(rid.t) == 2:
            o = [m for m, k in rid.t if k == 1]
            if len(o) == 1:
                return st.num.add_eq(Lin(0, ((o[0], 1),)))
        return True

    def odd(self, st, rid):
        if len(rid.t) == 2:
            o = [m for m, k in rid.t if k == 1]
            if len(o) == 1:
                return st.num.add_eq(Lin(-1, ((o[0], 1),)))
        return True


def mk_range(I, lo, hi):
    return Agg(LR, 0, (lin(lo), NONE if hi is None else some(lin(hi))))


def range_hi_sym(I, r):
    return r.f[1] if isinstance(r, Agg) else None


def range_parts(I, st, r):
    """(lo, hi or None) of a LoopRange value whose upper bound has been decided"""
    while isinstance(r, Ref):
        r = I.rload(st, r)[0][1]
    hi = r.f[1]
    if isinstance(hi, SymE):
        k = st.ch.get(hi.n)
        if k is None:
            raise NeedSplit(hi)
        hi = I.mk_variant(st, hi.ty, hi.n, k)
    return r.f[0], (hi.f[0] if hi.var == 1 else None)


class NeedSplit(Exception):
    def __init__(self, v):
        self.v = v


# ------------------------------------------------------------------ normal forms
class Pivot:
    def __init__(self, W, st, expand):
        self.W, self.st, self.expand = W, st, expand
        self.need = []
        self.leaves = []

    def T(self, f):
        t = self.st.truth(f)
        if t is None:
            if f not in self.need:
                self.need.append(f)
            return False
        return t

    # nullability as a formula
    def nu(self, t):
        k = t[0]
        if k == "0" or k == "rng":
            return False
        if k == "1":
            return True
        if k == "cat":
            return f_and(*[self.nu(x) for x in t[1]])
        if k == "pow":
            return f_or(f_eq(t[2]), self.nu(t[1]))
        if k == "not":
            return f_not(self.nu(t[1]))
        if k == "or":
            return f_or(*[self.nu(x) for x in t[1]])
        if k == "and":
            return f_and(*[self.nu(x) for x in t[1]])
        if k == "d":
            x = self.nf(t)
            if x[0] == "d":
                return ("at", ("nud", repr(x[1]), repr(x[2])), True)
            return self.nu(x)
        if k == "re":
            return self.nu_re(t[1])
        if k == "at":
            return ("at", t[1] + ".nullable", True)
        raise Unsupported("nullability of %r" % (t,))

    def nu_re(self, c):
        rid = self.W.id(self.st, c)
        if rid.is_const() and rid.c in SPECIAL:
            return rid.c in (3, 4)
        return self.W.get(self.st, c, "nullable")

    def leaf(self, c):
        """canonical name of an opaque RE, with polarity"""
        st, W = self.st, self.W
        rid = W.id(st, c)
        for k, t in SPECIAL.items():
            if rid == Lin(k) or st.num.entails_eq(rid - k):
                return self.nf(t)
        if rid == ONE or st.num.entails_eq(rid - 1):
            return self.nf(notl(SIGMA))
        for c2, r2 in self.leaves:
            if c2 == c:
                return ("re", c)
            if r2 == rid or st.num.entails_eq(r2 - rid):
                return ("re", c2)
            d = rid - r2
            for a, b in ((rid, r2), (r2, rid)):
                if st.num.entails_eq(a - b - 1) and self.isodd(a):
                    return ("not", ("re", c2))
        for c2, r2 in self.leaves:
            if not st.num.entails_ne(r2 - rid):
                f = f_eq(r2 - rid)
                if f not in self.need:
                    self.need.append(f)
        self.leaves.append((c, rid))
        return ("re", c)

    def isodd(self, rid):
        st = self.st
        o = [m for m, k in rid.t if k == 1]
        if rid.is_const():
            return rid.c % 2 == 1
        if len(o) == 1 and all(k % 2 == 0 for m, k in rid.t if k != 1):
            e = Lin(rid.c, ((o[0], 1),))
            return st.num.entails_eq(Lin(0, ((o[0], 1),)) - (1 if rid.c % 2 == 0 else 0))
        return False

    def nf(self, t):
        k = t[0]
        if k in ("0", "1"):
            return t
        if k == "re":
            c = t[1]
            lg = self.W.lang(self.st, c)
            if lg[0] != "at":
                return self.nf(lg)
            d = self.st.facts.get(("def", c))
            if d is not None:
                return self.nf(d)
            if c in self.expand:
                v, f = self.W.expr(self.st, c)
                return self.nf(self.W.node(self.st, v, f))
            return self.leaf(c)
        if k == "at":
            return t
        if k == "rng":
            lo, hi = t[1], t[2]
            if self.T(f_lt(hi, lo)):
                return EMPTY
            return t
        if k == "cat":
            return self.ncat([self.nf(x) for x in t[1]])
        if k == "pow":
            return self.npow(self.nf(t[1]), t[2], t[3])
        if k == "not":
            return self.nnot(self.nf(t[1]))
        if k in ("or", "and"):
            return self.nset(k, [self.nf(x) for x in t[1]])
        if k == "d":
            return self.nd(t[1], self.nf(t[2]))
        raise Unsupported("language %r" % (t,))

    def is_full(self, t):
        return t[0] == "pow" and t[3] is None and t[1][0] == "rng" and self.st.truth(f_eq(t[2])) is True and self.is_sigma(t[1])

    def is_sigma(self, t):
        return t[0] == "rng" and self.st.truth(f_and(f_eq(t[1]), f_eq(t[2] - MAX))) is True

    def base(self, t):
        return (t[1], t[2], t[3]) if t[0] == "pow" else (t, ONE, ONE)

    def ncat(self, items):
        out = []
        for x in items:
            if x == EMPTY:
                return EMPTY
            if x == EPS:
                continue
            out.extend(x[1] if x[0] == "cat" else [x])
        ch = True
        while ch:
            ch = False
            for i in range(len(out) - 1):
                x, y = out[i], out[i + 1]
                bx, by = self.base(x), self.base(y)
                if self.same(bx[0], by[0]):
                    hi = None if bx[2] is None or by[2] is None else bx[2] + by[2]
                    out[i:i + 2] = [self.mkp(bx[0], bx[1] + by[1], hi)]
                    ch = True
                    break
                # the base of a power is itself written out next to it
                if y[0] == "pow" and self.same(x, y[1]):
                    out[i:i + 2] = [self.mkp(y[1], y[2] + 1, None if y[3] is None else y[3] + 1)]
                    ch = True
                    break
                if x[0] == "pow" and self.same(y, x[1]):
                    out[i:i + 2] = [self.mkp(x[1], x[2] + 1, None if x[3] is None else x[3] + 1)]
                    ch = True
                    break
                if self.is_full(y) and self.T(self.nu(x)):
                    out[i:i + 2] = [y]
                    ch = True
                    break
                if self.is_full(x) and self.T(self.nu(y)):
                    out[i:i + 2] = [x]
                    ch = True
                    break
            if ch:
                continue
            for i, y in enumerate(out):
                if y[0] == "pow" and y[1][0] == "cat":
                    b = list(y[1][1])
                    m = len(b)
                    up = self.mkp(y[1], y[2] + 1, None if y[3] is None else y[3] + 1)
                    if i >= m and all(self.same(p, q) for p, q in zip(out[i - m:i], b)):
                        out[i - m:i + 1] = [up]
                        ch = True
                        break
                    if i + 1 + m <= len(out) and all(self.same(p, q) for p, q in zip(out[i + 1:i + 1 + m], b)):
                        out[i:i + 1 + m] = [up]
                        ch = True
                        break
        if not out:
            return EPS
        return out[0] if len(out) == 1 else ("cat", tuple(out))

    def npow(self, x, lo, hi):
        if hi is not None and self.T(f_eq(hi)):
            return EPS
        if x == EMPTY:
            if self.T(f_eq(lo)):
                return EPS
            if self.st.truth(f_ge(lo - 1)) is True:
                return EMPTY
        if x == EPS:
            return EPS
        if hi is not None and self.T(f_and(f_eq(lo - 1), f_eq(hi - 1))):
            return x
        if hi is not None and lo.is_const() and hi == lo and 2 <= lo.c <= 3:
            if x[0] == "cat":
                return self.ncat([x] * lo.c)
        if x[0] == "pow":
            if self.exact_mul(x[2], x[3], lo, hi):
                nhi = None if x[3] is None or hi is None else x[3] * hi
                return self.npow(x[1], x[2] * lo, nhi)
        return self.mkp(x, lo, hi)

    def mkp(self, x, lo, hi):
        if lo != ZERO and self.st.truth(self.nu(x)) is True:
            lo = ZERO
        return ("pow", x, lo, hi)

    def exact_mul(self, a, b, c, d):
        return self.T(exact_mul_f(a, b, c, d))

    def nnot(self, x):
        if x[0] == "not":
            return x[1]
        if x == EMPTY:
            return FULL
        if self.is_full(x):
            return EMPTY
        if x == EPS:
            return ("pow", SIGMA, ONE, None)
        if x[0] == "pow" and x[3] is None and x[2] == ONE and self.is_sigma(x[1]):
            return EPS
        if x[0] in ("or", "and"):
            return self.nset("and" if x[0] == "or" else "or", [self.nnot(y) for y in x[1]])
        return ("not", x)

    def nset(self, k, items):
        top, bot = (FULL, EMPTY) if k == "or" else (EMPTY, FULL)
        out = []
        flat = []
        for x in items:
            flat.extend(x[1] if x[0] == k else [x])
        for x in flat:
            if self.same(x, top):
                return top
            if self.same(x, bot):
                continue
            if any(self.same(x, y) for y in out):
                continue
            out.append(x)
        for i, x in enumerate(out):
            nx = self.nnot(x)
            if any(self.same(nx, y) for y in out):
                return top
        # subsumption facts
        ch = True
        while ch:
            ch = False
            for x in out:
                for y in out:
                    if x is not y and self.included(x, y):
                        out.remove(x if k == "or" else y)
                        ch = True
                        break
                if ch:
                    break
        if k == "and" and EPS in out and len(out) > 1:
            rest = [x for x in out if x != EPS]
            if all(self.T(self.nu(x)) for x in rest):
                return EPS
            if any(self.st.truth(self.nu(x)) is False for x in rest):
                return EMPTY
        if not out:
            return bot
        if len(out) == 1:
            return out[0]
        return (k, tuple(sorted(out, key=repr)))

    def included(self, x, y):
        subs = [(self.nf(kk[1]), self.nf(kk[2])) for kk in self.st.facts if isinstance(kk, tuple) and kk[0] == "sub"]
        seen, work = [], [x]
        while work and subs:
            z = work.pop()
            if seen and self.same(z, y):
                return True
            seen.append(z)
            for a, b in subs:
                if self.same(a, z) and not any(self.same(b, q) for q in seen):
                    work.append(b)
        if x == EPS and self.st.truth(self.nu(y)) is True:
            return True
        return False

    def nd(self, x, t):
        k = t[0]
        if k in ("0", "1"):
            return EMPTY
        if k == "rng":
            inn = f_and(f_le(t[1], x), f_le(x, t[2]))
            v = self.st.truth(inn)
            if v is None:
                self.need += [f for f in inn[1:] if self.st.truth(f) is None and f not in self.need] if inn[0] == "and" else [inn]
                return ("d", x, t)
            return EPS if v else EMPTY
        if k == "cat":
            h, rest = t[1][0], t[1][1:]
            r = self.ncat(list(rest))
            one = self.ncat([self.nd(x, h), r])
            nu = self.nu(h)
            v = self.st.truth(nu)
            if v is None:
                self.T(nu)
                return ("d", x, t)
            return self.nset("or", [one, self.nd(x, r)]) if v else one
        if k == "pow":
            b, lo, hi = t[1], t[2], t[3]
            if hi is not None and not self.T(f_ge(hi - 1)):
                return ("d", x, t)
            z = self.st.truth(f_eq(lo))
            if z is None:
                self.T(f_eq(lo))
                return ("d", x, t)
            return self.ncat([self.nd(x, b), self.npow(b, lo if z else lo - 1, None if hi is None else hi - 1)])
        if k == "not":
            return self.nnot(self.nd(x, t[1]))
        if k in ("or", "and"):
            return self.nset(k, [self.nd(x, y) for y in t[1]])
        if k in ("re", "at", "d"):
            return ("d", self.char(x, t), t)
        raise Unsupported("derivative of %r" % (t,))

    def char(self, x, t):
        """canonical character for the derivative of an opaque language"""
        for kk in sorted((k for k in self.st.facts if isinstance(k, tuple) and k[0] == "samecls"), key=repr):
            _, c, a, b = kk
            if x == b or self.st.num.entails_eq(x - b):
                if t[0] == "re" and self.same(self.nf(("re", c)), t):
                    return a
        return x

    def same(self, a, b):
        if a == b:
            return True
        if a[0] != b[0]:
            return False
        k = a[0]
        if k == "rng":
            return self.st.num.entails_eq(a[1] - b[1]) and self.st.num.entails_eq(a[2] - b[2])
        if k == "pow":
            if (a[3] is None) != (b[3] is None):
                return False
            return self.same(a[1], b[1]) and self.st.num.entails_eq(a[2] - b[2]) and (a[3] is None or self.st.num.entails_eq(a[3] - b[3]))
        if k == "cat":
            return len(a[1]) == len(b[1]) and all(self.same(x, y) for x, y in zip(a[1], b[1]))
        if k == "not":
            return self.same(a[1], b[1])
        if k in ("or", "and"):
            if len(a[1]) != len(b[1]):
                return False
            rest = list(b[1])
            for x in a[1]:
                for y in rest:
                    if self.same(x, y):
                        rest.remove(y)
                        break
                else:
                    return False
            return True
        if k == "d":
            return (a[1] == b[1] or self.st.num.entails_eq(a[1] - b[1])) and self.same(a[2], b[2])
        return False


def exact_mul_f(a, b, c, d):
    """union of [a k, b k] for k in [c, d] is [a c, b d]"""
    alts = []
    if d is not None:
        alts.append(f_eq(d - c))
    if b is None:
        alts.append(f_or(f_ge(c - 1), f_le(a, ONE)))
    else:
        alts.append(f_le(a * (c + 1), b * c + 1))
    return f_or(*alts)


def re_cells(W, st, t, acc):
    """RE cells a term depends on (through known structure)"""
    if not isinstance(t, tuple):
        return acc
    if t and t[0] == "re" and len(t) == 2 and isinstance(t[1], tuple):
        c = t[1]
        if c in acc:
            return acc
        acc.append(c)
        lg = W.lang(st, c)
        if lg[0] != "at":
            re_cells(W, st, lg, acc)
        d = st.facts.get(("def", c))
        if d is not None:
            re_cells(W, st, d, acc)
        e = W.expr(st, c)
        if e is not None:
            for x in e[1]:
                for y in flat_refs(W, st, x):
                    re_cells(W, st, ("re", y), acc)
        return acc
    for x in t:
        if isinstance(x, tuple):
            re_cells(W, st, x, acc)
    return acc


def flat_refs(W, st, v):
    if isinstance(v, Ref):
        if v.c in st.mem and isinstance(st.mem[v.c], Agg) and st.mem[v.c].k == RE:
            return [v.c]
        try:
            return [x[1] for x in W.items(st, v) if x[0] == "re"]
        except Unsupported:
            return []
    if isinstance(v, Seq):
        try:
            return [x[1] for x in W.seq_langs(st, v) if x[0] == "re"]
        except Unsupported:
            return []
    return []


def split_ranges(W, st, terms):
    """decide the shape (finite / infinite) of every loop range that the terms mention"""
    work, done = [st], []
    n = 0
    while work and n < 200:
        n += 1
        s = work.pop()
        try:
            cells = []
            for t in terms:
                re_cells(W, s, t, cells)
            for c in cells:
                e = W.expr(s, c)
                if e:
                    W.node(s, *e)
            done.append((s, cells))
        except NeedSplit as e:
            work += [x for x, _ in W.I.expand(s, e.v)]
    return done


def nu_axioms(W, st, cells):
    """cached nullable flags agree with the structure that is known: [st]"""
    sts = [st]
    for c in cells:
        nxt = []
        for s in sts:
            p = Pivot(W, s, set())
            fs = []
            nb = W.get(s, c, "nullable")
            lg = W.lang(s, c)
            if lg[0] != "at":
                fs.append(f_iff(nb, p.nu(lg)))
            d = s.facts.get(("def", c))
            if d is not None:
                fs.append(f_iff(nb, p.nu(d)))
            e = W.expr(s, c)
            if e is not None and lg[0] == "at":
                fs.append(f_iff(nb, p.nu(W.node(s, *e))))
            rid = W.id(s, c)
            for k in (0, 2, 3, 4, 5):
                if s.num.entails_eq(rid - k):
                    fs.append(nb if k in (3, 4) else f_not(nb))
            for c2 in cells:
                if c2 != c and s.num.entails_eq(W.id(s, c2) - rid):
                    k1, k2 = W.variant(s, c), W.variant(s, c2)
                    if k1 is not None and k2 is not None and k1 != k2:
                        fs.append(False)        # one object, one expression
                    fs.append(f_iff(nb, W.get(s, c2, "nullable")))
                elif c2 != c and s.num.entails_eq(rid - W.id(s, c2) - 1) and p.isodd(rid):
                    fs.append(f_iff(nb, f_not(W.get(s, c2, "nullable"))))
            for kk in s.facts:
                if isinstance(kk, tuple) and kk[0] == "sub" and kk[1] == ("re", c):
                    fs.append(f_or(f_not(nb), p.nu(kk[2])))
            cur = [s]
            for f in fs:
                z = []
                for s2 in cur:
                    t = s2.truth(f)
                    if t is True:
                        z.append(s2)
                    elif t is None:
                        z += s2.assume(f)
                cur = z
            nxt += cur
        sts = nxt
    return sts


# ------------------------------------------------------------------ evaluation over a finite fragment
class Eval:
    """languages over words of length <= N on a few characters, as bit sets"""

    def __init__(self, chars, N):
        self.chars = chars
        self.N = N
        self.words = [()]
        lvl = [()]
        for _ in range(N):
            lvl = [w + (x,) for w in lvl for x in range(len(chars))]
            self.words += lvl
        self.idx = {w: i for i, w in enumerate(self.words)}
        self.all = (1 << len(self.words)) - 1
        self.catmemo = {}
        self.prod = [[(i, self.idx.get(u + v)) for i, v in enumerate(self.words) if u + v in self.idx] for u in self.words]

    def cat(self, a, b):
        k = (a, b)
        r = self.catmemo.get(k)
        if r is None:
            r = 0
            x = a
            while x:
                i = (x & -x).bit_length() - 1
                x &= x - 1
                for j, w in self.prod[i]:
                    if b >> j & 1:
                        r |= 1 << w
            self.catmemo[k] = r
        return r

    def pow(self, a, lo, hi):
        # the sequence a^k is eventually periodic
        p = 1
        k = 0
        seen = []
        seq = []
        while True:
            if p in seen:
                st = seen.index(p)
                break
            seen.append(p)
            p = self.cat(p, a)
        per = len(seen) - st
        at = lambda n: seen[n] if n < len(seen) else seen[st + (n - st) % per]
        r = 0
        n = lo
        cnt = 0
        while (hi is None or n <= hi) and cnt <= len(seen) + per + 1:
            r |= at(n)
            n += 1
            cnt += 1
        return r

    def rng(self, lo, hi):
        r = 0
        for i, x in enumerate(self.chars):
            if lo <= x <= hi:
                r |= 1 << self.idx[(i,)]
        return r

    def deriv(self, x, a):
        i = self.chars.index(x)
        r = 0
        for w, k in self.idx.items():
            if len(w) < self.N and (i,) + w in self.idx and a >> self.idx[(i,) + w] & 1:
                r |= 1 << k
        return r

    def show(self, i):
        return "".join("\\u{%x}" % self.chars[x] for x in self.words[i])


class Inst:
    """an instantiation of the opaque languages of a state"""

    def __init__(self, W, st, env, E, choose):
        self.W, self.st, self.env, self.E, self.choose = W, st, env, E, choose
        self.val = {}
        self.depth = 0
        self.low = -1

    def num(self, x):
        v = lin(x).eval(self.env)
        return int(v)

    def re(self, c):
        if c in self.val:
            return self.val[c]
        W, st = self.W, self.st
        rid = self.num(W.id(st, c))
        if rid in SPECIAL:
            r = self.ev(SPECIAL[rid])
        elif rid == 1:
            r = self.E.all & ~self.ev(SIGMA)
        else:
            lg = W.lang(st, c)
            d = st.facts.get(("def", c))
            e = W.expr(st, c)
            if lg[0] != "at":
                r = self.ev(lg)
            elif d is not None:
                r = self.ev(d)
            elif e is not None:
                r = self.ev(W.node(st, *e))
            else:
                b = self.choose(rid // 2)
                r = b if rid % 2 == 0 else self.E.all & ~b
        self.val[c] = r
        return r

    def ev(self, t):
        k = t[0]
        E = self.E
        if k == "0":
            return 0
        if k == "1":
            return 1
        if k == "rng":
            return E.rng(self.num(t[1]), self.num(t[2]))
        if k == "cat":
            r = 1
            for x in t[1]:
                r = E.cat(r, self.ev(x))
            return r
        if k == "pow":
            return E.pow(self.ev(t[1]), self.num(t[2]), None if t[3] is None else self.num(t[3]))
        if k == "not":
            return E.all & ~self.ev(t[1])
        if k == "or":
            r = 0
            for x in t[1]:
                r |= self.ev(x)
            return r
        if k == "and":
            r = E.all
            for x in t[1]:
                r &= self.ev(x)
            return r
        if k == "d":
            return E.deriv(self.num(t[1]), self.ev(t[2]))
        if k == "re":
            return self.re(t[1])
        raise Unsupported("evaluate %r" % (t,))

    def dlevel(self, t):
        if not isinstance(t, tuple):
            return 0
        k = 1 if t and t[0] == "d" else 0
        if t and t[0] == "re":
            lg = self.W.lang(self.st, t[1])
            return self.dlevel(lg) if lg[0] != "at" else 0
        return k + max([self.dlevel(x) for x in t if isinstance(x, tuple)] or [0])

    def consistent(self, cells):
        """every fact of the path holds in this instantiation"""
        W, st, E = self.W, self.st, self.E
        byid = {}
        for c in cells:
            v = self.re(c)
            nb = W.get(st, c, "nullable")
            t = st.truth(nb)
            if t is not None and bool(v & 1) != t:
                return False
            rid = self.num(W.id(st, c))
            if byid.setdefault(rid, v) != v:
                return False
            lg = W.lang(st, c)
            e = W.expr(st, c)
            if lg[0] != "at" and (self.ev(lg) ^ v) & self.low:
                return False
            if lg[0] == "at" and e is not None and st.facts.get(("def", c)) is None and self.ev(W.node(st, *e)) != v:
                return False
            if (lg[0] != "at" or st.facts.get(("def", c)) is not None) and e is not None and self.ev(W.node(st, *e)) != v:
                return False
        for rid, v in byid.items():
            if rid % 2 == 0 and rid + 1 in byid and byid[rid + 1] != E.all & ~v:
                return False
        for kk, v in st.facts.items():
            if not isinstance(kk, tuple):
                continue
            if kk[0] == "sub" and self.ev(kk[1]) & ~self.ev(kk[2]):
                return False
            if kk[0] == "samecls":
                if E.deriv(self.num(kk[2]), self.re(kk[1])) != E.deriv(self.num(kk[3]), self.re(kk[1])):
                    return False
            if kk[0] == "fact" and not kk[1](self):
                return False
        for a, v in st.at.items():
            if isinstance(a, tuple) and a[0] == "langfact":
                r = self.ev(a[2])
                h = {"empty": r == 0, "full": r == E.all}.get(a[1])
                if h is not None and h != v:
                    # emptiness on the fragment does not refute emptiness; non-emptiness does
                    return False
        return True


def char_terms(W, st, terms, cells, donly=False):
    out = []

    def go(t):
        if not isinstance(t, tuple):
            return
        if t and t[0] == "rng":
            if not donly:
                out.extend([t[1], t[2]])
            return
        if t and t[0] == "d":
            out.append(t[1])
        for x in t:
            if isinstance(x, tuple):
                go(x)
    for t in terms:
        go(t)
    for c in cells:
        go(W.lang(st, c))
        e = W.expr(st, c)
        if e:
            try:
                go(W.node(st, *e))
            except NeedSplit:
                pass
    for kk in st.facts:
        if isinstance(kk, tuple) and kk[0] == "samecls":
            out.extend([kk[2], kk[3]])
    return out


def spread(W, st, cells, terms=()):
    """a refinement of st in which ids and characters that can be unrelated are unrelated"""
    done = []
    for x in char_terms(W, st, terms, cells, True)[:4]:
        if any(st.num.entails_eq(x - r) for r in done):
            continue
        for r in done:
            st = next((s2 for f in (f_lt(r, x), f_lt(x, r)) if st.truth(f) is None for s2 in st.fork().assume(f) if s2.num.feasible_with()), st)
        done.append(x)
    done = []
    for c in cells:
        rid = W.id(st, c)
        if rid.is_const() or any(st.num.entails_eq(rid - r) for r in done):
            continue
        for f in [f_le(lin(8), rid)] + [x for r in done for x in (f_le(r + 4, rid), f_le(rid + 4, r))]:
            if st.truth(f) is None:
                for s2 in st.fork().assume(f):
                    if s2.num.feasible_with():
                        st = s2
                        break
        done.append(rid)
    return st


def models(W, st, tries, cells, terms=()):
    st0 = st
    st = spread(W, st, cells, terms)
    m = st.num.model()
    if m is not None:
        yield st, m
    if st is not st0:
        m = st0.num.model()
        if m is not None:
            yield st0, m
    for f in tries:
        for s2 in st.fork().assume(f):
            if s2.num.feasible_with():
                m = s2.num.model()
                if m is not None:
                    yield s2, m


def refute(W, st, terms, check, tries=(), seed=1, rounds=160, N=3, deadline=None):
    """an instantiation consistent with the path for which check(values) fails: description or None"""
    cells = []
    for t in terms:
        re_cells(W, st, t, cells)
    for kk in st.facts:
        if isinstance(kk, tuple) and kk[0] == "sub":
            re_cells(W, st, kk[1], cells)
            re_cells(W, st, kk[2], cells)
        if isinstance(kk, tuple) and kk[0] == "samecls":
            re_cells(W, st, ("re", kk[1]), cells)
    for c in [c for c in st.mem if isinstance(c[1], str) and c[1].startswith("re:")]:
        n = c[1][3:]
        if (st.at.get(n + ".nullable") is not None or W.expr(st, c) is not None) and c not in cells and isinstance(st.mem[c], Agg):
            re_cells(W, st, ("re", c), cells)
    rnd = random.Random(seed)
    for s, env in models(W, st, tries, cells, terms):
        full = dict(env)
        for nm, b in s.num.bnd.items():
            full.setdefault(nm, b[0] if b[0] is not None else 0)
        chars = []
        deep = max([Inst(W, s, full, None, None).dlevel(t) for t in terms] + [Inst(W, s, full, None, None).dlevel(W.lang(s, c)) for c in cells] + [0])
        try:
            cts = [int(lin(x).eval(full)) for x in char_terms(W, s, terms, cells)]
        except Exception:
            continue
        for x in cts:
            if 0 <= x <= MAX and x not in chars:
                chars.append(x)
        chars = chars[:3]
        for x in (97, 98, 0):
            if len(chars) < 2 and x not in chars:
                chars.append(x)
        E = Eval(chars, N + deep)
        low = (1 << sum(len(chars) ** k for k in range(N + 1))) - 1
        one = [1 << E.idx[(i,)] for i in range(len(chars))]
        two = [1 << E.idx[w] for w in E.words if len(w) == 2]
        cand = [0, 1] + one + [one[0] | one[1], 1 | one[0], two[0], one[0] | two[1], 1 | two[0], E.all, E.all & ~1] + two[1:]
        cand += [E.pow(one[0], 0, None), E.cat(one[0], E.all), E.cat(E.all, one[-1])]
        forced = {}
        for c in cells:
            t = s.truth(W.get(s, c, "nullable"))
            if t is not None:
                rid = int(lin(W.id(s, c)).eval(full))
                forced.setdefault(rid // 2, t if rid % 2 == 0 else not t)
        for k in range(rounds):
            if deadline and not k % 20 and time.time() > deadline:
                return None
            ch = {}

            def choose(h):
                if h not in ch:
                    z = rnd.random()
                    ch[h] = rnd.choice(cand) if z < .75 else rnd.getrandbits(len(E.words)) & E.all if z < .9 else rnd.choice(cand) | rnd.choice(cand)
                    if h in forced:
                        ch[h] = ch[h] | 1 if forced[h] else ch[h] & ~1
                return ch[h]
            inst = Inst(W, s, full, E, choose)
            inst.low = low
            try:
                if not inst.consistent(cells):
                    continue
                vals = [inst.ev(t) & low for t in terms]
            except (KeyError, ValueError, OverflowError):
                continue
            bad = check(vals, low)
            if bad is not None and bad is not False:
                w = (bad & -bad).bit_length() - 1
                names = {c[1][3:]: ["%s" % E.show(i) for i in range(len(E.words)) if inst.re(c) >> i & 1][:6] for c in cells if W.expr(s, c) is None and W.lang(s, c)[0] == "at"}
                return {"word": E.show(w), "opaque_languages": names, "model": {k2: v for k2, v in full.items() if "$" not in k2 and not k2.endswith(".h") and not k2.endswith(".odd")}}
    return None


def lang_tries(W, st, terms):
    out = []
    seen = set()

    def go(t):
        if not isinstance(t, tuple):
            return
        if t and t[0] == "pow":
            for x in (t[2], t[3]):
                if x is not None and not x.is_const() and repr(x) not in seen:
                    seen.add(repr(x))
                    out.extend([f_eq(x - k) for k in (0, 1, 2, 3)])
        if t and t[0] == "rng":
            out.append(f_lt(t[1], t[2]) if not (t[1].is_const() and t[2].is_const()) else True)
        for x in t:
            if isinstance(x, tuple):
                go(x)
    cells = []
    for t in terms:
        go(t)
        re_cells(W, st, t, cells)
    for c in cells:
        go(W.lang(st, c))
        e = W.expr(st, c)
        if e:
            try:
                go(W.node(st, *e))
            except NeedSplit:
                pass
    return [f for f in out if f is not True and f is not False]


# ------------------------------------------------------------------ claims
def prove_lang(c, W, st, got, want, what, where, rel="eq", limit=400):
    """the two language terms are equal (rel="eq"), or got is included in want (rel="sub"), in every instantiation of st"""
    c.queries += 1
    try:
        ok = True
        for s, cells in split_ranges(W, st, [got, want]):
            for s2 in nu_axioms(W, s, cells):
                if not s2.num.feasible_with():
                    continue
                if not decide_lang(c, W, s2, got, want, what, where, rel, [limit]):
                    ok = False
        if ok:
            c.discharged += 1
        return ok
    except Unsupported as e:
        c.undec.append("%s: %s" % (what, e))
        return False


def decide_lang(c, W, st, got, want, what, where, rel, budget):
    budget[0] -= 1
    cells = []
    re_cells(W, st, got, cells)
    re_cells(W, st, want, cells)
    exp = [x for x in cells if W.expr(st, x) is not None and W.lang(st, x)[0] == "at" and not W.id(st, x).is_const()]
    needs = []
    subsets = [set(exp), set()]
    if len(exp) <= 4:
        subsets += [set(z) for k in range(1, len(exp)) for z in itertools.combinations(exp, k)]
    for z in subsets:
        p = Pivot(W, st, z)
        a = p.nf(got)
        b = p.nf(want)
        if p.same(a, b):
            return True
        if rel == "sub" and sub_nf(p, a, b):
            return True
        for f in p.need:
            if f not in needs:
                needs.append(f)
    if needs and budget[0] > 0:
        f = needs[0]
        ok = True
        for s, v in cases(st.fork(), f):
            for s2 in nu_axioms(W, s, cells):
                if s2.num.feasible_with():
                    ok = decide_lang(c, W, s2, got, want, what, where, rel, budget) and ok
        return ok
    if st.exact and not st.taint:
        terms = [got, want]
        if rel == "eq":
            chk = lambda v, low: (v[0] ^ v[1]) or None
        else:
            chk = lambda v, low: (v[0] & ~v[1]) or None
        miss = getattr(c, "unrefuted", 0)
        w = refute(W, st, terms, chk, lang_tries(W, st, terms), rounds=160 if miss < 12 else 40, deadline=c.deadline)
        if w is not None:
            c.violation(what, where, st, more={"counterexample": w, "derived": show_l(W, st, got), "required": show_l(W, st, want)})
            return False
        c.unrefuted = miss + 1
    c.undec.append("%s at %s: %s vs %s not settled" % (what, where, show_l(W, st, got)[:160], show_l(W, st, want)[:160]))
    return False


def sub_nf(p, a, b):
    if a == EMPTY or p.is_full(b):
        return True
    if p.included(a, b):
        return True
    if b[0] == "or" and a[0] != "or" and any(p.same(a, x) or sub_nf(p, a, x) for x in b[1]):
        return True
    if a[0] == "or":
        return all(sub_nf(p, x, b) or p.same(x, b) for x in a[1])
    if a[0] == "and" and any(p.same(x, b) or sub_nf(p, x, b) for x in a[1]):
        return True
    if b[0] == "and":
        return all(sub_nf(p, a, x) or p.same(a, x) for x in b[1])
    if a == EPS:
        return p.T(p.nu(b))
    if a[0] == "not" and b[0] == "not":
        return p.same(a[1], b[1]) or sub_nf(p, b[1], a[1])
    if a[0] == "rng" and b[0] == "rng":
        return p.T(f_and(f_le(b[1], a[1]), f_le(a[2], b[2])))
    if a[0] == "cat" or b[0] == "cat":
        u = a[1] if a[0] == "cat" else (a,)
        v = b[1] if b[0] == "cat" else (b,)
        return sub_cat(p, u, v)
    if b[0] == "pow" and b[3] is None and b[2] == ZERO and p.is_sigma(b[1]):
        return True
    return False


def sub_cat(p, u, v):
    """split u into consecutive segments, one inside each item of v"""
    memo = {}

    def go(i, j):
        k = (i, j)
        if k in memo:
            return memo[k]
        if j == len(v):
            r = i == len(u)
        elif p.is_full(v[j]):
            r = any(go(i2, j + 1) for i2 in range(i, len(u) + 1))
        else:
            r = i < len(u) and (p.same(u[i], v[j]) or (u[i][0] != "cat" and v[j][0] != "cat" and sub_nf(p, u[i], v[j]))) and go(i + 1, j + 1)
            if not r and p.st.truth(p.nu(v[j])) is True:
                r = go(i, j + 1)
        memo[k] = r
        return r
    return go(0, 0)


def show_l(W, st, t, d=0):
    k = t[0]
    if d > 8:
        return "..."
    if k == "0":
        return "{}"
    if k == "1":
        return "eps"
    if k == "rng":
        return "[%r..%r]" % (t[1], t[2])
    if k in ("cat", "or", "and"):
        return "(" + {"cat": ".", "or": " | ", "and": " & "}[k].join(show_l(W, st, x, d + 1) for x in t[1]) + ")"
    if k == "pow":
        return "%s^[%r,%s]" % (show_l(W, st, t[1], d + 1), t[2], "inf" if t[3] is None else repr(t[3]))
    if k == "not":
        return "~" + show_l(W, st, t[1], d + 1)
    if k == "d":
        return "D_%r(%s)" % (t[1], show_l(W, st, t[2], d + 1))
    if k == "re":
        lg = W.lang(st, t[1])
        if lg[0] == "at":
            return t[1][1][3:]
        return show_l(W, st, lg, d + 1)
    return repr(t)
