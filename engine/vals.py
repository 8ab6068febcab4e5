"""Abstract values."""
from lin import Lin, lin, sym, Num, ZERO, ONE

import itertools
_ctr = itertools.count()


def fresh(base="t"):
    return "%s$%d" % (base, next(_ctr))


class Unsupported(Exception):
    pass


class V:
    __slots__ = ()


class Agg(V):
    """struct / tuple / enum variant / iterator state"""
    __slots__ = ("k", "var", "f")

    def __init__(self, k, var, f):
        self.k = k
        self.var = var
        self.f = tuple(f)

    def __eq__(self, o):
        return isinstance(o, Agg) and self.k == o.k and self.var == o.var and self.f == o.f

    def __hash__(self):
        return hash((self.k, self.var, self.f))

    def __repr__(self):
        k = self.k.split("::")[-1]
        return "%s%s(%s)" % (k, "#%d" % self.var if self.var else "", ", ".join(map(repr, self.f)))

    def with_(self, i, v):
        f = list(self.f)
        f[i] = v
        return Agg(self.k, self.var, f)


class SymE(V):
    """symbolic enum, expanded on demand (choice recorded in the state under its name)"""
    __slots__ = ("ty", "n")

    def __init__(self, ty, n):
        self.ty = ty
        self.n = n

    def __eq__(self, o):
        return isinstance(o, SymE) and self.n == o.n

    def __hash__(self):
        return hash(("SymE", self.n))

    def __repr__(self):
        return "?" + self.n


class Ref(V):
    """pointer to a place; a path ending with ('r', lo, hi) is a slice"""
    __slots__ = ("c", "p")

    def __init__(self, c, p=()):
        self.c = c
        self.p = tuple(p)

    def __eq__(self, o):
        return isinstance(o, Ref) and self.c == o.c and self.p == o.p

    def __hash__(self):
        return hash(("R", self.c, self.p))

    def __repr__(self):
        return "&%s%s" % (self.c, "".join("." + "/".join(map(str, x)) for x in self.p))


class Clo(V):
    __slots__ = ("p", "f")

    def __init__(self, p, f):
        self.p = p
        self.f = tuple(f)

    def __eq__(self, o):
        return isinstance(o, Clo) and self.p == o.p and self.f == o.f

    def __hash__(self):
        return hash(("C", self.p, self.f))

    def __repr__(self):
        return "clo<%s>%r" % (self.p.split("::")[-2], self.f)


class FnV(V):
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def __eq__(self, o):
        return isinstance(o, FnV) and self.d.get("p") == o.d.get("p")

    def __hash__(self):
        return hash(("F", self.d.get("p")))

    def __repr__(self):
        return "fn " + self.d.get("p", "?")


class Bytes(V):
    __slots__ = ("b", "ty")

    def __init__(self, b, ty=None):
        self.b = bytes(b)
        self.ty = ty

    def __eq__(self, o):
        return isinstance(o, Bytes) and self.b == o.b

    def __hash__(self):
        return hash(self.b)

    def __repr__(self):
        return "b" + repr(self.b)[1:]


class Term(V):
    """uninterpreted / spec-interpreted term"""
    __slots__ = ("op", "a", "_h")

    def __init__(self, op, *a):
        self.op = op
        self.a = a
        self._h = hash((op, a))

    def __eq__(self, o):
        return self is o or isinstance(o, Term) and self._h == o._h and self.op == o.op and self.a == o.a

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "%s(%s)" % (self.op, ",".join(map(repr, self.a))) if self.a else self.op


class Top(V):
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "T<%s>" % self.why


UNIT = Agg("tuple", 0, ())


class SymArr:
    """symbolic array; elem(I, st, idx) -> [(st, value)]"""

    def __init__(self, name, ety=None, elem=None, fork_eq=True):
        self.name = name
        self.ety = ety
        self.elem = elem
        self.fork_eq = fork_eq
        self.onread = None

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, SymArr) and self.name == o.name

    def __hash__(self):
        return hash(("SA", self.name))


class Seq(V):
    """sequence: tuple of segments ('e', v) | ('s', arr, lo, hi) | ('t', Term, len)"""
    __slots__ = ("s",)

    def __init__(self, s=()):
        self.s = tuple(s)

    def __eq__(self, o):
        return isinstance(o, Seq) and self.s == o.s

    def __hash__(self):
        return hash(("Q", self.s))

    def __repr__(self):
        r = []
        for x in self.s:
            if x[0] == "e":
                r.append(repr(x[1]))
            elif x[0] == "s":
                r.append("%s[%r..%r]" % (x[1].name, x[2], x[3]))
            else:
                r.append("%r:%r" % (x[1], x[2]))
        return "<" + " ".join(r) + ">"

    def length(self):
        n = ZERO
        for x in self.s:
            if x[0] == "e":
                n = n + 1
            elif x[0] == "s":
                n = n + (x[3] - x[2])
            else:
                n = n + x[2]
        return n


def arr_seq(arr, n):
    return Seq((("s", arr, ZERO, lin(n)),))


# ------------------------------------------------------------------ formulas
# True | False | ('ge',L) | ('eq',L) | ('ne',L) | ('at',key,pol) | ('and',..) | ('or',..)

def f_not(f):
    if f is True:
        return False
    if f is False:
        return True
    k = f[0]
    if k == "ge":
        return f_ge(-f[1] - 1)
    if k == "eq":
        return ("ne", f[1])
    if k == "ne":
        return ("eq", f[1])
    if k == "at":
        return ("at", f[1], not f[2])
    if k == "and":
        return f_or(*[f_not(x) for x in f[1:]])
    if k == "or":
        return f_and(*[f_not(x) for x in f[1:]])
    raise Unsupported("not %r" % (f,))


def f_ge(e):
    if e.is_const():
        return e.c >= 0
    return ("ge", e)


def f_eq(e):
    if e.is_const():
        return e.c == 0
    return ("eq", e)


def f_ne(e):
    if e.is_const():
        return e.c != 0
    return ("ne", e)


def f_lt(a, b):
    return f_ge(b - a - 1)


def f_le(a, b):
    return f_ge(b - a)


def f_and(*fs):
    r = []
    for f in fs:
        if f is False:
            return False
        if f is True:
            continue
        if f[0] == "and":
            r.extend(f[1:])
        else:
            r.append(f)
    if not r:
        return True
    if len(r) == 1:
        return r[0]
    return ("and",) + tuple(r)


def f_or(*fs):
    r = []
    for f in fs:
        if f is True:
            return True
        if f is False:
            continue
        if f[0] == "or":
            r.extend(f[1:])
        else:
            r.append(f)
    if not r:
        return False
    if len(r) == 1:
        return r[0]
    return ("or",) + tuple(r)


def f_iff(a, b):
    return f_or(f_and(a, b), f_and(f_not(a), f_not(b)))


def is_fm(v):
    return v is True or v is False or isinstance(v, tuple)


class St:
    __slots__ = ("mem", "num", "at", "ch", "reads", "facts", "tr", "exact", "taint", "xor")

    def __init__(self):
        self.mem = {}
        self.num = Num()
        self.at = {}
        self.ch = {}
        self.reads = {}
        self.facts = {}
        self.tr = None
        self.exact = True
        self.taint = frozenset()
        self.xor = {}

    def fork(self):
        s = St.__new__(St)
        s.mem = dict(self.mem)
        s.num = self.num.copy()
        s.at = dict(self.at)
        s.ch = dict(self.ch)
        s.reads = dict(self.reads)
        s.facts = dict(self.facts)
        s.tr = self.tr
        s.exact = self.exact
        s.taint = self.taint
        s.xor = dict(self.xor)
        return s

    def note(self, ev):
        self.tr = (ev, self.tr)

    def trace(self):
        r = []
        t = self.tr
        while t:
            r.append(t[0])
            t = t[1]
        return r[::-1]

    def add_taint(self, why):
        self.taint = self.taint | {why}

    # -- assume a formula; returns list of states (consumes self)
    def assume(self, f):
        if f is True:
            return [self]
        if f is False:
            return []
        k = f[0]
        if k == "ge":
            return [self] if self.num.add_ge(f[1]) else []
        if k == "eq":
            return [self] if self.num.add_eq(f[1]) else []
        if k == "ne":
            return [self] if self.num.add_ne(f[1]) else []
        if k == "at":
            v = self.at.get(f[1])
            if v is not None:
                return [self] if v == f[2] else []
            if HOOK_ATOM:
                r = HOOK_ATOM[-1](self, f[1], f[2])
                if r is not None:
                    return r
            self.at[f[1]] = f[2]
            return [self]
        if k == "and":
            sts = [self]
            for x in f[1:]:
                n = []
                for s in sts:
                    n.extend(s.assume(x))
                sts = n
            return sts
        if k == "or":
            # disjoint split: x1 | (!x1 & x2) | ...
            res = []
            cur = [self]
            alts = f[1:]
            for i, x in enumerate(alts):
                nxt = []
                for s in cur:
                    t = s.truth(x)
                    if t is True:
                        res.append(s)
                    elif t is False:
                        nxt.append(s)
                    else:
                        a = s.fork()
                        res.extend(a.assume(x))
                        if i + 1 < len(alts):
                            nxt.extend(s.assume(f_not(x)))
                cur = nxt
            return res
        raise Unsupported("assume %r" % (f,))

    def truth(self, f):
        """True/False if decided, None otherwise"""
        if f is True or f is False:
            return f
        k = f[0]
        n = self.num
        if k == "ge":
            if n.entails_ge(f[1]):
                return True
            if n.entails_ge(-f[1] - 1):
                return False
            return None
        if k == "eq":
            if n.entails_eq(f[1]):
                return True
            if n.entails_ne(f[1]):
                return False
            return None
        if k == "ne":
            r = self.truth(("eq", f[1]))
            return None if r is None else not r
        if k == "at":
            v = self.at.get(f[1])
            if v is None and HOOK_TRUTH:
                v = HOOK_TRUTH[-1](self, f[1])
            return None if v is None else v == f[2]
        if k == "and":
            r = True
            for x in f[1:]:
                t = self.truth(x)
                if t is False:
                    return False
                if t is None:
                    r = None
            return r
        if k == "or":
            r = False
            for x in f[1:]:
                t = self.truth(x)
                if t is True:
                    return True
                if t is None:
                    r = None
            return r
        return None


HOOK_ATOM = []
HOOK_TRUTH = []


def cases(st, f):
    """split st on formula f -> [(st, bool)]  (consumes st)"""
    t = st.truth(f)
    if t is not None:
        return [(st, t)]
    a = st.fork()
    r = [(x, True) for x in a.assume(f)]
    r += [(x, False) for x in st.assume(f_not(f))]
    return r
