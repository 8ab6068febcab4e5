"""Linear (polynomial) integer expressions and the numeric abstract domain.

A Lin is a polynomial with integer coefficients; a monomial is a sorted tuple of symbol
names, so a product of two symbols is one more dimension of the (relational) domain.
The domain is a conjunction of linear inequalities over monomials.  Emptiness is decided by
Gaussian elimination of unit equalities, shortest-path closure for difference constraints and
Fourier-Motzkin projection with integer tightening otherwise.
"""
from math import gcd
from functools import lru_cache


class Lin:
    __slots__ = ("c", "t", "_h")

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t          # tuple of (monomial tuple, coef), sorted
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def is_const(self):
        return not self.t

    def monos(self):
        return [m for m, _ in self.t]

    def syms(self):
        s = set()
        for m, _ in self.t:
            s.update(m)
        return s

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t) if o else self
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for m, k in o.t:
            n = d.get(m, 0) + k
            if n:
                d[m] = n
            else:
                d.pop(m, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    __radd__ = __add__

    def __neg__(self):
        return Lin(-self.c, tuple((m, -k) for m, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, int):
            if o == 0:
                return ZERO
            if o == 1:
                return self
            return Lin(self.c * o, tuple((m, k * o) for m, k in self.t))
        if not o.t:
            return self * o.c
        if not self.t:
            return o * self.c
        d = {}
        c = self.c * o.c
        for m, k in self.t:
            if o.c:
                d[m] = d.get(m, 0) + k * o.c
            for m2, k2 in o.t:
                mm = tuple(sorted(m + m2))
                d[mm] = d.get(mm, 0) + k * k2
        if self.c:
            for m2, k2 in o.t:
                d[m2] = d.get(m2, 0) + k2 * self.c
        return Lin(c, tuple(sorted((m, k) for m, k in d.items() if k)))

    __rmul__ = __mul__

    def subst(self, env):
        """env: symbol -> Lin"""
        r = Lin(self.c)
        ch = False
        for m, k in self.t:
            if any(s in env for s in m):
                ch = True
                p = Lin(k)
                for s in m:
                    p = p * (env[s] if s in env else sym(s))
                r = r + p
            else:
                r = r + Lin(0, ((m, k),))
        return r if ch else self

    def eval(self, env):
        r = self.c
        for m, k in self.t:
            p = k
            for s in m:
                p *= env[s]
            r += p
        return r

    def __repr__(self):
        if not self.t:
            return str(self.c)
        s = ""
        for m, k in self.t:
            n = "*".join(m)
            if k == 1:
                s += "+" + n if s else n
            elif k == -1:
                s += "-" + n
            else:
                s += ("+" if k > 0 and s else "") + f"{k}*{n}"
        if self.c:
            s += f"{self.c:+d}"
        return s


ZERO = Lin(0)
ONE = Lin(1)


@lru_cache(maxsize=None)
def sym(name):
    return Lin(0, (((name,), 1),))


def lin(x):
    return x if isinstance(x, Lin) else Lin(x)


# ---------------------------------------------------------------- feasibility

_memo = {}
STATS = {"queries": 0, "memo": 0, "fm": 0, "dbm": 0, "giveup": 0}
FM_LIMIT = 1500


def _norm(coefs, c):
    """normalise sum coefs >= -c  i.e. expr = c + sum >= 0; integer tightening"""
    g = 0
    for k in coefs.values():
        g = gcd(g, k)
    if g > 1:
        coefs = {m: k // g for m, k in coefs.items()}
        c = c // g       # floor: tightening
    return coefs, c


def solve(ineqs, eqs, want_model=False):
    """ineqs, eqs: iterables of Lin (>=0, ==0) already including bounds.
    returns False if infeasible, True/None if feasible or unknown; with want_model, a dict or None."""
    # substitute equalities
    subs = []       # (mono, Lin expr)
    E = [({m: k for m, k in e.t}, e.c) for e in eqs]
    I = [({m: k for m, k in e.t}, e.c) for e in ineqs]

    def apply(co, c, m, rco, rc):
        k = co.pop(m, 0)
        if k:
            for m2, k2 in rco.items():
                n = co.get(m2, 0) + k * k2
                if n:
                    co[m2] = n
                else:
                    co.pop(m2, None)
            c += k * rc
        return c

    pend = E
    while pend:
        # choose equation with a unit coefficient
        nxt = None
        for idx, (co, c) in enumerate(pend):
            if not co:
                if c != 0:
                    return False
                continue
            g = 0
            for k in co.values():
                g = gcd(g, k)
            if c % g:
                return False
            if g > 1:
                co = {m: k // g for m, k in co.items()}
                c //= g
                pend[idx] = (co, c)
            for m, k in co.items():
                if abs(k) == 1:
                    nxt = (idx, m, k)
                    break
            if nxt:
                break
        if nxt is None:
            # no unit equation: keep the rest as pairs of inequalities
            for co, c in pend:
                if co:
                    I.append((dict(co), c))
                    I.append(({m: -k for m, k in co.items()}, -c))
            break
        idx, m, k = nxt
        co, c = pend.pop(idx)
        rco = {m2: -k2 * k for m2, k2 in co.items() if m2 != m}
        rc = -c * k
        subs.append((m, rco, rc))
        np = []
        for co2, c2 in pend:
            co2 = dict(co2)
            c2 = apply(co2, c2, m, rco, rc)
            np.append((co2, c2))
        pend = np
        for i in range(len(I)):
            co2, c2 = I[i]
            if m in co2:
                co2 = dict(co2)
                c2 = apply(co2, c2, m, rco, rc)
                I[i] = (co2, c2)
    # normalise
    best = {}
    for co, c in I:
        if not co:
            if c < 0:
                return False
            continue
        co, c = _norm(co, c)
        key = tuple(sorted(co.items()))
        if key not in best or best[key] > c:
            best[key] = c
    cons = list(best.items())
    # difference constraints only ?
    diff = all(len(k) == 1 and abs(k[0][1]) == 1 or len(k) == 2 and {k[0][1], k[1][1]} == {1, -1} for k, _ in cons)
    if diff:
        STATS["dbm"] += 1
        r = _bf(cons)
        if r is None:
            return False
        if not want_model:
            return True
        model = r
    else:
        STATS["fm"] += 1
        r = _fm(cons, want_model)
        if r is False:
            return False
        if not want_model:
            return True
        if r is None:
            return None
        model = r
    # back substitution
    for m, rco, rc in reversed(subs):
        v = rc
        for m2, k2 in rco.items():
            v += k2 * model.setdefault(m2, 0)
        model[m] = v
    return model


def _bf(cons):
    # c + x - y >= 0  ->  y - x <= c : edge x->y weight c ; single var with zero node
    nodes = {}
    edges = []
    Z = ()
    nodes[Z] = 0

    for k, c in cons:
        if len(k) == 1:
            (m, s), = k
            if s == 1:   # x >= -c : Z - x <= c
                edges.append((m, Z, c))
            else:        # x <= c
                edges.append((Z, m, c))
            nodes[m] = 0
        else:
            (m1, s1), (m2, s2) = k
            x, y = (m1, m2) if s1 == 1 else (m2, m1)
            # c + x - y >= 0
            edges.append((x, y, c))
            nodes[x] = 0
            nodes[y] = 0
    n = len(nodes)
    d = nodes
    for it in range(n):
        ch = False
        for a, b, w in edges:
            v = d[a] + w
            if v < d[b]:
                d[b] = v
                ch = True
        if not ch:
            z = d[Z]
            return {m: v - z for m, v in d.items() if m != Z}
    return None


def _fm(cons, want_model):
    stack = []
    cur = dict(cons)
    while True:
        # pick variable with minimal product
        pos = {}
        neg = {}
        for k in cur:
            for m, s in k:
                if s > 0:
                    pos[m] = pos.get(m, 0) + 1
                else:
                    neg[m] = neg.get(m, 0) + 1
        vs = set(pos) | set(neg)
        if not vs:
            break
        v = min(vs, key=lambda m: (pos.get(m, 0) * neg.get(m, 0) - pos.get(m, 0) - neg.get(m, 0), m))
        P = []
        N = []
        rest = {}
        for k, c in cur.items():
            s = 0
            for m, kk in k:
                if m == v:
                    s = kk
                    break
            if s > 0:
                P.append((k, c, s))
            elif s < 0:
                N.append((k, c, -s))
            else:
                rest[k] = c
        stack.append((v, P, N))
        for k1, c1, s1 in P:
            for k2, c2, s2 in N:
                g = gcd(s1, s2)
                a, b = s2 // g, s1 // g
                co = {}
                for m, kk in k1:
                    if m != v:
                        co[m] = kk * a
                for m, kk in k2:
                    if m != v:
                        n = co.get(m, 0) + kk * b
                        if n:
                            co[m] = n
                        else:
                            co.pop(m, None)
                c = c1 * a + c2 * b
                if not co:
                    if c < 0:
                        return False
                    continue
                co, c = _norm(co, c)
                key = tuple(sorted(co.items()))
                if key not in rest or rest[key] > c:
                    rest[key] = c
        cur = rest
        if len(cur) > FM_LIMIT:
            STATS["giveup"] += 1
            return None if want_model else True
    if not want_model:
        return True
    model = {}
    for v, P, N in reversed(stack):
        lo = hi = None
        for k, c, s in P:   # s*v + rest + c >= 0
            r = c
            for m, kk in k:
                if m != v:
                    r += kk * model.setdefault(m, 0)
            b = -(r // s) if r % s == 0 else -(r // s)   # ceil(-r/s)
            b = -((r) // s)
            lo = b if lo is None else max(lo, b)
        for k, c, s in N:
            r = c
            for m, kk in k:
                if m != v:
                    r += kk * model.setdefault(m, 0)
            b = r // s
            hi = b if hi is None else min(hi, b)
        if lo is not None and hi is not None and lo > hi:
            return None
        if lo is None and hi is None:
            x = 0
        elif lo is None:
            x = min(hi, 0)
        elif hi is None:
            x = max(lo, 0)
        else:
            x = min(max(0, lo), hi)
        model[v] = x
    return model


class Num:
    """conjunction of constraints; persistent (copy on write)"""
    __slots__ = ("ge", "eq", "ne", "bnd", "dead", "_idx", "wit")

    def __init__(self):
        self.ge = []
        self.eq = []
        self.ne = []
        self.bnd = {}       # symbol -> (lo, hi)
        self.dead = False
        self.wit = None     # integer solution of ge, eq and bnd: {symbol: value}; False when none was found

    def copy(self):
        n = Num()
        n.wit = self.wit
        n.ge = list(self.ge)
        n.eq = list(self.eq)
        n.ne = list(self.ne)
        n.bnd = dict(self.bnd)
        n.dead = self.dead
        return n

    def slice(self, syms, extra=()):
        """constraints connected with syms"""
        todo = set(syms)
        ge, eq = [], []
        left_ge, left_eq = self.ge, self.eq
        ch = True
        while ch:
            ch = False
            n1 = []
            for e in left_ge:
                es = e.syms()
                if es & todo:
                    ge.append(e)
                    if not es <= todo:
                        todo |= es
                        ch = True
                else:
                    n1.append(e)
            left_ge = n1
            n2 = []
            for e in left_eq:
                es = e.syms()
                if es & todo:
                    eq.append(e)
                    if not es <= todo:
                        todo |= es
                        ch = True
                else:
                    n2.append(e)
            left_eq = n2
        return ge, eq, todo

    def bounds(self, syms, exprs=()):
        r = []
        for s in syms:
            b = self.bnd.get(s)
            if b:
                lo, hi = b
                if lo is not None:
                    r.append(sym(s) - lo)
                if hi is not None:
                    r.append(Lin(hi) - sym(s))
        # interval bounds for product monomials
        ms = set()
        for e in exprs:
            for m, _ in e.t:
                if len(m) > 1:
                    ms.add(m)
        for m in sorted(ms):
            lo, hi = 1, 1
            ok = True
            for s in m:
                b = self.bnd.get(s)
                if not b or b[0] is None or b[0] < 0:
                    ok = False
                    break
                lo *= b[0]
                hi = None if hi is None or b[1] is None else hi * b[1]
            if ok:
                e = Lin(0, ((m, 1),))
                r.append(e - lo)
                if hi is not None:
                    r.append(Lin(hi) - e)
                # m >= each factor when the others are >= 1
                # (x-1)(y-1) >= 0 style facts are only valid when both lower bounds are >= 1
                if len(m) == 2:
                    b0, b1 = self.bnd[m[0]][0], self.bnd[m[1]][0]
                    # (x-b0)(y-b1) >= 0
                    r.append(e - sym(m[0]) * b1 - sym(m[1]) * b0 + b0 * b1)
        return r

    def products(self, ge, eq, syms, q):
        """relevant products of constraints (one round of RLT) for nonlinear queries"""
        ms = set()
        for e in list(ge) + list(eq) + q:
            for m, _ in e.t:
                if len(m) > 1:
                    ms.add(m)
        if not ms:
            return []
        allc = list(ge) + self.bounds(syms)
        for e in eq:
            allc.append(e)
            allc.append(-e)
        lin1 = [e for e in allc if e.t and all(len(m) == 1 for m, _ in e.t)]
        msyms = set()
        for m in ms:
            msyms.update(m)
        lin1 = [e for e in lin1 if e.syms() <= msyms and abs(e.c) < 1000]
        out = []
        for i in range(len(lin1)):
            for j in range(i, len(lin1)):
                p = lin1[i] * lin1[j]
                if all(len(m) < 2 or m in ms for m, _ in p.t):
                    out.append(p)
        return out[:400]

    def feasible_with(self, ge=(), eq=(), want_model=False):
        if self.dead:
            return False
        syms = set()
        for e in ge:
            syms |= e.syms()
        for e in eq:
            syms |= e.syms()
        if want_model:
            G, Q, S = list(self.ge), list(self.eq), set()
            for e in G:
                S |= e.syms()
            for e in Q:
                S |= e.syms()
            S |= syms | set(self.bnd)
        else:
            G, Q, S = self.slice(syms)
        G = G + list(ge)
        Q = Q + list(eq)
        if Q and self.gcd_conflict(Q):
            return False
        key = None
        S = sorted(S)
        B = self.bounds(S, G + Q)
        if not want_model:
            key = (frozenset(G), frozenset(Q), frozenset(B))
            STATS["queries"] += 1
            r = _memo.get(key)
            if r is not None:
                STATS["memo"] += 1
                return r
        X = self.products(G, Q, S, list(ge) + list(eq))
        r = solve(G + B + X, Q, want_model)
        if not want_model:
            r = r is not False
            _memo[key] = r
        return r

    def gcd_conflict(self, Q):
        """an equality with no integer solution once the fixed symbols are replaced"""
        from math import gcd
        bnd = self.bnd
        for e in Q:
            g, k = 0, e.c
            for m, a in e.t:
                if len(m) == 1:
                    b = bnd.get(m[0])
                    if b is not None and b[0] is not None and b[0] == b[1]:
                        k += a * b[0]
                        continue
                g = gcd(g, a)
                if g == 1:
                    break
            if g == 0:
                if k != 0:
                    return True
            elif g > 1 and k % g:
                return True
        return False

    def wval(self, w, e):
        """value of e in the witness; symbols outside every constraint take a value inside their bounds: (value, witness)"""
        new = None
        for m, _ in e.t:
            for s in m:
                if s not in w:
                    lo, hi = self.bnd.get(s, (None, None))
                    v = lo if lo is not None else 0 if hi is None or hi >= 0 else hi
                    if new is None:
                        new = dict(w)
                    new[s] = v
                    w = new
        return e.eval(w), w

    def keep_wit(self, e, eq=False):
        """the witness after the constraint e was added"""
        if self.wit:
            v, w = self.wval(self.wit, e)
            self.wit = w if (v == 0 if eq else v >= 0) else None
        else:
            self.wit = None

    def find_wit(self):
        self.wit = False
        if self.dead or len(self.ge) + len(self.eq) > 60:
            return
        m = self.feasible_with(want_model=True)
        if not m:
            return
        w = {}
        for k, v in m.items():
            if len(k) == 1:
                if v != int(v):
                    return
                w[k[0]] = int(v)
        for e in self.ge:
            v, w = self.wval(w, e)
            if v < 0:
                return
        for e in self.eq:
            v, w = self.wval(w, e)
            if v != 0:
                return
        for s, (lo, hi) in self.bnd.items():
            if s in w and (lo is not None and w[s] < lo or hi is not None and w[s] > hi):
                return
            if s not in w:
                w[s] = lo if lo is not None else 0 if hi is None or hi >= 0 else hi
        # move the values apart: a generic solution refutes more
        use = {}
        for e in self.ge:
            for s in e.syms():
                use.setdefault(s, []).append((e, False))
        for e in self.eq:
            for s in e.syms():
                use.setdefault(s, []).append((e, True))
        for i, s in enumerate(sorted(w)):
            lo, hi = self.bnd.get(s, (None, None))
            o = w[s]
            for v in (o + 11 + 7 * i, o + 2 + i):
                if hi is not None and v > hi:
                    continue
                w[s] = v
                for e, eq in use.get(s, ()):
                    r = e.eval(w)
                    if (r != 0) if eq else r < 0:
                        w[s] = o
                        break
                else:
                    break
        self.wit = w

    def entails_ge(self, e):
        if not e.t:
            return e.c >= 0
        if self.wit is None:
            self.find_wit()
        if self.wit and self.wval(self.wit, e)[0] < 0:
            return False
        # quick bounds check
        return not self.feasible_with(ge=(-e - 1,))

    def entails_eq(self, e):
        if not e.t:
            return e.c == 0
        if self.wit is None:
            self.find_wit()
        if self.wit and self.wval(self.wit, e)[0] != 0:
            return False
        return self.entails_ge(e) and self.entails_ge(-e)

    def entails_ne(self, e):
        if not e.t:
            return e.c != 0
        for n in self.ne:
            if n == e or n == -e:
                return True
        if not self.feasible_with(eq=(e,)):
            return True
        # ne facts may contradict e == 0
        if self.ne:
            es = e.syms()
            for n in self.ne:
                if n.syms() & es:
                    # e == 0 implies n == 0 ?
                    if not self.feasible_with(ge=(n - 1,), eq=(e,)) and not self.feasible_with(ge=(-n - 1,), eq=(e,)):
                        return True
        return False

    # add constraints in place; return feasibility
    def add_ge(self, e):
        if self.dead:
            return False
        if not e.t:
            if e.c < 0:
                self.dead = True
            return not self.dead
        g = 0
        for _, k in e.t:
            g = gcd(g, k)
        if g > 1:
            e = Lin(e.c // g, tuple((m, k // g) for m, k in e.t))
        if e in self.ge:
            return True
        if len(e.t) == 1 and len(e.t[0][0]) == 1:
            (m, k), = e.t
            s = m[0]
            lo, hi = self.bnd.get(s, (None, None))
            if k == 1:
                v = -e.c
                if lo is None or v > lo:
                    lo = v
            elif k == -1:
                v = e.c
                if hi is None or v < hi:
                    hi = v
            if lo is not None and hi is not None and lo > hi:
                self.dead = True
                return False
            self.bnd[s] = (lo, hi)
            ok = self.feasible_with(ge=(e,))
        else:
            for i, o in enumerate(self.ge):
                if o.t == e.t:
                    if o.c <= e.c:
                        return True
                    del self.ge[i]
                    break
            ok = self.feasible_with(ge=(e,))
            self.ge.append(e)
        if not ok:
            self.dead = True
            return False
        self.keep_wit(e)
        return self._renew(e)

    def _renew(self, e):
        if not self.ne:
            return True
        es = self.slice(e.syms())[2]
        for n in list(self.ne):
            if n.syms() & es:
                if n not in self.ne:
                    continue
                if self.entails_ge(n):
                    self.ne.remove(n)
                    if not self.add_ge(n - 1):
                        return False
                elif self.entails_ge(-n):
                    self.ne.remove(n)
                    if not self.add_ge(-n - 1):
                        return False
        return True

    def add_eq(self, e):
        if self.dead:
            return False
        if not e.t:
            if e.c != 0:
                self.dead = True
            return not self.dead
        if e in self.eq or -e in self.eq:
            return True
        if not self.feasible_with(eq=(e,)):
            self.dead = True
            return False
        self.eq.append(e)
        if len(e.t) == 1 and len(e.t[0][0]) == 1:
            (m, k), = e.t
            if e.c % k == 0:
                self.bnd[m[0]] = (-e.c // k, -e.c // k)
        self.keep_wit(e, True)
        return self._renew(e)

    def add_ne(self, e):
        if self.dead:
            return False
        if not e.t:
            if e.c == 0:
                self.dead = True
            return not self.dead
        if self.entails_ge(e):
            return self.add_ge(e - 1)
        if self.entails_ge(-e):
            return self.add_ge(-e - 1)
        self.ne.append(e)
        return True

    def model(self):
        """integer model of everything or None"""
        base = self
        # split on pending disequalities greedily
        def go(num, nes):
            m = num.feasible_with(want_model=True)
            if m is False or m is None:
                return None
            env = {k[0]: v for k, v in m.items() if len(k) == 1}
            for k, v in list(m.items()):
                for s in k:
                    env.setdefault(s, 0)
            for s in num.bnd:
                env.setdefault(s, num.bnd[s][0] or 0)
            for n in nes:
                for s in n.syms():
                    env.setdefault(s, 0)
                if n.eval(env) == 0:
                    rest = [x for x in nes if x is not n]
                    for c in (n - 1, -n - 1):
                        nn = num.copy()
                        nn.ne = []
                        if nn.add_ge(c):
                            r = go(nn, rest)
                            if r is not None:
                                return r
                    return None
            for e in num.ge:
                for s in e.syms():
                    env.setdefault(s, 0)
                if e.eval(env) < 0:
                    return None
            for e in num.eq:
                for s in e.syms():
                    env.setdefault(s, 0)
                if e.eval(env) != 0:
                    return None
            return env
        b = base.copy()
        nes = b.ne
        b.ne = []
        r = go(b, nes)
        if r is None:
            r = self.nl_model(go)
        if r is None:
            r = self.enum_model(go)
        return r

    def enum_model(self, go):
        """enumerate variables of small range, those with the largest coefficients first"""
        budget = [300]

        def rec(num):
            budget[0] -= 1
            if budget[0] < 0 or not num.feasible_with():
                return None
            best = None
            for e in num.eq + num.ge:
                for m, k in e.t:
                    if len(m) == 1 and abs(k) > 1 and (best is None or abs(k) > best[0]):
                        lo, hi = num.bnd.get(m[0], (None, None))
                        if lo is not None and hi is not None and 0 < hi - lo <= 64:
                            best = (abs(k), m[0], lo, hi)
            if best is None:
                for e in num.eq:
                    if any(len(m) == 1 and abs(k) > 1 for m, k in e.t):
                        for m, k in e.t:
                            lo, hi = num.bnd.get(m[0], (None, None))
                            if len(m) == 1 and lo is not None and hi is not None and hi - lo == 1:
                                best = (1, m[0], lo, hi)
            if best is None:
                n2 = num.copy()
                nes = n2.ne
                n2.ne = []
                return go(n2, nes)
            for v in range(best[2], best[3] + 1):
                n2 = num.copy()
                if n2.add_eq(sym(best[1]) - v):
                    r = rec(n2)
                    if r is not None:
                        return r
            return None
        return rec(self)

    def nl_model(self, go):
        """integer model of a nonlinear system: fix the factors of nonlinear monomials to a few representative values"""
        cnt = {}
        for e in self.ge + self.eq + self.ne:
            for m, _ in e.t:
                if len(m) > 1:
                    for x in m:
                        cnt[x] = cnt.get(x, 0) + 1
        if not cnt or len(cnt) > 7:
            return None
        budget = [400]

        def rec(num, fixed):
            budget[0] -= 1
            if budget[0] < 0:
                return None
            c = {}
            for e in num.ge + num.eq + num.ne:
                for m, _ in e.t:
                    if len(m) > 1:
                        for x in set(m):
                            c[x] = c.get(x, 0) + len(m)
            if not c:
                n2 = num.copy()
                nes = n2.ne
                n2.ne = []
                r = go(n2, nes)
                if r is None:
                    return None
                r.update(fixed)
                for e in self.ge:
                    for s in e.syms():
                        r.setdefault(s, 0)
                    if e.eval(r) < 0:
                        return None
                for e in self.eq:
                    for s in e.syms():
                        r.setdefault(s, 0)
                    if e.eval(r) != 0:
                        return None
                for e in self.ne:
                    for s in e.syms():
                        r.setdefault(s, 0)
                    if e.eval(r) == 0:
                        return None
                return r
            x = max(sorted(c), key=lambda k: c[k])
            lo, hi = num.bnd.get(x, (None, None))
            cand = []
            for v in (lo, hi, 0, 1, 2, 3, 5, 65536, None if hi is None else hi // 2):
                if v is not None and v not in cand and (lo is None or v >= lo) and (hi is None or v <= hi):
                    cand.append(v)
            for v in cand:
                env = {x: Lin(v)}
                n2 = Num()
                n2.bnd = {k: b for k, b in num.bnd.items() if k != x}
                okk = True
                for e in num.eq:
                    if not n2.add_eq(e.subst(env)):
                        okk = False
                        break
                if okk:
                    for e in num.ge:
                        if not n2.add_ge(e.subst(env)):
                            okk = False
                            break
                if okk:
                    for e in num.ne:
                        if not n2.add_ne(e.subst(env)):
                            okk = False
                            break
                if not okk:
                    continue
                r = rec(n2, dict(fixed, **{x: v}))
                if r is not None:
                    return r
            return None
        n0 = Num()
        n0.bnd = dict(self.bnd)
        n0.ge, n0.eq, n0.ne = list(self.ge), list(self.eq), list(self.ne)
        return rec(n0, {})

    def maximize(self, e, cap=None):
        """upper bound of e (integer), None if unbounded/unknown: projection by bisection-free FM"""
        s = sym("__obj")
        G, Q, S = self.slice(e.syms())
        S = sorted(S)
        B = self.bounds(S, G + Q + [e])
        return _project_max(G + B, Q, e)

    def __repr__(self):
        return "ge=%s eq=%s ne=%s" % (self.ge, self.eq, self.ne)


def _project_max(ge, eq, e):
    obj = sym("__obj")
    subs_eq = list(eq) + [obj - e]
    E = [({m: k for m, k in x.t}, x.c) for x in subs_eq]
    I = [({m: k for m, k in x.t}, x.c) for x in ge]
    O = ("__obj",)
    pend = E
    while pend:
        nxt = None
        for idx, (co, c) in enumerate(pend):
            for m, k in co.items():
                if abs(k) == 1 and m != O:
                    nxt = (idx, m, k)
                    break
            if nxt:
                break
        if nxt is None:
            for co, c in pend:
                if co:
                    I.append((dict(co), c))
                    I.append(({m: -k for m, k in co.items()}, -c))
                elif c:
                    return None
            break
        idx, m, k = nxt
        co, c = pend.pop(idx)
        rco = {m2: -k2 * k for m2, k2 in co.items() if m2 != m}
        rc = -c * k

        def ap(co2, c2):
            kk = co2.pop(m, 0)
            if kk:
                for m2, k2 in rco.items():
                    n = co2.get(m2, 0) + kk * k2
                    if n:
                        co2[m2] = n
                    else:
                        co2.pop(m2, None)
                c2 += kk * rc
            return co2, c2
        pend = [ap(dict(a), b) for a, b in pend]
        I = [ap(dict(a), b) for a, b in I]
    best = {}
    for co, c in I:
        if not co:
            continue
        co, c = _norm(co, c)
        key = tuple(sorted(co.items()))
        if key not in best or best[key] > c:
            best[key] = c
    cur = best
    while True:
        vs = {}
        for k in cur:
            for m, s in k:
                if m != O:
                    p = vs.setdefault(m, [0, 0])
                    p[0 if s > 0 else 1] += 1
        if not vs:
            break
        v = min(vs, key=lambda m: (vs[m][0] * vs[m][1], m))
        P, N, rest = [], [], {}
        for k, c in cur.items():
            s = 0
            for m, kk in k:
                if m == v:
                    s = kk
            if s > 0:
                P.append((k, c, s))
            elif s < 0:
                N.append((k, c, -s))
            else:
                rest[k] = c
        for k1, c1, s1 in P:
            for k2, c2, s2 in N:
                g = gcd(s1, s2)
                a, b = s2 // g, s1 // g
                co = {}
                for m, kk in k1:
                    if m != v:
                        co[m] = kk * a
                for m, kk in k2:
                    if m != v:
                        n = co.get(m, 0) + kk * b
                        if n:
                            co[m] = n
                        else:
                            co.pop(m, None)
                c = c1 * a + c2 * b
                if not co:
                    continue
                co, c = _norm(co, c)
                key = tuple(sorted(co.items()))
                if key not in rest or rest[key] > c:
                    rest[key] = c
        cur = rest
        if len(cur) > FM_LIMIT:
            return None
    hi = None
    for k, c in cur.items():
        (m, s), = k
        if s < 0:
            b = c // (-s)
            hi = b if hi is None else min(hi, b)
    return hi


def _eliminate(I, E, dead):
    """project the system (lists of (coef dict, const), >=0 and ==0) on the monomials not in dead; may lose precision, never soundness"""
    E = [(dict(a), b) for a, b in E]
    I = [(dict(a), b) for a, b in I]
    done = []
    while True:
        pick = None
        for idx, (co, c) in enumerate(E):
            for m, k in co.items():
                if m in dead and abs(k) == 1:
                    pick = (idx, m, k)
                    break
            if pick:
                break
        if pick is None:
            break
        idx, m, k = pick
        co, c = E.pop(idx)
        rco = {m2: -k2 * k for m2, k2 in co.items() if m2 != m}
        rc = -c * k

        def ap(co2, c2):
            kk = co2.pop(m, 0)
            if kk:
                for m2, k2 in rco.items():
                    n = co2.get(m2, 0) + kk * k2
                    if n:
                        co2[m2] = n
                    else:
                        co2.pop(m2, None)
                c2 += kk * rc
            return co2, c2
        E = [ap(a, b) for a, b in E]
        I = [ap(a, b) for a, b in I]
    keepE = []
    for co, c in E:
        if not co:
            continue
        if any(m in dead for m in co):
            I.append((dict(co), c))
            I.append(({m: -k for m, k in co.items()}, -c))
        else:
            keepE.append((co, c))
    cur = {}
    for co, c in I:
        if not co:
            continue
        co, c = _norm(co, c)
        key = tuple(sorted(co.items()))
        if key not in cur or cur[key] > c:
            cur[key] = c
    while True:
        vs = {}
        for k in cur:
            for m, s in k:
                if m in dead:
                    p = vs.setdefault(m, [0, 0])
                    p[0 if s > 0 else 1] += 1
        if not vs:
            break
        v = min(vs, key=lambda m: (vs[m][0] * vs[m][1], m))
        P, N, rest = [], [], {}
        for k, c in cur.items():
            s = 0
            for m, kk in k:
                if m == v:
                    s = kk
            if s > 0:
                P.append((k, c, s))
            elif s < 0:
                N.append((k, c, -s))
            else:
                rest[k] = c
        if len(P) * len(N) <= 120:
            for k1, c1, s1 in P:
                for k2, c2, s2 in N:
                    g = gcd(s1, s2)
                    a, b = s2 // g, s1 // g
                    co = {}
                    for m, kk in k1:
                        if m != v:
                            co[m] = kk * a
                    for m, kk in k2:
                        if m != v:
                            n = co.get(m, 0) + kk * b
                            if n:
                                co[m] = n
                            else:
                                co.pop(m, None)
                    c = c1 * a + c2 * b
                    if not co:
                        continue
                    co, c = _norm(co, c)
                    if sum(abs(x) for x in co.values()) > 8:
                        continue
                    key = tuple(sorted(co.items()))
                    if key not in rest or rest[key] > c:
                        rest[key] = c
        cur = rest
        if len(cur) > 400:
            cur = {k: c for k, c in cur.items() if not any(m in dead for m, _ in k)}
    return list(cur.items()), keepE


def project(num, keep):
    """abstraction of num on the symbols in keep"""
    ds = set()
    for e in num.ge + num.eq:
        ds |= e.syms()
    ds -= keep
    r = Num()
    r.dead = num.dead
    r.bnd = {s: b for s, b in num.bnd.items() if s in keep}
    r.ne = [e for e in num.ne if e.syms() <= keep]
    if not ds:
        r.ge = list(num.ge)
        r.eq = list(num.eq)
        return r
    G = [e for e in num.ge if not e.syms() & ds]
    Q = [e for e in num.eq if not e.syms() & ds]
    I, E = [], []
    touched = set()
    for e in num.ge:
        if e.syms() & ds:
            I.append(({m: k for m, k in e.t}, e.c))
            touched |= e.syms()
    for e in num.eq:
        if e.syms() & ds:
            E.append(({m: k for m, k in e.t}, e.c))
            touched |= e.syms()
    for s in touched & ds:
        lo, hi = num.bnd.get(s, (None, None))
        if lo is not None:
            I.append(({(s,): 1}, -lo))
        if hi is not None:
            I.append(({(s,): -1}, hi))
    dead = set()
    for co, c in I + E:
        for m in co:
            if any(s in ds for s in m):
                dead.add(m)
    I2, E2 = _eliminate(I, E, dead)
    r.ge = G
    r.eq = Q
    new = [Lin(c, tuple(sorted(k))) for k, c in I2]
    for co, c in E2:
        r.eq.append(Lin(c, tuple(sorted(co.items()))))
    new.sort(key=lambda e: len(e.t))
    for e in new:
        if not e.t:
            continue
        if not r.entails_ge(e):
            r.add_ge(e)
    return r
