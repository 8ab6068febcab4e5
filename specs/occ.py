"""Occurrences of a pattern p in a string s, as a decision oracle for comparisons of their characters.

The state carries a ghost scan: `from` (start of the scan) and `f` (least position >= from where p occurs; beyond |s|-|p|
when there is none). A comparison of p[j] with s[t] concerns the candidate position i = t-j:
  i == f (and p fits)  : equal                       (definition of occurrence)
  from <= i < f        : there is a least and a greatest mismatch mm <= mx of position i (symbols)
  i >= f+|p|, multi    : the scan moves on, from := f+|p|  (left-to-right non-overlapping occurrences of SMT-LIB replace_all)
  otherwise            : undetermined (both outcomes are explored)
"""
from common import *

MD = ("loop", "md")
FROM, F, MP, MM, MX = [("loop", x) for x in ("from", "f", "mp", "mm", "mx")]


class Occ:
    def __init__(self, c, I, st, start=ZERO, multi=False, p="p", s="s", maxlen=I32MAX):
        self.I, self.multi = I, multi
        self.vp, self.ap, self.np = mk_str(c, I, st, p, self.origin_elem(p), maxlen)
        self.vs, self.as_, self.ns = mk_str(c, I, st, s, self.origin_elem(s), maxlen)
        self.org = {}
        self.start = start
        self.on_advance = None
        I.int_eq_hook = self.int_eq
        I.seq_eq_hook = self.seq_eq
        I.ghost_cells = [F]
        I.rewrite = list(I.rewrite) + [self.forget]
        I.shape_hook = lambda I, st: [st.mem[MP] == Lin(-1)]

    def origin_elem(self, name):
        def elem(I, st, i):
            n = "%s[%r]" % (name, i)
            self.org[n] = (name, i)
            return [(st, chsym(I, st, n))]
        return elem

    def init(self, st):
        """initial states (pattern empty or not)"""
        out = []
        I = self.I
        for s, e in cases(st, f_eq(self.np)):
            f = I.intsym(s, fresh("g:f"), 0, None)
            s.mem[FROM], s.mem[F] = lin(self.start), f
            self.reset(s)
            s.num.add_ge(f - self.start)
            out += s.assume(f_eq(f - self.start)) if e else [s]
        return out

    def forget(self, I, st):
        """mismatches found inside a nested loop are not remembered by the outer one"""
        if st.mem[MD] != ZERO and st.mem[MD].c > I.ldepth:
            self.reset(st)

    def reset(self, st):
        st.mem[MP], st.mem[MM], st.mem[MX], st.mem[MD] = Lin(-1), ZERO, ZERO, ZERO

    def found(self, st):
        return f_le(st.mem[F] + self.np, self.ns)

    def advance(self, st):
        I = self.I
        if self.on_advance:
            self.on_advance(st)
        st.mem[FROM] = st.mem[F] + self.np
        f = I.intsym(st, fresh("g:f"), 0, None)
        st.num.add_ge(f - st.mem[FROM])
        st.mem[F] = f

    def decide(self, st, i, lo, hi):
        """is p[lo..hi] == s[i+lo..i+hi] : [(st, bool)]"""
        out = []
        for s, em in cases(st, f_le(hi, lo)):
            if em:
                out.append((s, True))
                continue
            for s1, fits in cases(s, f_and(f_ge(i - s.mem[FROM]), f_le(i + self.np, self.ns))):
                if not fits:
                    out += self.unknown(s1, i, lo, hi)
                else:
                    out += self.decide1(s1, i, lo, hi)
        return out

    def decide1(self, st, i, lo, hi):
        out = []
        I = self.I
        for s, before in cases(st, f_lt(i, st.mem[F])):
            if before:
                if lo == ZERO and hi == self.np:
                    out.append((s, False))
                    continue
                if not s.num.entails_eq(s.mem[MP] - i):
                    s.mem[MD] = Lin(I.ldepth)
                    m, x = I.intsym(s, fresh("g:mm"), 0, None), I.intsym(s, fresh("g:mx"), 0, None)
                    s.mem[MP], s.mem[MM], s.mem[MX] = i, m, x
                    ok = s.num.add_ge(x - m) and s.num.add_ge(self.np - 1 - x)
                    if not ok:
                        continue
                m, x = s.mem[MM], s.mem[MX]
                for s1, eq in cases(s, f_or(f_le(hi, m), f_lt(x, lo))):
                    if eq:
                        out.append((s1, True))
                        continue
                    for s2, ne in cases(s1, f_or(f_le(lo, m), f_lt(x, hi))):
                        if ne:
                            out.append((s2, False))
                        else:
                            out += self.unknown(s2, i, lo, hi)
                continue
            for s1, at in cases(s, f_eq(i - s.mem[F])):
                if at:
                    out.append((s1, True))
                    continue
                if self.multi:
                    for s2, nx in cases(s1, f_ge(i - s1.mem[F] - self.np)):
                        if nx:
                            self.advance(s2)
                            out += self.decide1(s2, i, lo, hi)
                        else:
                            out += self.unknown(s2, i, lo, hi)
                else:
                    out += self.unknown(s1, i, lo, hi)
        return out

    def unknown(self, s, i, lo, hi):
        a = ("at", ("peq", i, lo, hi), True)
        return cases(s, a)

    def int_eq(self, I, st, x, y):
        ox, oy = self.lookup(x), self.lookup(y)
        if ox is None or oy is None or ox[0] == oy[0]:
            return None
        if ox[0] != "p":
            ox, oy = oy, ox
        return self.decide(st, oy[1] - ox[1], ox[1], ox[1] + 1)

    def lookup(self, x):
        if isinstance(x, Lin) and not x.is_const() and len(x.syms()) == 1:
            n = next(iter(x.syms()))
            if sym(n) == x:
                return self.org.get(n)

    def seq_eq(self, I, st, x, y, call):
        if len(x.s) != 1 or len(y.s) != 1 or x.s[0][0] != "s" or y.s[0][0] != "s":
            return None
        a, b = x.s[0], y.s[0]
        if a[1] is self.as_ and b[1] is self.ap:
            a, b = b, a
        if not (a[1] is self.ap and b[1] is self.as_):
            return None
        return [("ret", s, r) for s, r in self.decide(st, b[2] - a[2], a[2], a[3])]


def same_seq(c, I, st, got, want, what, where, exact=True):
    """got and want (Seq) are the same character sequence"""
    if got == want:
        c.queries += 1
        c.discharged += 1
        return
    if not c.prove(st, f_eq(got.length() - want.length()), what + " (length)", where, exact=exact):
        return
    k = I.intsym(st, "k!", 0, None)
    for s in st.fork().assume(f_lt(k, want.length())):
        for s1, x in I.seq_index(s, got, k):
            for s2, y in I.seq_index(s1, want, k):
                c.prove(s2, f_eq(x - y), what, where, exact=exact)


def cat(*parts):
    r = []
    for q in parts:
        for g in q.s:
            if g[0] == "s" and r and r[-1][0] == "s" and r[-1][1] is g[1] and r[-1][3] == g[2]:
                r[-1] = ("s", g[1], r[-1][2], g[3])
            else:
                r.append(g)
    return Seq(r)


def sl(arr, a, b):
    return Seq((("s", arr, lin(a), lin(b)),))
