"""Symbolic CharPartition: a sorted list of disjoint intervals of unknown length, with ghosts.

For a probe character x the ghost g_x is the number of intervals that start at or before x; reading interval i splits on i < g_x and learns
start_i <= x (resp. start_i > x).  Two intervals i < j that were read satisfy start_j >= end_i + (j - i).  The ghost W is the number of
intervals of the longest gap-free prefix that starts at 0; comp_witness is then the least character outside the partition."""
from common import *

CP = "crate::character_sets::CharPartition"
CID = "crate::character_sets::ClassId"
COV = "crate::character_sets::CoverResult"
ERR = "crate::errors::Error"


def adt_fields(P, path, want):
    a = P.adts.get(path)
    names = [n for n, t in a["v"][0]["f"]] if a else None
    if not names or sorted(names) != sorted(want):
        raise Skip("%s representation changed" % path.split("::")[-1])
    return names


def mk_agg(P, path, d):
    return Agg(path, 0, [d[n] for n in adt_fields(P, path, list(d))])


def variant(P, v):
    return P.adts[v.k]["v"][v.var]["n"]


def enum(P, path, name, *args):
    return Agg(path, [v["n"] for v in P.adts[path]["v"]].index(name), args)


class Part:
    def __init__(self, c, I, st, name, probes=(), witness=True, minlen=0, sorted_=True):
        self.c, self.I, self.name = c, I, name
        self.n = I.intsym(st, name + ".len", minlen, MAX + 1)
        self.probes = [(x, I.intsym(st, "g:%s@%r" % (name, x), 0, MAX + 1)) for x in probes]
        for x, g in self.probes:
            st.num.add_ge(self.n - g)
        self.arr = SymArr(name, None, self.elem)
        self.W = None
        if witness:
            self.W = I.intsym(st, "g:%s@W" % name, 0, MAX + 1)
            self.w = I.intsym(st, name + ".witness", 0, MAX + 1)
            st.num.add_ge(self.n - self.W)
            st.num.add_ge(self.w - self.W)          # W non-empty intervals lie below w
        else:
            self.w = None
        I.ghosts = list(I.ghosts) + [g for x, g in self.probes] + ([self.W] if witness else [])
        st.num.add_ge(Lin(MAX + 1) - self.n)

    def value(self, st=None):
        return mk_agg(self.c.P, CP, {"list": arr_seq(self.arr, self.n), "comp_witness": self.w})

    def elem(self, I, st, i):
        nm = "%s[%r]" % (self.name, i)
        s = I.intsym(st, nm + ".start", 0, MAX)
        e = I.intsym(st, nm + ".end", 0, MAX)
        I.kinds[nm + ".start"] = I.kinds[nm + ".end"] = "c"
        v = mk_charset(I, s, e)
        num = st.num
        ok = num.add_ge(e - s) and num.add_ge(s - i) and num.add_ge(Lin(MAX) - (self.n - 1 - i) - e)
        if not ok:
            return []
        cur = [st]
        for x, g in self.probes:
            nxt = []
            for s0 in cur:
                for s1, low in cases(s0, f_lt(i, g)):
                    if s1.num.add_ge(x - s - (g - 1 - i)) if low else s1.num.add_ge(s - x - 1 - (i - g)):
                        nxt.append(s1)
            cur = nxt
        if self.W is not None:
            nxt = []
            for s0 in cur:
                for s1, low in cases(s0, f_lt(i, self.W)):
                    if low:
                        if not s1.num.add_ge(self.w - 1 - e - (self.W - 1 - i)):
                            continue
                        for s2, last in cases(s1, f_eq(i - self.W + 1)):
                            ok = not last or s2.num.add_eq(self.w - 1 - e)
                            if ok:
                                for s3, first in cases(s2, f_eq(i)):
                                    if not first or s3.num.add_eq(s):
                                        nxt.append(s3)
                    elif s1.num.add_ge(s - self.w - 1 - (i - self.W)):
                        nxt.append(s1)
            cur = nxt
        # relative position to the intervals read before
        for j, vj in st.reads.get(self.arr.name, ()):
            sj, ej = cs_fields(I, vj)
            nxt = []
            for s0 in cur:
                for s1, low in cases(s0, f_lt(i, j)):
                    if s1.num.add_ge(sj - e - (j - i)) if low else s1.num.add_ge(s - ej - (i - j)):
                        nxt.append(s1)
            cur = nxt
        return [(s0, v) for s0 in cur]

    def at(self, st, i):
        """[(st, start, end)] of interval i"""
        return [(s,) + cs_fields(self.I, v) for s, v in self.I.arr_elem(st, self.arr, lin(i))]

    def locate(self, st, k):
        """force the neighbours of probe k to be read: [(st, inside?)]"""
        x, g = self.probes[k]
        out = []
        for s0, some_ in cases(st, f_ge(g - 1)):
            l = [(s0, ZERO, None)] if not some_ else self.at(s0, g - 1)
            for s1, a, b in l:
                for s2, more in cases(s1, f_lt(g, self.n)):
                    for s3, *_ in (self.at(s2, g) if more else [(s2, 0, 0)]):
                        if b is None:
                            out.append((s3, False))
                        else:
                            out += [(s4, r) for s4, r in cases(s3, f_le(x, b))]
        res = []
        for s, inside in out:
            if self.W is not None:
                s = self.relate_w(s, k, inside)
                if s is None:
                    continue
            res.append((s, inside))
        return res

    def relate_w(self, s, k, inside):
        """x < w: x lies in one of the first W intervals"""
        x, g = self.probes[k]
        if inside:
            r = s.fork().assume(f_ne(x - self.w))
        else:
            r = s.assume(f_ge(x - self.w))
        if not r:
            return None
        if len(r) == 1:
            return r[0]
        return s

    def init_w(self, st):
        """states in which the end of the gap-free prefix has been read"""
        out = []
        for s0, some_ in cases(st, f_ge(self.W - 1)):
            if not some_:
                if not s0.num.add_eq(self.w):
                    continue
                l = [s0]
            else:
                l = [s for s, a, b in self.at(s0, self.W - 1)]
            for s1 in l:
                for s2, more in cases(s1, f_lt(self.W, self.n)):
                    out += [s for s, a, b in self.at(s2, self.W)] if more else [s2]
        return out


def part_parts(c, v):
    names = adt_fields(c.P, CP, ["list", "comp_witness"])
    d = dict(zip(names, v.f))
    if not isinstance(d["list"], Seq):
        raise Unsupported("partition list %r" % (d["list"],))
    return d["list"], d["comp_witness"]
