"""Abstract interpreter over MIR: path-partitioned states, widened loop fixpoints, contracts."""
import sys
from lin import *
from vals import *
import vals as VM
from mir import base_ty, ty_key

INTB = {"u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1),
        "i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1),
        "isize": (-2**63, 2**63 - 1), "u128": (0, 2**128 - 1), "i128": (-2**127, 2**127 - 1)}
MAXLEN = 2**60
OPTION = "std::option::Option"
RESULT = "std::result::Result"

sys.setrecursionlimit(100000)


MAXCH = 0x2FFFF


class Budget(Exception):
    pass


def some(v):
    return Agg(OPTION, 1, (v,))


NONE = Agg(OPTION, 0, ())


def ok(v):
    return Agg(RESULT, 0, (v,))


def err(v):
    return Agg(RESULT, 1, (v,))


WRAPPERS = {"std::boxed::BoxRaw", "std::ptr::Unique", "std::ptr::NonNull", "std::mem::ManuallyDrop", "std::mem::MaybeUninit", "std::mem::MaybeDangling"}


class Frame:
    __slots__ = ("id", "b", "depth", "tyenv")

    def __init__(self, i, b, depth):
        self.id = i
        self.b = b
        self.depth = depth


class Interp:
    def __init__(self, prog):
        self.P = prog
        self.contracts = {}        # body path -> fn(I, st, args, call) -> [(kind, st, val)]
        self.models = {}
        self.symhooks = {}         # adt path -> fn(I, st, ty, name) -> value
        self.widen_delay = 4
        self.binmax = 2            # constants allowed in difference constraints
        self.unary = None          # bounds that a widened variable may keep
        self.fifo = False
        self.rewrite_always = []   # fn(I, st) applied at every loop head
        self.rewrite = []          # fn(I, st) applied at loop heads to normalise sequences/terms
        self.joinhook = []
        self.peel = 2
        self.maxdepth = 30
        self.steps = 0
        self.max_steps = 400000
        self.symcells = {}
        self.inlined = set()
        self.used_contracts = set()
        self.unknown = {}
        self.loops_seen = 0
        self.fix_iters = 0
        self.paths = 0
        self.tmpl_extra = []
        self.ghosts = []
        self.ghost_cells = []
        self.stable = set()
        self.pinned = {}
        self.keep_reads = False
        self.keep_arrays = set()
        self.keep_hook = None
        self.kinds = {}
        self.shape_hook = None
        self.debug = 0
        self.why = None
        self.roots = set()
        self.side_outcomes = []
        self.fid = 0
        self.loopvariants = 6
        self.ldepth = 0
        self.int_eq_hook = None
        self.expand_hook = None
        import stdmodels
        stdmodels.install(self)

    # ------------------------------------------------------------ symbolic values
    def tysub(self, t, env):
        if not env:
            return t
        k = t["k"]
        if k == "param":
            return env.get(t["n"], t)
        if k == "adt":
            return {"k": "adt", "p": t["p"], "a": [self.tysub(x, env) for x in t["a"]]}
        if k in ("ref", "ptr"):
            return {"k": k, "e": self.tysub(t["e"], env), "m": t.get("m")}
        if k in ("slice",):
            return {"k": k, "e": self.tysub(t["e"], env)}
        if k == "array":
            return {"k": k, "e": self.tysub(t["e"], env), "n": t["n"]}
        if k == "tuple":
            return {"k": k, "a": [self.tysub(x, env) for x in t["a"]]}
        return t

    def intsym(self, st, name, lo=None, hi=None):
        st.num.bnd.setdefault(name, (lo, hi))
        return sym(name)

    def mk_sym(self, st, ty, name):
        k = ty["k"]
        if k == "int":
            lo, hi = INTB[ty["n"]]
            return self.intsym(st, name, lo, hi)
        if k == "char":
            # scalar values: not a surrogate
            v = self.intsym(st, name, 0, 0x10FFFF)
            return v
        if k == "bool":
            return ("at", name, True)
        if k in ("ref", "ptr"):
            e = ty["e"]
            h = self.symhooks.get("&" + (e.get("p") or e["k"]))
            if h:
                return h(self, st, ty, name)
            c = ("s", name)
            if e["k"] in ("slice", "str"):
                q = self.mk_sym(st, e, name)
                st.mem[c] = q
                return Ref(c, (("r", ZERO, q.length()),))
            self.symcells[c] = e
            return Ref(c)
        if k == "tuple":
            return Agg("tuple", 0, [self.mk_sym(st, t, "%s.%d" % (name, i)) for i, t in enumerate(ty["a"])])
        if k in ("slice", "str"):
            ety = ty["e"] if k == "slice" else {"k": "char"}
            n = self.intsym(st, name + ".len", 0, MAXLEN)
            return arr_seq(SymArr(name, ety), n)
        if k == "array":
            if ty["n"] is None:
                return Top("array of unknown size")
            if ty["n"] <= 16:
                return Seq([("e", self.mk_sym(st, ty["e"], "%s[%d]" % (name, i))) for i in range(ty["n"])])
            return arr_seq(SymArr(name, ty["e"]), ty["n"])
        if k == "adt":
            p = ty["p"]
            h = self.symhooks.get(p)
            if h:
                return h(self, st, ty, name)
            if p in ("std::vec::Vec", "std::collections::VecDeque"):
                n = self.intsym(st, name + ".len", 0, MAXLEN)
                return arr_seq(SymArr(name, ty["a"][0]), n)
            if p == "std::string::String":
                n = self.intsym(st, name + ".len", 0, MAXLEN)
                return arr_seq(SymArr(name, {"k": "char"}), n)
            if p in ("std::boxed::Box", "std::rc::Rc"):
                return self.mk_sym(st, {"k": "ref", "e": ty["a"][0]}, name)
            if p == "std::cmp::Ordering":
                return SymE(ty, name)
            a = self.P.adts.get(p)
            if a and a["v"]:
                if a["enum"]:
                    return SymE(ty, name)
                return self.mk_variant(st, ty, name, 0)
            return Term("opq:" + p, name)
        if k == "param":
            return Term("opq:param", name)
        return Top("symbolic value of type %r" % (ty.get("s") or k))

    def mk_variant(self, st, ty, name, var):
        a = self.P.adts[ty["p"]]
        env = dict(zip(a["gens"], ty["a"]))
        v = a["v"][var]
        nm = name if not a["enum"] else "%s.%s" % (name, v["n"])
        fs = [self.mk_sym(st, self.tysub(t, env), "%s.%s" % (nm, fn)) for fn, t in v["f"]]
        return Agg(ty["p"], var, fs)

    def expand(self, st, v):
        """SymE -> [(st, Agg)] (forks on the variant)"""
        c = st.ch.get(v.n)
        if c is not None:
            return [(st, self.mk_variant(st, v.ty, v.n, c))]
        a = self.P.adts[v.ty["p"]]
        n = len(a["v"])
        r = []
        for i in range(n):
            s = st if i == n - 1 else st.fork()
            s.ch[v.n] = i
            s.note("%s is %s" % (v.n, a["v"][i]["n"]))
            if self.expand_hook and not self.expand_hook(self, s, v, i):
                continue
            r.append((s, self.mk_variant(s, v.ty, v.n, i)))
        return r

    def agg(self, st, v):
        """force an aggregate value: [(st, Agg)]"""
        if isinstance(v, SymE):
            return self.expand(st, v)
        return [(st, v)]

    # ------------------------------------------------------------ sequences
    def seq_index(self, st, q, idx):
        idx = lin(idx)
        off = ZERO
        segs = q.s
        # drop leading elements when constant index
        res = []
        n = len(segs)
        cur = [st]
        for i, g in enumerate(segs):
            ln = ONE if g[0] == "e" else (g[3] - g[2] if g[0] == "s" else g[2])
            nxt = []
            for s in cur:
                if i == n - 1:
                    inside = [(s, True)]
                else:
                    inside = cases(s, f_lt(idx, off + ln))
                for s2, b in inside:
                    if b:
                        if g[0] == "e":
                            res.append((s2, g[1]))
                        elif g[0] == "s":
                            res.extend(self.arr_elem(s2, g[1], g[2] + (idx - off)))
                        else:
                            res.extend(self.term_elem(s2, g[1], idx - off))
                    else:
                        nxt.append(s2)
            cur = nxt
            off = off + ln
            if not cur:
                break
        if n == 0:
            raise Unsupported("index in empty sequence")
        return res

    def term_elem(self, st, t, idx):
        h = getattr(self, "term_elem_hook", None)
        if h:
            return h(self, st, t, idx)
        raise Unsupported("element of %r" % (t,))

    def arr_elem(self, st, arr, idx):
        r = self.arr_elem0(st, arr, idx)
        if arr.onread:
            out = []
            for s, v in r:
                out.extend((s2, v) for s2 in arr.onread(self, s, idx, v))
            return out
        return r

    def arr_elem0(self, st, arr, idx):
        reads = st.reads.get(arr.name, ())
        for i2, v in reads:
            if i2 == idx:
                return [(st, v)]
        for i2, v in reads:
            if st.num.entails_eq(i2 - idx):
                return [(st, v)]
        out = []
        cur = [st]
        if arr.fork_eq:
            for i2, v in reads:
                nxt = []
                for s in cur:
                    if s.num.entails_ne(i2 - idx):
                        nxt.append(s)
                        continue
                    a = s.fork()
                    for s1 in a.assume(f_eq(i2 - idx)):
                        out.append((s1, v))
                    nxt.extend(s.assume(f_ne(i2 - idx)))
                cur = nxt
        for s in cur:
            if arr.elem:
                rs = arr.elem(self, s, idx)
            else:
                rs = [(s, self.mk_sym(s, arr.ety, "%s[%r]" % (arr.name, idx)))]
            for s2, v in rs:
                s2.reads[arr.name] = s2.reads.get(arr.name, ()) + ((idx, v),)
                out.append((s2, v))
        return out

    def seq_split(self, st, q, at):
        """split q at position at: [(st, left, right)]"""
        at = lin(at)
        total = q.length()
        if at == ZERO:
            return [(st, Seq(), q)]
        if at == total:
            return [(st, q, Seq())]
        off = ZERO
        out = []
        cur = [st]
        for i, g in enumerate(q.s):
            ln = ONE if g[0] == "e" else (g[3] - g[2] if g[0] == "s" else g[2])
            nxt = []
            for s in cur:
                if s.num.entails_eq(at - off):
                    out.append((s, Seq(q.s[:i]), Seq(q.s[i:])))
                    continue
                last = i == len(q.s) - 1
                for s2, b in ([(s, True)] if last else cases(s, f_lt(at, off + ln))):
                    if not b:
                        nxt.append(s2)
                        continue
                    if g[0] == "e":
                        out.append((s2, Seq(q.s[:i]), Seq(q.s[i:])) if s2.num.entails_eq(at - off)
                                   else (s2, Seq(q.s[:i + 1]), Seq(q.s[i + 1:])))
                    elif g[0] == "s":
                        m = g[2] + (at - off)
                        out.append((s2, Seq(q.s[:i] + (("s", g[1], g[2], m),)), Seq((("s", g[1], m, g[3]),) + q.s[i + 1:])))
                    else:
                        if s2.num.entails_eq(at - off - ln):
                            out.append((s2, Seq(q.s[:i + 1]), Seq(q.s[i + 1:])))
                        else:
                            raise Unsupported("split inside %r" % (g[1],))
            cur = nxt
            off = off + ln
            if not cur:
                break
        for s in cur:
            out.append((s, q, Seq()))
        return out

    def seq_slice(self, st, q, lo, hi):
        out = []
        n = q.length()
        for s, l, r in (self.seq_split(st, q, hi) if hi != n else [(st, q, Seq())]):
            for s2, a, b in self.seq_split(s, l, lo):
                out.append((s2, b))
        return out

    def seq_set(self, st, q, idx, v):
        out = []
        for s, l, r in self.seq_split(st, q, idx):
            for s2, a, b in self.seq_split(s, r, ONE):
                out.append((s2, Seq(l.s + (("e", v),) + b.s)))
        return out

    # ------------------------------------------------------------ memory
    def cell(self, st, c):
        v = st.mem.get(c)
        if v is None:
            if c in self.symcells:
                v = self.mk_sym(st, self.symcells[c], c[1])
                st.mem[c] = v
                return v
            raise Unsupported("read of uninitialised %r" % (c,))
        return v

    def nav(self, st, v, path):
        cur = [(st, v)]
        for e in path:
            nxt = []
            for s, x in cur:
                nxt.extend(self.nav1(s, x, e))
            cur = nxt
        return cur

    def nav1(self, st, v, e):
        k = e[0]
        if isinstance(v, Top):
            raise Unsupported("projection of unknown value (%s)" % v.why)
        if k == "f":
            if isinstance(v, Ref):      # Box / Unique / NonNull internals
                return [(st, v)]
            if isinstance(v, SymE):
                return [(s, a.f[e[1]]) for s, a in self.expand(st, v)]
            if isinstance(v, (Agg, Clo)):
                return [(st, v.f[e[1]])]
            if isinstance(v, Term):
                h = getattr(self, "term_field_hook", None)
                if h:
                    return h(self, st, v, e[1])
            raise Unsupported("field of %r" % (v,))
        if k == "v":
            if isinstance(v, SymE):
                c = st.ch.get(v.n)
                if c is None:
                    st.ch[v.n] = e[1]
                    if self.expand_hook and not self.expand_hook(self, st, v, e[1]):
                        return []
                elif c != e[1]:
                    return []
                return [(st, self.mk_variant(st, v.ty, v.n, e[1]))]
            if isinstance(v, Agg):
                return [(st, v)] if v.var == e[1] else []
            raise Unsupported("downcast of %r" % (v,))
        if k == "x":
            if isinstance(v, Seq):
                return self.seq_index(st, v, e[1])
            if isinstance(v, Bytes):
                if e[1].is_const():
                    return [(st, Lin(v.b[e[1].c]))]
            raise Unsupported("index of %r" % (v,))
        if k == "r":
            if isinstance(v, Seq):
                return self.seq_slice(st, v, e[1], e[2])
            if isinstance(v, Bytes):
                return [(st, v)]
            if isinstance(v, Term):
                return [(st, v)]
            raise Unsupported("slice of %r" % (v,))
        raise Unsupported("projection %r" % (e,))

    def load(self, st, c, path):
        return self.nav(st, self.cell(st, c), path)

    def put(self, st, v, path, new):
        """[(st, updated v)]"""
        if not path:
            return [(st, new)]
        e = path[0]
        k = e[0]
        if k == "f":
            if isinstance(v, Ref):
                return self.put(st, v, path[1:], new)
            out = []
            for s, a in self.agg(st, v):
                if not isinstance(a, (Agg, Clo)):
                    raise Unsupported("store into field of %r" % (a,))
                for s2, x in self.put(s, a.f[e[1]], path[1:], new):
                    f = list(a.f)
                    f[e[1]] = x
                    out.append((s2, Agg(a.k, a.var, f) if isinstance(a, Agg) else Clo(a.p, f)))
            return out
        if k == "v":
            out = []
            for s, a in self.nav1(st, v, e):
                out.extend(self.put(s, a, path[1:], new))
            return out
        if k == "x":
            if not isinstance(v, Seq):
                raise Unsupported("store into element of %r" % (v,))
            out = []
            if len(path) == 1:
                return self.seq_set(st, v, e[1], new)
            for s, x in self.seq_index(st, v, e[1]):
                for s2, y in self.put(s, x, path[1:], new):
                    out.extend(self.seq_set(s2, v, e[1], y))
            return out
        if k == "r":
            if len(path) == 1 and isinstance(v, Seq):
                out = []
                for s, l, r in self.seq_split(st, v, e[2]):
                    for s2, a, b in self.seq_split(s, l, e[1]):
                        out.append((s2, Seq(a.s + new.s + r.s)))
                return out
            return self.put(st, v, (("x", e[1] + path[1][1]),) + path[2:], new) if path[1][0] == "x" else self._unsup("store slice")
        raise Unsupported("store through %r" % (e,))

    def _unsup(self, m):
        raise Unsupported(m)

    def store(self, st, c, path, new):
        if not path:
            st.mem[c] = new
            return [st]
        out = []
        for s, v in self.put(st, self.cell(st, c), path, new):
            s.mem[c] = v
            out.append(s)
        return out

    def norm_path(self, path):
        """('r',lo,hi),('x',i) -> ('x', lo+i); nested slices"""
        r = []
        for e in path:
            if r and r[-1][0] == "r":
                if e[0] == "x":
                    b = r.pop()
                    e = ("x", b[1] + e[1])
                elif e[0] == "r":
                    b = r.pop()
                    e = ("r", b[1] + e[1], b[1] + e[2])
            r.append(e)
        return tuple(r)

    def deref_ref(self, r, extra=()):
        return Ref(r.c, self.norm_path(r.p + tuple(extra)))

    def rload(self, st, r, extra=()):
        p = self.norm_path(r.p + tuple(extra))
        return self.load(st, r.c, p)

    def rstore(self, st, r, v, extra=()):
        return self.store(st, r.c, self.norm_path(r.p + tuple(extra)), v)

    def ref_len(self, st, r):
        """length of a slice/array/vec behind r: [(st, Lin)]"""
        if r.p and r.p[-1][0] == "r":
            return [(st, r.p[-1][2] - r.p[-1][1])]
        out = []
        for s, v in self.rload(st, r):
            if isinstance(v, Seq):
                out.append((s, v.length()))
            elif isinstance(v, Bytes):
                out.append((s, Lin(len(v.b))))
            elif isinstance(v, Ref):
                out.extend(self.ref_len(s, v))
            else:
                raise Unsupported("length of %r" % (v,))
        return out

    def as_slice(self, st, r):
        """pointer to a Vec/array/Box<[T]>/slice -> slice pointer [(st, Ref)]"""
        if r.p and r.p[-1][0] == "r":
            return [(st, r)]
        out = []
        for s, v in self.rload(st, r):
            if isinstance(v, Ref):
                out.extend(self.as_slice(s, v))
            elif isinstance(v, Seq):
                out.append((s, Ref(r.c, r.p + (("r", ZERO, v.length()),))))
            elif isinstance(v, Bytes):
                out.append((s, Ref(r.c, r.p + (("r", ZERO, Lin(len(v.b))),))))
            else:
                raise Unsupported("as slice: %r" % (v,))
        return out

    def newcell(self, st, v, base="h"):
        c = ("h", fresh(base))
        st.mem[c] = v
        return c

    # place -> [(st, cell, path)]
    def place(self, st, fr, pl):
        cur = [(st, (fr.id, pl[0]), ())]
        wrapped = False
        for e in pl[1:]:
            k = e[0]
            nxt = []
            if k == "f":
                tp = (e[2] or {}).get("p") if len(e) > 2 else None
                w, wrapped = wrapped, tp in WRAPPERS
                if w or wrapped:
                    continue
            else:
                wrapped = False
            for s, c, p in cur:
                if k == "d":
                    for s2, v in self.load(s, c, p):
                        while isinstance(v, Agg) and v.k in ("std::boxed::Box",):
                            v = v.f[0]
                        if not isinstance(v, Ref):
                            if isinstance(v, Term):
                                h = getattr(self, "term_deref_hook", None)
                                if h:
                                    for s3, rr in h(self, s2, v):
                                        nxt.append((s3, rr.c, rr.p))
                                    continue
                            raise Unsupported("deref of %r" % (v,))
                        nxt.append((s2, v.c, v.p))
                elif k == "f":
                    nxt.append((s, c, p + (("f", e[1]),)))
                elif k == "v":
                    nxt.append((s, c, p + (("v", e[1]),)))
                elif k == "i":
                    for s2, iv in self.load(s, (fr.id, e[1]), ()):
                        nxt.append((s2, c, self.norm_path(p + (("x", iv),))))
                elif k == "ci":
                    if e[3]:
                        for s2, n in self.ref_len(s, Ref(c, p)):
                            nxt.append((s2, c, self.norm_path(p + (("x", n - e[1]),))))
                    else:
                        nxt.append((s, c, self.norm_path(p + (("x", Lin(e[1])),))))
                elif k == "ss":
                    for s2, n in self.ref_len(s, Ref(c, p)):
                        hi = n - e[2] if e[3] else Lin(e[2])
                        nxt.append((s2, c, self.norm_path(p + (("r", Lin(e[1]), hi),))))
                else:
                    raise Unsupported("projection %r" % (e,))
            cur = nxt
        return cur

    def read_place(self, st, fr, pl):
        out = []
        for s, c, p in self.place(st, fr, pl):
            out.extend(self.load(s, c, p))
        return out

    # ------------------------------------------------------------ operands
    def const_body(self, st, b, fr):
        out = []
        for o in self.call_body(st, b, [], fr.depth + 1):
            if o[0] == "ret":
                s, v = o[1], o[2]
                if isinstance(v, Ref) and v.c in s.mem and v.c[0][0] == "f" and not self.refs_into(s.mem[v.c], v.c[0], s):
                    # a reference to a constant: the same cell every time
                    x = s.mem[v.c]
                    for c in [c for c in s.mem if c[0] == v.c[0]]:
                        del s.mem[c]
                    v = Ref(("k", "const", b.path, repr(x)), v.p)
                    s.mem[v.c] = x
                out.append((s, v))
            else:
                raise Unsupported("constant %s: %s" % (b.path, o[2]))
        return out

    def const(self, st, c, fr):
        k = c["k"]
        t = c.get("t") or {}
        if (t.get("e") or {}).get("p") == "std::thread::LocalKey" or t.get("p") == "std::thread::LocalKey":
            v = Term("localkey", c.get("of") or c.get("item"))
            if t["k"] == "ref":
                cc = ("k", "localkey", str(v.a))
                st.mem[cc] = v
                v = Ref(cc)
            return [(st, v)]
        if k == "fn":
            return [(st, FnV(c))]
        if k == "int":
            t = c["t"]
            if t["k"] == "bool":
                return [(st, bool(c["v"]))]
            if t["k"] in ("int", "char"):
                return [(st, Lin(c["v"]))]
            if t["k"] == "adt":
                a = self.P.adts.get(t["p"])
                if a and a["enum"]:
                    for i, v in enumerate(a["v"]):
                        if str(v["d"]) == str(c["v"]):
                            return [(st, Agg(t["p"], i, ()))]
                if t["p"] == OPTION:
                    pass
            return [(st, Top("scalar const of %s" % ty_key(t)))]
        if k == "zst":
            t = c["t"]
            if t["k"] == "tuple":
                return [(st, UNIT)]
            if t["k"] == "closure":
                return [(st, Clo(t["p"], ()))]
            if t["k"] == "adt":
                return [(st, Agg(t["p"], 0, ()))]
            return [(st, Term("zst", str(t)))]
        if k == "bytes":
            b = Bytes(c["b"], None)
            cc = ("k", bytes(c["b"]), json_key(c["t"]))
            t = c["t"]
            e = t.get("e", {})
            if t["k"] in ("ref", "ptr"):
                if e["k"] == "str" or (e["k"] == "slice" and e["e"].get("n") == "u8") or (e["k"] == "array" and e["e"].get("n") == "u8"):
                    st.mem[cc] = b
                    return [(st, Ref(cc, (("r", ZERO, Lin(len(b.b))),) if e["k"] != "array" else ()))]
                if e["k"] == "int":
                    n = int.from_bytes(b.b[:{"u8": 1, "u32": 4, "i32": 4, "usize": 8, "u64": 8}.get(e["n"], 4)], "little", signed=e["n"].startswith("i"))
                    st.mem[cc] = Lin(n)
                    return [(st, Ref(cc))]
                if e["k"] == "array" and e["e"]["k"] == "int":
                    w = {"u8": 1, "u32": 4, "i32": 4, "usize": 8, "u64": 8}.get(e["e"]["n"])
                    if w:
                        vs = [("e", Lin(int.from_bytes(b.b[i * w:(i + 1) * w], "little", signed=e["e"]["n"].startswith("i")))) for i in range(e["n"])]
                        st.mem[cc] = Seq(vs)
                        return [(st, Ref(cc))]
            return [(st, Top("const bytes of %s" % ty_key(t)))]
        if k == "mem":
            t = c["t"]
            if t["k"] == "array" and t["e"]["k"] == "int":
                w = {"u8": 1, "u32": 4, "i32": 4, "usize": 8, "u64": 8}.get(t["e"]["n"])
                if w:
                    b = bytes(c["b"])
                    return [(st, Seq([("e", Lin(int.from_bytes(b[i * w:(i + 1) * w], "little"))) for i in range(t["n"])]))]
            return [(st, Top("const of %s" % ty_key(t)))]
        if k == "promoted":
            of = self.P.bodies.get(c["of"]) or self.P.consts.get(c["of"])
            if of:
                pb = of.promoted[c["i"]]
                return self.const_body(st, pb, fr)
        if k == "item":
            b = self.P.consts.get(c["item"])
            if b:
                return self.const_body(st, b, fr)
        return [(st, Top("constant %s" % (c.get("item") or c.get("s") or k)))]

    def operand(self, st, fr, o):
        if o[0] in ("copy", "move"):
            return self.read_place(st, fr, o[1])
        if o[0] == "const":
            return self.const(st, o[1], fr)
        return [(st, False)]

    def operands(self, st, fr, ops):
        cur = [(st, ())]
        for o in ops:
            nxt = []
            for s, vs in cur:
                for s2, v in self.operand(s, fr, o):
                    nxt.append((s2, vs + (v,)))
            cur = nxt
        return cur

    # ------------------------------------------------------------ arithmetic
    def as_int(self, v):
        if isinstance(v, Lin):
            return v
        if v is True:
            return ONE
        if v is False:
            return ZERO
        return None

    def int_ty(self, fr, o):
        """type name of an operand"""
        if o[0] == "const":
            t = o[1].get("t", {})
        else:
            t = self.place_ty(fr, o[1])
        return t

    def place_ty(self, fr, pl):
        t = fr.b.locals[pl[0]]
        for e in pl[1:]:
            if e[0] == "d":
                t = t.get("e") or (t["a"][0] if t.get("a") else {"k": "other"})
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "ci"):
                t = t.get("e", {"k": "other"})
        return t

    def wrap(self, st, v, lo, hi):
        """v reduced to [lo,hi] modulo hi-lo+1: [(st, Lin)]"""
        if st.num.entails_ge(v - lo) and st.num.entails_ge(Lin(hi) - v):
            return [(st, v)]
        m = hi - lo + 1
        out = []
        for s, b in cases(st, f_and(f_ge(v - lo), f_ge(Lin(hi) - v))):
            if b:
                out.append((s, v))
            else:
                for s2, up in cases(s, f_ge(v - lo)):
                    w = v - m if up else v + m
                    if s2.num.entails_ge(w - lo) and s2.num.entails_ge(Lin(hi) - w):
                        out.append((s2, w))
                    else:
                        # v = q * m + w with lo <= w <= hi
                        key = ("wrap", v, lo, m)
                        q = s2.facts.get(key)
                        if q is None:
                            q = self.intsym(s2, fresh("wrap"), None, None)
                            s2.num.add_ge(v - q * m - lo)
                            s2.num.add_ge(Lin(hi) - v + q * m)
                            s2.facts[key] = q
                        out.append((s2, v - q * m))
        return out

    def divmod_const(self, st, x, d):
        """x >= 0, d > 0: quotient and remainder symbols"""
        if x.is_const():
            return Lin(x.c // d), Lin(x.c % d)
        if all(k % d == 0 for _, k in x.t) :
            q = Lin(x.c // d, tuple((m, k // d) for m, k in x.t))
            return q, Lin(x.c % d)
        rem = Lin(x.c % d, tuple((m, k) for m, k in x.t if k % d))
        if rem.t and len(rem.t) < len(x.t) and st.num.entails_ge(rem) and st.num.entails_ge(Lin(d - 1) - rem):
            return Lin(x.c // d, tuple((m, k // d) for m, k in x.t if k % d == 0)), rem
        key = ("div", x, d)
        q = st.facts.get(key)
        if q is None:
            q = self.intsym(st, fresh("q"), None, None)
            st.num.add_ge(x - q * d)
            st.num.add_ge(q * d + (d - 1) - x)
            if st.num.entails_ge(x):
                st.num.add_ge(q)
            st.facts[key] = q
        return q, x - q * d

    def binop(self, st, op, a, b, ta):
        """[(st, value)]"""
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if is_fm(a) and is_fm(b) and not (isinstance(a, Lin)):
                f = f_iff(a, b)
                if op == "Eq":
                    return [(st, f)]
                if op == "Ne":
                    return [(st, f_not(f))]
                x, y = a, b
                if op == "Lt":
                    return [(st, f_and(f_not(x), y))]
                if op == "Le":
                    return [(st, f_or(f_not(x), y))]
                if op == "Gt":
                    return [(st, f_and(x, f_not(y)))]
                if op == "Ge":
                    return [(st, f_or(x, f_not(y)))]
            x, y = self.as_int(a), self.as_int(b)
            if x is None or y is None:
                if isinstance(a, Ref) and isinstance(b, Ref) and op in ("Eq", "Ne"):
                    h = getattr(self, "ptr_eq_hook", None)
                    if h:
                        return [(s, f if op == "Eq" else f_not(f)) for s, f in h(self, st, a, b)]
                if isinstance(a, (Term, Top)) or isinstance(b, (Term, Top)):
                    raise Unsupported("comparison of %r and %r" % (a, b))
                raise Unsupported("comparison of %r and %r" % (a, b))
            if op in ("Eq", "Ne") and self.int_eq_hook:
                r = self.int_eq_hook(self, st, x, y)
                if r is not None:
                    return [(s, b if op == "Eq" else not b) for s, b in r]
            f = {"Eq": f_eq(x - y), "Ne": f_ne(x - y), "Lt": f_lt(x, y), "Le": f_le(x, y), "Gt": f_lt(y, x), "Ge": f_le(y, x)}[op]
            t = st.truth(f)
            return [(st, f if t is None else t)]
        if op in ("BitAnd", "BitOr", "BitXor") and is_fm(a) and is_fm(b):
            if op == "BitAnd":
                return [(st, f_and(a, b))]
            if op == "BitOr":
                return [(st, f_or(a, b))]
            return [(st, f_not(f_iff(a, b)))]
        x, y = self.as_int(a), self.as_int(b)
        if x is None or y is None:
            raise Unsupported("arithmetic on %r, %r" % (a, b))
        lo, hi = INTB.get(ta.get("n"), (None, None))
        if op in ("Add", "AddUnchecked", "AddWithOverflow"):
            r = x + y
        elif op in ("Sub", "SubUnchecked", "SubWithOverflow"):
            r = x - y
        elif op in ("Mul", "MulUnchecked", "MulWithOverflow"):
            r = x * y
        elif op in ("Div", "Rem"):
            if y.is_const() and y.c > 0 and st.num.entails_ge(x):
                q, m = self.divmod_const(st, x, y.c)
                return [(st, q if op == "Div" else m)]
            if y.is_const() and y.c > 0:
                out = []
                for s, pos in cases(st, f_ge(x)):
                    if pos:
                        q, m = self.divmod_const(s, x, y.c)
                    else:
                        q, m = self.divmod_const(s, -x, y.c)
                        q, m = -q, -m
                    out.append((s, q if op == "Div" else m))
                return out
            s = st
            s.add_taint("division")
            return [(s, self.intsym(s, fresh("div"), lo, hi))]
        elif op in ("Shl", "ShlUnchecked"):
            if y.is_const() and 0 <= y.c < 128:
                return self.wrap(st, x * (1 << y.c), lo, hi)
            st.add_taint("shift")
            return [(st, self.intsym(st, fresh("shl"), lo, hi))]
        elif op in ("Shr", "ShrUnchecked"):
            if y.is_const() and st.num.entails_ge(x):
                return [(st, self.divmod_const(st, x, 1 << y.c)[0])]
            st.add_taint("shift")
            return [(st, self.intsym(st, fresh("shr"), lo, hi))]
        elif op in ("BitAnd", "BitOr", "BitXor"):
            return self.bitop(st, op, x, y, lo, hi)
        elif op == "Cmp":
            out = []
            for s, l in cases(st, f_lt(x, y)):
                if l:
                    out.append((s, Agg("std::cmp::Ordering", 0, ())))
                else:
                    for s2, e in cases(s, f_eq(x - y)):
                        out.append((s2, Agg("std::cmp::Ordering", 1 if e else 2, ())))
            return out
        else:
            raise Unsupported("operator " + op)
        if op.endswith("WithOverflow"):
            inr = f_and(f_ge(r - lo), f_ge(Lin(hi) - r))
            t = st.truth(inr)
            ov = f_not(inr) if t is None else (not t)
            return [(st, Agg("tuple", 0, (r, ov)))]
        if op.endswith("Unchecked"):
            return [(st, r)]
        return self.wrap(st, r, lo, hi)

    def bitop(self, st, op, x, y, lo, hi):
        if x.is_const() and y.is_const():
            a, b = x.c, y.c
            return [(st, Lin({"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[op]))]
        if x.is_const():
            x, y = y, x
        n = st.num
        if op == "BitAnd" and y.is_const() and y.c >= 0 and (y.c & (y.c + 1)) == 0 and n.entails_ge(x):
            return [(st, self.divmod_const(st, x, y.c + 1)[1])]
        if op in ("BitOr", "BitXor") and not y.is_const():
            for a, b in ((x, y), (y, x)):
                for sh in (1, 2, 3, 4, 8, 12, 16, 20):
                    m = 1 << sh
                    if all(k % m == 0 for _, k in a.t) and a.c % m == 0 and n.entails_ge(b) and n.entails_ge(Lin(m - 1) - b):
                        return [(st, a + b)]
        if op == "BitOr" and y.is_const() and y.c == 0:
            return [(st, x)]
        if op == "BitXor" and y == ONE:
            h = st.xor.get(x)
            if h is None:
                # x = 2q + r ; x ^ 1 = 2q + 1 - r
                out = []
                q, r = self.divmod_const(st, x, 2)
                for s, z in cases(st, f_eq(r)):
                    if not z:
                        s.num.add_eq(r - 1)
                    w = x + 1 if z else x - 1
                    out.append((s, w))
                return out
        if op in ("BitOr", "BitAnd") and y == ONE:
            q, r = self.divmod_const(st, x, 2)
            if op == "BitAnd":
                return [(st, r)]
            return [(s, x + 1 if z else x) for s, z in cases(st, f_eq(r))]
        st.add_taint("bit operation")
        return [(st, self.intsym(st, fresh("bit"), lo, hi))]

    def cast(self, st, kind, v, ty, src):
        if kind.startswith("IntToInt"):
            if ty["k"] == "int":
                x = self.as_int(v)
                if x is None:
                    if is_fm(v):
                        return [(s, ONE if b else ZERO) for s, b in cases(st, v)]
                    if isinstance(v, Agg):
                        a = self.P.adts.get(v.k)
                        if a:
                            return [(st, Lin(int(a["v"][v.var]["d"])))]
                    raise Unsupported("int cast of %r" % (v,))
                lo, hi = INTB[ty["n"]]
                return self.wrap(st, x, lo, ty.get("hi", hi))
            if ty["k"] == "char":
                return [(st, v)]
        if kind.startswith(("PointerCoercion", "PtrToPtr", "Transmute", "Subtype", "BoxDerefTransmute")):
            if isinstance(v, Ref) and ty["k"] in ("ref", "ptr") and ty["e"]["k"] == "slice":
                return self.as_slice(st, v)
            return [(st, v)]
        raise Unsupported("cast " + kind)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            pl = r[2]
            return [(s, self.simpref(s, Ref(c, p))) for s, c, p in self.place(st, fr, pl)]
        if k == "bin":
            out = []
            ta = self.int_ty(fr, r[2])
            for s, (a, b) in self.operands(st, fr, [r[2], r[3]]):
                out.extend(self.binop(s, r[1], a, b, ta))
            return out
        if k == "un":
            out = []
            for s, v in self.operand(st, fr, r[2]):
                if r[1] == "Not":
                    if is_fm(v):
                        out.append((s, f_not(v)))
                    else:
                        raise Unsupported("bitwise not")
                elif r[1] == "Neg":
                    out.append((s, -v))
                elif r[1] == "PtrMetadata":
                    out.extend(self.ref_len(s, v))
                else:
                    raise Unsupported("unary " + r[1])
            return out
        if k == "discr":
            out = []
            for s, v in self.read_place(st, fr, r[1]):
                for s2, a in self.agg(s, v):
                    if isinstance(a, Agg):
                        ad = self.P.adts.get(a.k)
                        out.append((s2, Lin(int(ad["v"][a.var]["d"])) if ad and ad["v"] else Lin(a.var)))
                    elif isinstance(a, Term):
                        h = getattr(self, "term_discr_hook", None)
                        if not h:
                            raise Unsupported("discriminant of %r" % (a,))
                        out.extend(h(self, s2, a))
                    else:
                        raise Unsupported("discriminant of %r" % (a,))
            return out
        if k == "agg":
            kk = r[1]
            out = []
            for s, vs in self.operands(st, fr, r[2]):
                if kk["k"] == "tuple":
                    out.append((s, Agg("tuple", 0, vs)))
                elif kk["k"] == "adt":
                    out.append((s, Agg(kk["p"], kk["v"], vs)))
                elif kk["k"] == "array":
                    out.append((s, Seq([("e", v) for v in vs])))
                elif kk["k"] == "closure":
                    out.append((s, Clo(kk["p"], vs)))
                else:
                    raise Unsupported("aggregate " + str(kk))
            return out
        if k == "cast":
            out = []
            for s, v in self.operand(st, fr, r[2]):
                out.extend(self.cast(s, r[1], v, r[3], self.int_ty(fr, r[2])))
            return out
        if k == "repeat":
            out = []
            for s, v in self.operand(st, fr, r[1]):
                n = r[2]
                if n is not None and n <= 32:
                    out.append((s, Seq([("e", v)] * n)))
                else:
                    raise Unsupported("repeat")
            return out
        raise Unsupported("rvalue %s" % (r[1] if k == "other" else k))

    def simpref(self, st, r):
        """&(*x)[..whole] etc: keep as is"""
        return Ref(r.c, self.norm_path(r.p))

    # ------------------------------------------------------------ execution
    def call_body(self, st, body, args, depth):
        """inline a body; outcomes: ('ret', st, v) | ('panic', st, info) | ('unk', st, why)"""
        if depth > self.maxdepth:
            return [("unk", st, "call depth")]
        self.fid += 1
        fr = Frame("f%d" % self.fid, body, depth)
        for i, a in enumerate(args):
            st.mem[(fr.id, i + 1)] = a
        outs = []
        for o in self.run_region(st, fr, 0, None, None):
            if o[0] == "ret":
                s = o[1]
                v = s.mem.get((fr.id, 0), UNIT)
                outs.append(("ret", s, v))
                self.drop_frame(s, fr, v)
            else:
                outs.append(o)
        return outs

    def drop_frame(self, st, fr, v):
        # references into the frame cannot outlive it, except promoted constants
        keep = self.refs_into(v, fr.id, st)
        if keep:
            return
        for c in [c for c in st.mem if c[0] == fr.id]:
            del st.mem[c]

    def refs_into(self, v, fid, st):
        todo = [v]
        while todo:
            x = todo.pop()
            if isinstance(x, Ref):
                if x.c[0] == fid:
                    return True
            elif isinstance(x, (Agg, Clo)):
                todo.extend(x.f)
            elif isinstance(x, Seq):
                todo.extend(g[1] for g in x.s if g[0] == "e")
        return False

    def run_region(self, st, fr, start, head, blocks):
        """explore from start; leaving `blocks` yields ('exit', st, bb); reaching head yields ('back', st, bb)"""
        loops = fr.b.loops()
        outs = []
        work = [(st, start, True)]
        while work:
            s, bb, first = work.pop()
            if not first:
                if bb == head:
                    outs.append(("back", s, bb))
                    continue
            if blocks is not None and bb not in blocks:
                outs.append(("exit", s, bb))
                continue
            if bb in loops and bb != head:
                for o in self.run_loop(s, fr, bb, loops[bb]):
                    if o[0] == "exit":
                        work.append((o[1], o[2], False))
                    else:
                        outs.append(o)
                continue
            try:
                res = self.block(s, fr, bb)
            except Unsupported as e:
                s.add_taint(str(e))
                outs.append(("unk", s, "%s [%s:%s bb%d]" % (e, fr.b.path, fr.b.blocks[bb]["l"], bb)))
                continue
            for o in res:
                if o[0] == "goto":
                    work.append((o[1], o[2], False))
                else:
                    outs.append(o)
        return outs

    def block(self, st, fr, bb):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("step budget exhausted")
        blk = fr.b.blocks[bb]
        cur = [st]
        for sm in blk["s"]:
            k = sm[0]
            nxt = []
            if k == "=":
                for s in cur:
                    pl = sm[1]
                    if len(pl) == 1:
                        for s2, v in self.rvalue(s, fr, sm[2]):
                            s2.mem[(fr.id, pl[0])] = v
                            nxt.append(s2)
                    else:
                        for s2, v in self.rvalue(s, fr, sm[2]):
                            for s3, c, p in self.place(s2, fr, pl):
                                nxt.extend(self.store(s3, c, p, v))
            elif k == "dead":
                for s in cur:
                    s.mem.pop((fr.id, sm[1]), None)
                nxt = cur
            elif k == "sd":
                for s in cur:
                    for s3, c, p in self.place(s, fr, sm[1]):
                        for s4, v in self.load(s3, c, p):
                            nxt.extend(self.store(s4, c, p, Agg(v.k, sm[2], v.f)))
            elif k == "intr":
                nxt = cur
            else:
                nxt = cur
            cur = nxt
            if not cur:
                return []
        out = []
        for s in cur:
            out.extend(self.term(s, fr, blk))
        return out

    def term(self, st, fr, blk):
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [("goto", st, t[1])]
        if k == "ret":
            return [("ret", st, None)]
        if k == "unreachable":
            return []
        if k == "drop":
            return [("goto", st, t[2])]
        if k == "switch":
            out = []
            for s, v in self.operand(st, fr, t[1]):
                out.extend(self.switch(s, fr, blk, v, t))
            return out
        if k == "assert":
            out = []
            for s, v in self.operand(st, fr, t[1]):
                for s2, b in cases(s, v):
                    if b == t[2]:
                        out.append(("goto", s2, t[4]))
                    else:
                        msg = t[3]
                        kind = "overflow" if "verflow" in msg else ("bounds" if "BoundsCheck" in msg else "assert")
                        s2.note("%s:%d assertion fails: %s" % (fr.b.file, blk["l"], msg[:60]))
                        out.append(("panic", s2, (kind, "%s in %s" % (msg[:80], fr.b.path))))
            return out
        if k == "call":
            out = []
            for s, f in self.operand(st, fr, t[1]):
                for s2, args in self.operands(s, fr, t[2]):
                    for o in self.call(s2, f, list(args), fr, blk):
                        if o[0] == "ret":
                            if t[4] is None:
                                continue
                            for s3, c, p in self.place(o[1], fr, t[3]):
                                for s4 in self.store(s3, c, p, o[2]):
                                    out.append(("goto", s4, t[4]))
                        else:
                            out.append(o)
            return out
        raise Unsupported("terminator %s" % (t[1] if len(t) > 1 else k))

    def switch(self, st, fr, blk, v, t):
        out = []
        line = "%s:%d" % (fr.b.file.split("/")[-1], blk["l"])
        if is_fm(v):
            for s, b in cases(st, v):
                tgt = None
                for val, bb in t[2]:
                    if val == (1 if b else 0):
                        tgt = bb
                if tgt is None:
                    tgt = t[3]
                if not (v is True or v is False):
                    s.note("%s %s" % (line, show_f(v if b else f_not(v))))
                out.append(("goto", s, tgt))
            return out
        x = self.as_int(v)
        if x is None:
            raise Unsupported("switch on %r" % (v,))
        cur = st
        for val, bb in t[2]:
            a = cur.fork()
            f = f_eq(x - val)
            tr = cur.truth(f)
            if tr is True:
                out.append(("goto", cur, bb))
                return out
            if tr is False:
                continue
            for s in a.assume(f):
                s.note("%s %r = %d" % (line, x, val))
                out.append(("goto", s, bb))
            n = cur.assume(f_not(f))
            if not n:
                return out
            cur = n[0]
        out.append(("goto", cur, t[3]))
        return out

    # ------------------------------------------------------------ calls
    def call(self, st, f, args, fr, blk):
        line = "%s:%d" % (fr.b.file.split("/")[-1], blk["l"])
        if isinstance(f, FnV):
            return self.call_fn(st, f.d, args, fr, line)
        if isinstance(f, (Clo, Ref)):
            return self.call_value(st, f, args, fr)
        raise Unsupported("call of %r" % (f,))

    def call_fn(self, st, d, args, fr, line="?"):
        p = d["p"]
        r = d.get("r")
        for q in (r, p):
            if q in self.contracts:
                self.used_contracts.add(q)
                res = self.contracts[q](self, st, args, {"d": d, "line": line, "fr": fr})
                if res is not None:
                    return res
        b = self.P.bodies.get(r) if r else None
        if b is None and d.get("local"):
            b = self.P.bodies.get(p)
            if b is not None and "intrait" in b.d and not r:
                b2 = self.dyn_dispatch(st, d, args)
                b = b2 or b
        if b is not None:
            return self.inline(st, b, args, fr, line)
        if "trait" in d:
            b = self.dyn_dispatch(st, d, args)
            if b is not None:
                for q in (b.path,):
                    if q in self.contracts:
                        self.used_contracts.add(q)
                        res = self.contracts[q](self, st, args, {"d": d, "line": line, "fr": fr})
                        if res is not None:
                            return res
                return self.inline(st, b, args, fr, line)
        m = self.models.get(p)
        if m is None and "trait" in d:
            m = self.models.get(d["trait"] + "::" + d["m"])
        if m is None:
            from stdmodels import generic
            m = generic(self, d)
        if m is None:
            self.unknown[p] = self.unknown.get(p, 0) + 1
            raise Unsupported("call to " + p)
        return m(self, st, args, {"d": d, "line": line, "fr": fr})

    def inline(self, st, b, args, fr, line):
        self.inlined.add(b.path)
        st.note("%s call %s" % (line, b.path.replace("crate::", "")))
        return self.call_body(st, b, args, fr.depth + 1)

    def call_value(self, st, f, args, fr):
        """call a closure / fn value with already untupled args"""
        if isinstance(f, FnV):
            return self.call_fn(st, f.d, args, fr)
        env = f
        while isinstance(f, Ref):
            vs = self.rload(st, f)
            if len(vs) != 1:
                raise Unsupported("closure pointer")
            st, f2 = vs[0]
            if isinstance(f2, FnV):
                return self.call_fn(st, f2.d, args, fr)
            env, f = f, f2
        if not isinstance(f, Clo):
            if isinstance(f, Term):
                h = getattr(self, "term_call_hook", None)
                if h:
                    return h(self, st, f, args)
            raise Unsupported("call of %r" % (f,))
        b = self.P.bodies.get(f.p)
        if b is None:
            raise Unsupported("closure body " + f.p)
        byref = b.locals[1]["k"] == "ref"
        if byref and not isinstance(env, Ref):
            env = Ref(self.newcell(st, f, "clo"))
        if not byref and isinstance(env, Ref):
            env = f
        return self.call_body(st, b, [env] + list(args), fr.depth + 1)

    def rt_key(self, st, v):
        if isinstance(v, Agg):
            return v.k
        if isinstance(v, SymE):
            return v.ty["p"]
        return None

    def dyn_dispatch(self, st, d, args):
        """crate impl of a trait method selected by the static self type, else by the run-time shape of the receiver"""
        cands = self.P.impls.get((d["trait"], d["m"]))
        if not cands or not args:
            return None
        if (d.get("self") or {}).get("k") in ("ref", "ptr") and d["trait"].startswith(("std::cmp::", "std::hash::")):
            return None
        sty = d.get("self")
        v = args[0]
        depth = 0
        while isinstance(v, Ref) and depth < 4:
            try:
                vs = self.rload(st.fork(), v)
            except Unsupported:
                break
            if len(vs) != 1:
                break
            v = vs[0][1]
            depth += 1
        key = self.rt_key(st, v)
        for t, targs, b in cands:
            bt = base_ty(t)
            if bt["k"] == "adt" and bt["p"] == key:
                if d["trait"] in ("std::convert::From", "std::convert::Into"):
                    continue
                return b
        return None

    # ------------------------------------------------------------ loops
    def run_loop(self, st, fr, head, blocks):
        def iteration(s):
            return self.run_region(s, fr, head, head, blocks)

        def clean(s):
            live = fr.b.live_at(head)
            for c in [c for c in s.mem if c[0] == fr.id and c[1] not in live]:
                del s.mem[c]
        where = "%s bb%d" % (fr.b.path, head)
        return self.loop(st, iteration, clean, where)

    def loop(self, st, iteration, clean, where, writeonly=()):
        """writeonly: cells that an iteration never reads (accumulators), which a divergence argument may ignore"""
        self.ldepth += 1
        try:
            return self.loop1(st, iteration, clean, where, writeonly)
        finally:
            self.ldepth -= 1

    def loop1(self, st, iteration, clean, where, writeonly=()):
        self.loops_seen += 1
        outs = []
        cur = [st]
        hists = [()]
        n = 0
        while cur:
            nxt = []
            nhist = []
            nex = 0
            for s, hist in zip(cur, hists):
                for h in self.rewrite_always:
                    h(self, s)
                clean(s)
                snap = dict(s.mem)
                for w in writeonly:
                    snap.pop(w, None)
                hist = (snap,) + hist[:2]
                for o in iteration(s):
                    if o[0] == "back":
                        clean(o[1])
                        m2 = o[1].mem
                        if any(all(k in m2 and (m2[k] is x or m2[k] == x) for k, x in h.items()) for h in hist):
                            outs.append(("panic", o[1], ("diverge", "the loop comes back to the same state at " + where)))
                            continue
                        nxt.append(o[1])
                        nhist.append(hist)
                    else:
                        outs.append(o)
                        nex += 1
            n += 1
            cur, hists = nxt, nhist
            if not cur:
                return outs
            if n >= self.peel and not (nex == 0 and len(cur) <= 1 and n < 60):
                break
        # abstract phase
        tr = cur[0].tr
        if getattr(self, "exact_only", False):
            return outs if self.exact_only == "search" else outs + [("unk", s, "loop not finished at " + where) for s in cur]
        groups = []     # list of summary states
        for s in cur:
            clean(s)
            self.normalise(s)
            self.canon(s)
        work = cur
        summaries = {}
        final = {}
        rounds = 0
        while work:
            rounds += 1
            self.fix_iters += 1
            if rounds > 1500:
                for s in work:
                    outs.append(("unk", s, "loop fixpoint not reached at " + where))
                break
            s = work.pop(0 if self.fifo else -1)
            s.exact = False
            key = self.shape(s)
            lst = summaries.setdefault(key, [])
            new = None
            if not lst:
                if len(summaries) > self.loopvariants * 10:
                    outs.append(("unk", s, "too many loop shapes at " + where))
                    continue
                new, phis = self.generalise(s)
                if new is None:
                    new, phis = s, []
                lst.append([new, 0])
                final[key] = []
            else:
                summ, cnt = lst[0]
                if self.subsumed(s, summ):
                    continue
                if self.debug:
                    print("=== not subsumed at", where, "count", cnt, "key", hash(key) % 10007, "reason", self.why)
                    if self.debug > 1:
                        print("  summary", {k: v for k, v in summ.mem.items() if k[0] not in "sk"}, summ.num)
                        print("  state  ", {k: v for k, v in s.mem.items() if k[0] not in "sk"}, s.num)
                new = self.join(summ, s, widen=cnt >= self.widen_delay)
                rest = []
                for s2 in work:         # take the other pending states of this shape in the same round
                    s2.exact = False
                    if self.shape(s2) != key:
                        rest.append(s2)
                    elif not self.subsumed(s2, new):
                        new = self.join(new, s2, widen=cnt >= self.widen_delay)
                work = rest
                lst[0] = [new, cnt + 1]
            res = []
            for o in iteration(new.fork()):
                if o[0] == "back":
                    s2 = o[1]
                    clean(s2)
                    self.normalise(s2)
                    self.canon(s2)
                    work.append(s2)
                else:
                    res.append(o)
            final[key] = res
        for k in final:
            outs.extend(final[k])
        return outs

    def canon(self, st):
        """forget values that are no longer reachable: unpinned element reads, dead symbols"""
        from stdmodels import gc
        gc(self, st)
        keep = set(self.stable)
        for g in self.gs(st):
            keep |= g.syms()
        for v in st.mem.values():
            self.syms_of(v, keep)
        if not self.keep_reads:
            nr = {}
            for k, lst in st.reads.items():
                l2 = tuple(x for x in lst if x in self.pinned.get(k, ()) or (k in self.keep_arrays))
                if l2:
                    nr[k] = l2
            st.reads = nr
        for k, lst in st.reads.items():
            for i, v in lst:
                self.syms_of(i, keep)
                self.syms_of(v, keep)
        for k, v in list(st.facts.items()):
            if k[0] in ("div", "wrap"):
                x = k[1]
                if not x.syms() <= keep:
                    del st.facts[k]
                    continue
            self.syms_of(k, keep)
            self.syms_of(v, keep)
        h = self.keep_hook
        if h:
            h(self, st, keep)
        st.num = project(st.num, keep)

    def normalise(self, st):
        for h in self.rewrite:
            h(self, st)

    # shape: structure of memory without numbers
    def shape(self, st):
        items = []
        for c in sorted(st.mem, key=str):
            if c[0] == "k":
                continue
            if c[0] == "s":
                continue
            items.append((str(c) if c[0] != "h" else "h", self.vshape(st.mem[c])))
        return tuple(sorted(items, key=str)) + (("keyfacts", self.fact_shape(st)),)

    def fact_shape(self, st):
        """predicate partition: position of every number in memory relative to the ghost values"""
        r = []
        if self.ghosts or self.ghost_cells:
            gs = self.gs(st)
            for c in sorted(st.mem, key=str):
                if c[0] in ("k", "s") and c[0] != "loop":
                    continue
                for e in self.leaves(st.mem[c], []):
                    if e.is_const():
                        continue
                    ke = self.kindof(e)
                    for g in gs:
                        if ke != self.kindof(g):
                            continue
                        if e == g:
                            r.append("=")
                            continue
                        key = (e, g)
                        a = st.num.entails_ge(e - g)
                        b = st.num.entails_ge(g - e)
                        r.append(("g" if a else "") + ("l" if b else "") + ("d" if (a != b and st.num.entails_ne(e - g)) else ""))
        h = self.shape_hook
        return tuple(r) + (tuple(h(self, st)) if h else ())

    def gs(self, st):
        return list(self.ghosts) + [st.mem[c] for c in self.ghost_cells if c in st.mem]

    def kindof(self, e):
        """'c' (character) or 'i' (everything else), by the origin of its symbols"""
        for s in e.syms():
            k = self.kinds.get(s)
            if k:
                return k
            if ".start" in s or ".end" in s:
                return "c"
        return "i"

    def leaves(self, v, acc):
        if isinstance(v, Lin):
            acc.append(v)
        elif isinstance(v, (Agg, Clo)):
            for x in v.f:
                self.leaves(x, acc)
        elif isinstance(v, Ref):
            pass
        elif isinstance(v, Seq):
            for g in v.s:
                if g[0] == "e":
                    self.leaves(g[1], acc)
        elif isinstance(v, Term):
            for x in v.a:
                self.leaves(x, acc)
        return acc

    def vshape(self, v):
        if isinstance(v, Lin):
            return "i"
        if v is True or v is False:
            return v if not getattr(self, "merge_bools", False) else "b"
        if isinstance(v, tuple):
            return "b"
        if isinstance(v, Agg):
            return (v.k, v.var) + tuple(self.vshape(x) for x in v.f)
        if isinstance(v, Clo):
            return ("clo", v.p) + tuple(self.vshape(x) for x in v.f)
        if isinstance(v, Ref):
            return ("&", str(v.c) if v.c[0] != "h" else "h") + tuple(x[0] for x in v.p)
        if isinstance(v, Seq):
            return ("seq",) + tuple((g[0], self.vshape(g[1]) if g[0] == "e" else (g[1].name if g[0] == "s" else self.vshape(g[1]))) for g in v.s)
        if isinstance(v, SymE):
            return ("sym", v.ty["p"])
        if isinstance(v, Term):
            return ("term", v.op) + tuple(self.vshape(x) if isinstance(x, (V, Lin, tuple)) else x for x in v.a)
        return type(v).__name__

    def generalise(self, st):
        return st, []

    def phi_match(self, a, b, phis):
        """structural join of two values of equal shape; phis: dict (ea, eb) -> sym Lin"""
        if a is b:
            return a
        if isinstance(a, Lin):
            if a == b:
                return a
            k = (a, b)
            # reuse linear offsets
            p = phis.get(k)
            if p is None:
                for (x, y), q in phis.items():
                    d = a - x
                    if d.is_const() and b - y == d:
                        return q + d.c
                p = sym(fresh("phi"))
                nm = p.t[0][0][0]
                ka = self.kindof(a) if not a.is_const() else self.kindof(b)
                if ka != "i":
                    self.kinds[nm] = ka
                phis[k] = p
            return p
        if isinstance(a, Agg):
            return Agg(a.k, a.var, [self.phi_match(x, y, phis) for x, y in zip(a.f, b.f)])
        if isinstance(a, Clo):
            return Clo(a.p, [self.phi_match(x, y, phis) for x, y in zip(a.f, b.f)])
        if isinstance(a, Ref):
            if a.c != b.c:
                raise Mismatch("pointer %r / %r" % (a, b))
            return Ref(a.c, [tuple([x[0]] + [self.phi_match(u, w, phis) if isinstance(u, Lin) else u for u, w in zip(x[1:], y[1:])]) for x, y in zip(a.p, b.p)])
        if isinstance(a, Seq):
            r = []
            for g, h in zip(a.s, b.s):
                if g[0] == "e":
                    r.append(("e", self.phi_match(g[1], h[1], phis)))
                elif g[0] == "s":
                    r.append(("s", g[1], self.phi_match(g[2], h[2], phis), self.phi_match(g[3], h[3], phis)))
                else:
                    r.append(("t", self.phi_match(g[1], h[1], phis), self.phi_match(g[2], h[2], phis)))
            return Seq(r)
        if isinstance(a, Term):
            if a.op != b.op or len(a.a) != len(b.a):
                raise Mismatch("term")
            return Term(a.op, *[self.phi_match(x, y, phis) if isinstance(x, (V, Lin)) else self._same(x, y) for x, y in zip(a.a, b.a)])
        if isinstance(a, SymE):
            if a.n == b.n:
                return a
            raise Mismatch("symbolic enum %s / %s" % (a.n, b.n))
        if a == b:
            return a
        if is_fm(a) and is_fm(b):
            return ("at", fresh("bphi"), True)
        raise Mismatch("%r / %r" % (a, b))

    def _same(self, x, y):
        if x != y:
            raise Mismatch("term argument")
        return x

    def cellmap(self, a, b):
        """match heap cells by creation order within equal-shape states"""
        ka = [c for c in a.mem if c[0] == "h"]
        kb = [c for c in b.mem if c[0] == "h"]
        if set(ka) == set(kb):
            return {}
        onlya = sorted([c for c in ka if c not in b.mem], key=lambda c: int(c[1].split("$")[1]))
        onlyb = sorted([c for c in kb if c not in a.mem], key=lambda c: int(c[1].split("$")[1]))
        if len(onlya) != len(onlyb):
            raise Mismatch("heap")
        return dict(zip(onlyb, onlya))

    def rename_cells(self, v, m):
        if isinstance(v, Ref):
            return Ref(m.get(v.c, v.c), v.p)
        if isinstance(v, Agg):
            return Agg(v.k, v.var, [self.rename_cells(x, m) for x in v.f])
        if isinstance(v, Clo):
            return Clo(v.p, [self.rename_cells(x, m) for x in v.f])
        if isinstance(v, Seq):
            return Seq([("e", self.rename_cells(g[1], m)) if g[0] == "e" else g for g in v.s])
        return v

    def mem_join(self, a, b):
        phis = {}
        m = self.cellmap(a, b)
        mem = {}
        bm = b.mem if not m else {m.get(c, c): self.rename_cells(v, m) for c, v in b.mem.items()}
        for c, v in a.mem.items():
            if c in bm:
                w = bm[c]
                mem[c] = v if v == w else self.phi_match(v, w, phis)
            elif c[0] in ("s", "k"):
                mem[c] = v
        for c, w in bm.items():
            if c not in mem and c[0] in ("s", "k"):
                mem[c] = w
        return mem, phis

    def subsumed(self, s, summ):
        """is s included in summ ?"""
        try:
            phis = {}
            m = self.cellmap(summ, s)
            bm = s.mem if not m else {m.get(c, c): self.rename_cells(v, m) for c, v in s.mem.items()}
            env = {}
            eqs = []
            for c, v in summ.mem.items():
                if c in bm:
                    if v != bm[c]:
                        self.inst_match(v, bm[c], env, eqs)
        except Mismatch:
            self.why = "1"
            return False
        n = s.num
        for x, y in eqs:
            if not n.entails_eq(x.subst(env) - y):
                self.why = "2 %r %r" % (x, y)
                return False
        for k, v in summ.at.items():
            if isinstance(k, str) and k.startswith("bphi"):
                continue
            if s.at.get(k) != v:
                self.why = "3"
                return False
        for k, v in summ.ch.items():
            if s.ch.get(k) != v:
                self.why = "4"
                return False
        for k, v in summ.facts.items():
            if k[0] in ("div", "wrap"):
                continue
            if s.facts.get(k) != v:
                if not self.fact_ok(s, k, v, env):
                    self.why = "5"
                    return False
        if not s.taint <= summ.taint:
            self.why = "6"
            return False
        for e in summ.num.ge:
            if not n.entails_ge(e.subst(env)):
                self.why = "7 %r" % e
                return False
        for e in summ.num.eq:
            if not n.entails_eq(e.subst(env)):
                self.why = "8"
                return False
        for e in summ.num.ne:
            if not n.entails_ne(e.subst(env)):
                self.why = "9"
                return False
        for sname, (lo, hi) in summ.num.bnd.items():
            e = env.get(sname)
            if e is None:
                b = n.bnd.get(sname)
                if b == (lo, hi):
                    continue
                e = sym(sname)
            if lo is not None and not n.entails_ge(e - lo):
                self.why = "10 %s >= %s" % (e, lo)
                return False
            if hi is not None and not n.entails_ge(Lin(hi) - e):
                self.why = "11 %s <= %s" % (e, hi)
                return False
        return True

    def fact_ok(self, s, k, v, env):
        return False

    def inst_match(self, a, b, env, eqs):
        """a (summary, with phi symbols) instantiated to b"""
        if isinstance(a, Lin):
            if not isinstance(b, Lin):
                raise Mismatch("int")
            if a == b:
                return
            if len(a.t) == 1 and len(a.t[0][0]) == 1 and a.t[0][1] == 1 and a.t[0][0][0].startswith("phi$"):
                p = a.t[0][0][0]
                if p not in env:
                    env[p] = b - a.c
                    return
            eqs.append((a, b))
            return
        if type(a) is not type(b):
            raise Mismatch("type")
        if isinstance(a, (Agg, Clo)):
            for x, y in zip(a.f, b.f):
                self.inst_match(x, y, env, eqs)
            return
        if isinstance(a, Ref):
            if a.c != b.c or len(a.p) != len(b.p):
                raise Mismatch("pointer")
            for x, y in zip(a.p, b.p):
                for u, w in zip(x[1:], y[1:]):
                    if isinstance(u, Lin):
                        self.inst_match(u, w, env, eqs)
                    elif u != w:
                        raise Mismatch("path")
            return
        if isinstance(a, Seq):
            if len(a.s) != len(b.s):
                raise Mismatch("seq")
            for g, h in zip(a.s, b.s):
                if g[0] != h[0]:
                    raise Mismatch("seg")
                if g[0] == "e":
                    self.inst_match(g[1], h[1], env, eqs)
                elif g[0] == "s":
                    if g[1] != h[1]:
                        raise Mismatch("arr")
                    self.inst_match(g[2], h[2], env, eqs)
                    self.inst_match(g[3], h[3], env, eqs)
                else:
                    self.inst_match(g[1], h[1], env, eqs)
                    self.inst_match(g[2], h[2], env, eqs)
            return
        if isinstance(a, Term):
            if a.op != b.op or len(a.a) != len(b.a):
                raise Mismatch("term")
            for x, y in zip(a.a, b.a):
                if isinstance(x, (V, Lin)):
                    self.inst_match(x, y, env, eqs)
                elif x != y:
                    raise Mismatch("term arg")
            return
        if is_fm(a) and is_fm(b) and isinstance(a, tuple) and a[0] == "at" and isinstance(a[1], str) and a[1].startswith("bphi"):
            return
        if a != b:
            raise Mismatch("value")

    def syms_of(self, v, acc):
        if isinstance(v, Lin):
            acc |= v.syms()
        elif isinstance(v, (Agg, Clo)):
            for x in v.f:
                self.syms_of(x, acc)
        elif isinstance(v, Ref):
            for e in v.p:
                for u in e[1:]:
                    if isinstance(u, Lin):
                        acc |= u.syms()
        elif isinstance(v, Seq):
            for g in v.s:
                for u in g[1:]:
                    self.syms_of(u, acc)
        elif isinstance(v, Term):
            for u in v.a:
                self.syms_of(u, acc)
        elif isinstance(v, tuple):
            for u in v:
                self.syms_of(u, acc)

    def join(self, a, b, widen=False):
        """join b into summary a (equal shapes)"""
        try:
            mem, phis = self.mem_join(a, b)
        except Mismatch as e:
            r = a.fork()
            raise Unsupported("join: %s" % e)
        r = St()
        r.mem = mem
        r.exact = False
        r.taint = a.taint | b.taint
        r.tr = a.tr
        r.at = {k: v for k, v in a.at.items() if b.at.get(k) == v}
        r.ch = {k: v for k, v in a.ch.items() if b.ch.get(k) == v}
        r.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) == v and k[0] != "div"}
        r.reads = {}
        for k, lst in a.reads.items():
            if k in b.reads:
                common = tuple(x for x in lst if x in b.reads[k])
                if common:
                    r.reads[k] = common
        r.xor = {k: v for k, v in a.xor.items() if b.xor.get(k) == v}
        na, nb = a.num.copy(), b.num.copy()
        # bring phi symbols in both
        for (x, y), p in phis.items():
            nm = p.t[0][0][0]
            na.bnd.setdefault(nm, (None, None))
            nb.bnd.setdefault(nm, (None, None))
            na.eq.append(p - x)
            nb.eq.append(p - y)
        na.wit = nb.wit = None
        keep = set()
        for v in mem.values():
            self.syms_of(v, keep)
        for k, lst in r.reads.items():
            for i, v in lst:
                self.syms_of(i, keep)
                self.syms_of(v, keep)
        for k in r.facts:
            self.syms_of(k, keep)
            self.syms_of(r.facts[k], keep)
        keep |= {s for s in self.stable if s in a.num.bnd and s in b.num.bnd}
        for g in self.gs(r):
            keep |= g.syms()
        phin = [p.t[0][0][0] for p in phis.values()]
        keep |= set(phin)
        num = Num()
        for s in keep:
            ba, bb = na.bnd.get(s), nb.bnd.get(s)
            if ba and bb:
                lo = min(ba[0], bb[0]) if ba[0] is not None and bb[0] is not None else None
                hi = max(ba[1], bb[1]) if ba[1] is not None and bb[1] is not None else None
                num.bnd[s] = (lo, hi)
            else:
                num.bnd[s] = (None, None)
        ren_a = {x.t[0][0][0]: p - x.c for (x, y), p in phis.items() if len(x.t) == 1 and len(x.t[0][0]) == 1 and x.t[0][1] == 1}
        ren_b = {y.t[0][0][0]: p - y.c for (x, y), p in phis.items() if len(y.t) == 1 and len(y.t[0][0]) == 1 and y.t[0][1] == 1}
        cand = []
        seen = set()

        def add(e, kind):
            if e.syms() <= keep and (e, kind) not in seen:
                seen.add((e, kind))
                cand.append((e, kind))
        for n0, ren in ((a.num, ren_a),) if widen else ((a.num, ren_a), (b.num, ren_b)):
            for e in n0.ge:
                add(e, "ge")
                add(e.subst(ren), "ge")
            for e in n0.eq:
                for q in {e, e.subst(ren)}:
                    add(q, "ge")
                    add(-q, "ge")
            for e in n0.ne:
                add(e, "ne")
                add(e.subst(ren), "ne")
            for s, (lo, hi) in n0.bnd.items() if widen else ():
                t = ren.get(s)
                if t is not None:
                    if lo is not None:
                        add(t - lo, "ge")
                    if hi is not None:
                        add(Lin(hi) - t, "ge")
        for e, kind in cand:
            if kind == "ge":
                if na.entails_ge(e) and nb.entails_ge(e):
                    num.add_ge(e)
                elif len(e.t) > 1:
                    d = Lin(e.c) - e
                    ma = na.maximize(d)
                    mb = nb.maximize(d) if ma is not None else None
                    if mb is not None:
                        m = threshold(max(ma, mb), 2, None, self.binmax)
                        if m is not None:
                            num.add_ge(Lin(m) - d)
            else:
                if na.entails_ne(e) and nb.entails_ne(e):
                    num.ne.append(e)
        if widen:
            for p in phin:
                for e in (sym(p), -sym(p)):
                    ma = na.maximize(e)
                    mb = nb.maximize(e) if ma is not None else None
                    if mb is None:
                        continue
                    m = threshold(max(ma, mb), 1, self.unary)
                    if m is not None:
                        num.add_ge(Lin(m) - e)
        else:
            interesting = set()
            for s in keep:
                if s in phin or s in self.tmpl_extra or s.endswith(".len") or s.startswith("g:"):
                    interesting.add(s)
            for g in self.gs(r):
                interesting |= g.syms() & keep
            for e in list(a.num.ge) + list(b.num.ge) + list(a.num.eq) + list(b.num.eq):
                es = e.syms()
                if es & set(phin):
                    interesting |= {x for x in es if x in keep}
            interesting = sorted(interesting)
            tm = []
            for p in phin:
                P = sym(p)
                for s in interesting:
                    if s == p or self.kinds.get(p) == "x":
                        continue
                    tm.append(P - sym(s))
                    tm.append(sym(s) - P)
                tm.append(P)
                tm.append(-P)
            kd = {s: self.kinds.get(s) or ("c" if ".start" in s or ".end" in s else "i") for s in interesting}
            tm = [e for e in tm if len({kd.get(s, "i") for s in e.syms()}) <= 1]
            # ternary templates: p - q +- s
            tphi = [p for p in phin if kd.get(p) != "x"]
            interesting = [s for s in interesting if kd.get(s) != "x"]
            for i, p in enumerate(tphi):
                for q in tphi[i + 1:]:
                    for s in interesting:
                        if s not in (p, q) and kd[s] == kd.get(p) == kd.get(q):
                            tm.append(sym(p) - sym(q) - sym(s))
                            tm.append(-(sym(p) - sym(q) - sym(s)))
                            tm.append(sym(p) + sym(q) - sym(s))
                            tm.append(-(sym(p) + sym(q) - sym(s)))
                            tm.append(sym(p) - sym(q) + sym(s))
                            tm.append(-(sym(p) - sym(q) + sym(s)))
            for e in tm:
                ma = na.maximize(e)
                if ma is None or ma > 2**61:
                    continue
                mb = nb.maximize(e)
                if mb is None or mb > 2**61:
                    continue
                m = max(ma, mb)
                m = threshold(m, len(e.t), self.unary, self.binmax)
                if m is None:
                    continue
                c = Lin(m) - e
                if not num.entails_ge(c):
                    num.add_ge(c)
        r.num = num
        for h in self.joinhook:
            h(self, a, b, r, phis)
        return r


class Mismatch(Exception):
    pass


UNARY = (-2**31, -MAXCH - 1, -MAXCH, -2, -1, 0, 1, 2, MAXCH - 1, MAXCH, MAXCH + 1, 2**31 - 1, 2**32 - 1, MAXLEN)


def threshold(m, arity, unary=None, lim=2):
    """least template bound >= m (None: drop the template)"""
    if arity == 1:
        for t in unary or UNARY:
            if m <= t:
                return t
        return None
    if m < -lim:
        return -lim
    return m if m <= lim else None


def json_key(t):
    import json
    return json.dumps(t, sort_keys=True)


def show_f(f):
    if f is True or f is False:
        return str(f)
    k = f[0]
    if k == "ge":
        return "%r >= 0" % (f[1],)
    if k == "eq":
        return "%r = 0" % (f[1],)
    if k == "ne":
        return "%r /= 0" % (f[1],)
    if k == "at":
        return "%s%s" % ("" if f[2] else "not ", f[1])
    return k + "(" + ", ".join(show_f(x) for x in f[1:]) + ")"
