"""C16: a claimed inclusion holds."""
import itertools
from recon import *
P16 = "C16"
WHAT = "included_in is true only for an inclusion"


def nested(R, roots):
    """recursive calls of sub_language are used by contract, the first one is analysed"""
    I = R.I
    k = R.k_sub_language

    def f(I2, st, a, call):
        r, s = R.deref(I, st, a[0]), R.deref(I, st, a[1])
        if (r.c, s.c) == roots:
            return None
        return k(I2, st, a, call)
    I.contracts[PRIV + "sub_language"] = f


def claim(R, r, s, what=WHAT):
    c = R.c
    b = c.fn("regular_expressions::RE::included_in")
    for o in c.run(R.I, b, R.st, [r, s]):
        if o[0] != "ret":
            c.no_panic(o, b.path)
            continue
        for st, v in cases(o[1], o[2]):
            if v:
                prove_lang(c, R.W, st, L(r), L(s), what, b.path, rel="sub")
            else:
                c.prove(st, True, "no claim", b.path)


# ---- every pair of root constructors; operands are opaque
ROOTS = [("Empty", None), ("Epsilon", None), ("Range", None), ("Loop", None), ("Complement", None)] + [(v, n) for v in ("Inter", "Union") for n in range(4)]


def pair(a, b):
    def f(c):
        R = Re(c)
        R.W.pairs = False
        r = R.node("r", *a)
        s = R.node("s", *b)
        nested(R, (r.c, s.c))
        claim(R, r, s)
    return f


sfx = lambda v: v[0] if v[1] is None else "%s%d" % v
for a_ in ROOTS:
    for b_ in ROOTS:
        ob(P16, "%s-in-%s" % (sfx(a_), sfx(b_)))(pair(a_, b_))


# ---- concatenations: chains of ranges, loops and opaque terms
def item(R, name, k):
    W = R.W
    if k == "F":
        return W.special(R.st, 3)
    if k == "R":
        return R.node(name, "Range")
    if k == "L":
        r = R.node(name, "Loop")
        v = W.get(R.st, r.c, "expr")
        e = R.I.mk_variant(R.st, v.ty, v.n, R.st.ch[v.n])
        body = e.f[0].c[1][3:]
        R.node(body, "Range")
        return r
    if k == "X":
        return R.node(name, "Loop")
    return R.node(name, k)


def chain(R, name, kinds):
    W = R.W
    xs = [item(R, "%s%d" % (name, i), k) for i, k in enumerate(kinds)]
    t = xs[-1]
    for i in range(len(xs) - 2, -1, -1):
        n = "%sc%d" % (name, i)
        h = R.I.intsym(R.st, n + ".h", 3, HMAX)
        t = W.new(R.st, n, expr=Agg(BRL, W.vi["Concat"], (xs[i], t)), rid=h * 2)
    return t


def concat(v, us):
    def f(c):
        for u in us:
            R = Re(c, peel=20)
            R.W.pairs = False
            s = chain(R, "v", v)
            r = chain(R, "u", u)
            nested(R, (r.c, s.c))
            claim(R, r, s)
    return f


def words(al, lens):
    return ["".join(w) for n in lens for w in itertools.product(al, repeat=n)]


for v_ in words("RF", (1, 2, 3)) + ["L", "LR", "RL", "FL", "LF", "RFL", "FLR", "RLR", "LRL", "FRFR", "RFRF", "FRRF", "RFRFR", "FRFRF", "FRRFRF", "FRFRRF", "RRFRR", "FRRRF", "RFRRFR"]:
    n_ = max(4, v_.count("R") + 1) if len(v_) < 5 else v_.count("R") + 1
    us_ = [u for u in words("RX", range(1, n_ + 1)) if u.count("X") <= 2 and u.count("R") >= v_.count("R")]
    us_ += [w for w in ("F", "FR", "RF", "FRF", "RFR", "FRFR") if w not in us_]
    ob(P16, "concat-in-" + v_)(concat(v_, us_))
