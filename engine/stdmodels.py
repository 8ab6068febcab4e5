"""Transfer functions of the standard-library callees used by the crate."""
import json
from lin import *
from vals import *
from mir import base_ty, ty_key

OPTION = "std::option::Option"
RESULT = "std::result::Result"
ORDERING = "std::cmp::Ordering"
CF = "std::ops::ControlFlow"
NONE = Agg(OPTION, 0, ())
LESS, EQUAL, GREATER = (Agg(ORDERING, i, ()) for i in range(3))
INTB = {"u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1),
        "i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1),
        "isize": (-2**63, 2**63 - 1)}


def some(v):
    return Agg(OPTION, 1, (v,))


def ok(v):
    return Agg(RESULT, 0, (v,))


def err(v):
    return Agg(RESULT, 1, (v,))


def ret(st, v):
    return [("ret", st, v)]


def rets(l):
    return [("ret", s, v) for s, v in l]


M = {}


def model(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f
    return deco


def install(I):
    import maps
    I.models.update(M)


def then(outs, k):
    """sequence: apply k(st, v) -> outcomes to every returned value"""
    r = []
    for o in outs:
        if o[0] == "ret":
            r.extend(k(o[1], o[2]))
        else:
            r.append(o)
    return r


def panic(st, msg, kind="explicit"):
    st.note("panic: " + msg)
    return [("panic", st, (kind, msg))]


def peel(I, st, v):
    """load through references to a value: [(st, value)]"""
    cur = [(st, v)]
    for _ in range(6):
        nxt = []
        ch = False
        for s, x in cur:
            if isinstance(x, Ref):
                ch = True
                nxt.extend(I.rload(s, x))
            else:
                nxt.append((s, x))
        cur = nxt
        if not ch:
            break
    return cur


def peel_ref(I, st, v):
    """innermost reference: [(st, Ref)]"""
    out = []
    todo = [(st, v)]
    while todo:
        s, r = todo.pop()
        for s2, x in I.rload(s, r):
            if isinstance(x, Ref) and not (r.p and r.p[-1][0] == "r"):
                todo.append((s2, x))
            else:
                out.append((s2, r))
    return out


# ---------------------------------------------------------------- panics
@model("core::panicking::panic", "core::panicking::panic_fmt", "std::rt::begin_panic", "std::rt::panic_fmt", "core::panicking::panic_display",
       "core::panicking::panic_explicit", "core::panicking::unreachable_display", "core::option::unwrap_failed", "core::option::expect_failed")
def m_panic(I, st, a, call):
    msg = ""
    if a and isinstance(a[0], Ref):
        try:
            v = I.rload(st, a[0])[0][1]
            if isinstance(v, Bytes):
                msg = v.b.decode("utf8", "replace")
        except Exception:
            pass
    return panic(st, "panic at %s: %s" % (call["line"], msg))


@model("core::panicking::assert_failed")
def m_assert_failed(I, st, a, call):
    return panic(st, "assertion at %s" % call["line"])


@model("core::panicking::unreachable_default_msg", "std::hint::unreachable_unchecked")
def m_unreach(I, st, a, call):
    return panic(st, "unreachable at %s" % call["line"])


@model("std::hint::must_use", "std::convert::identity", "std::hint::black_box")
def m_id(I, st, a, call):
    return ret(st, a[0])


# ---------------------------------------------------------------- Option / Result
def opt_cases(I, st, v):
    out = []
    for s, x in I.agg(st, v):
        if isinstance(x, Ref):
            for s1, y in I.rload(s, x):
                out.extend(I.agg(s1, y))
        else:
            out.append((s, x))
    for s, x in out:
        if not isinstance(x, Agg):
            raise Unsupported("option value %r" % (x,))
    return out


@model("std::option::Option::<T>::unwrap", "std::option::Option::<T>::expect")
def m_unwrap(I, st, a, call):
    out = []
    for s, v in opt_cases(I, st, a[0]):
        out += ret(s, v.f[0]) if v.var == 1 else panic(s, "unwrap of None at %s" % call["line"], "unwrap")
    return out


@model("std::result::Result::<T, E>::unwrap", "std::result::Result::<T, E>::expect")
def m_runwrap(I, st, a, call):
    out = []
    for s, v in opt_cases(I, st, a[0]):
        out += ret(s, v.f[0]) if v.var == 0 else panic(s, "unwrap of Err at %s" % call["line"], "unwrap")
    return out


@model("std::option::Option::<T>::is_some")
def m_is_some(I, st, a, call):
    return [("ret", s, v.var == 1) for s, v in opt_cases(I, st, a[0])]


@model("std::option::Option::<T>::is_none")
def m_is_none(I, st, a, call):
    return [("ret", s, v.var == 0) for s, v in opt_cases(I, st, a[0])]


@model("std::result::Result::<T, E>::is_ok")
def m_is_ok(I, st, a, call):
    return [("ret", s, v.var == 0) for s, v in opt_cases(I, st, a[0])]


@model("std::result::Result::<T, E>::is_err")
def m_is_err(I, st, a, call):
    return [("ret", s, v.var == 1) for s, v in opt_cases(I, st, a[0])]


@model("std::option::Option::<T>::is_some_and")
def m_is_some_and(I, st, a, call):
    out = []
    for s, v in opt_cases(I, st, a[0]):
        out += I.call_value(s, a[1], [v.f[0]], call["fr"]) if v.var == 1 else ret(s, False)
    return out


@model("std::option::Option::<T>::is_none_or")
def m_is_none_or(I, st, a, call):
    out = []
    for s, v in opt_cases(I, st, a[0]):
        out += I.call_value(s, a[1], [v.f[0]], call["fr"]) if v.var == 1 else ret(s, True)
    return out


@model("std::option::Option::<T>::map")
def m_omap(I, st, a, call):
    out = []
    for s, v in opt_cases(I, st, a[0]):
        if v.var == 1:
            out += then(I.call_value(s, a[1], [v.f[0]], call["fr"]), lambda s2, r: ret(s2, some(r)))
        else:
            out += ret(s, NONE)
    return out


@model("std::result::Result::<T, E>::map")
def m_rmap(I, st, a, call):
    out = []
    for s, v in opt_cases(I, st, a[0]):
        if v.var == 0:
            out += then(I.call_value(s, a[1], [v.f[0]], call["fr"]), lambda s2, r: ret(s2, ok(r)))
        else:
            out += ret(s, v)
    return out


@model("std::result::Result::<T, E>::map_err")
def m_rmaperr(I, st, a, call):
    out = []
    for s, v in opt_cases(I, st, a[0]):
        if v.var == 1:
            out += then(I.call_value(s, a[1], [v.f[0]], call["fr"]), lambda s2, r: ret(s2, err(r)))
        else:
            out += ret(s, v)
    return out


@model("std::option::Option::<T>::and_then")
def m_and_then(I, st, a, call):
    out = []
    for s, v in opt_cases(I, st, a[0]):
        out += I.call_value(s, a[1], [v.f[0]], call["fr"]) if v.var == 1 else ret(s, NONE)
    return out


@model("std::result::Result::<T, E>::and_then")
def m_rand_then(I, st, a, call):
    out = []
    for s, v in opt_cases(I, st, a[0]):
        out += I.call_value(s, a[1], [v.f[0]], call["fr"]) if v.var == 0 else ret(s, v)
    return out


@model("std::option::Option::<T>::filter")
def m_ofilter(I, st, a, call):
    out = []
    for s, v in opt_cases(I, st, a[0]):
        if v.var == 0:
            out += ret(s, NONE)
            continue
        c = I.newcell(s, v.f[0], "of")
        for o in I.call_value(s, a[1], [Ref(c)], call["fr"]):
            if o[0] == "ret":
                for s2, b in cases(o[1], o[2]):
                    out += ret(s2, v if b else NONE)
            else:
                out.append(o)
    return out


@model("std::option::Option::<T>::unwrap_or")
def m_unwrap_or(I, st, a, call):
    return [("ret", s, v.f[0] if v.var == 1 else a[1]) for s, v in opt_cases(I, st, a[0])]


@model("std::result::Result::<T, E>::unwrap_or")
def m_runwrap_or(I, st, a, call):
    return [("ret", s, v.f[0] if v.var == 0 else a[1]) for s, v in opt_cases(I, st, a[0])]


@model("std::option::Option::<T>::unwrap_or_else")
def m_unwrap_or_else(I, st, a, call):
    out = []
    for s, v in opt_cases(I, st, a[0]):
        out += ret(s, v.f[0]) if v.var == 1 else I.call_value(s, a[1], [], call["fr"])
    return out


@model("std::option::Option::<T>::map_or")
def m_map_or(I, st, a, call):
    out = []
    for s, v in opt_cases(I, st, a[0]):
        out += I.call_value(s, a[2], [v.f[0]], call["fr"]) if v.var == 1 else ret(s, a[1])
    return out


@model("std::option::Option::<T>::map_or_else")
def m_map_or_else(I, st, a, call):
    out = []
    for s, v in opt_cases(I, st, a[0]):
        out += I.call_value(s, a[2], [v.f[0]], call["fr"]) if v.var == 1 else I.call_value(s, a[1], [], call["fr"])
    return out


@model("std::option::Option::<T>::or", "std::option::Option::<T>::or_else")
def m_or(I, st, a, call):
    out = []
    for s, v in opt_cases(I, st, a[0]):
        if v.var == 1:
            out += ret(s, v)
        elif call["d"]["p"].endswith("or_else"):
            out += I.call_value(s, a[1], [], call["fr"])
        else:
            out += ret(s, a[1])
    return out


@model("std::option::Option::<T>::ok_or")
def m_ok_or(I, st, a, call):
    return [("ret", s, ok(v.f[0]) if v.var == 1 else err(a[1])) for s, v in opt_cases(I, st, a[0])]


@model("std::option::Option::<T>::ok_or_else")
def m_ok_or_else(I, st, a, call):
    out = []
    for s, v in opt_cases(I, st, a[0]):
        out += ret(s, ok(v.f[0])) if v.var == 1 else then(I.call_value(s, a[1], [], call["fr"]), lambda s2, r: ret(s2, err(r)))
    return out


@model("std::result::Result::<T, E>::ok")
def m_ok(I, st, a, call):
    return [("ret", s, some(v.f[0]) if v.var == 0 else NONE) for s, v in opt_cases(I, st, a[0])]


@model("std::option::Option::<T>::inspect")
def m_inspect(I, st, a, call):
    out = []
    for s, v in opt_cases(I, st, a[0]):
        if v.var == 1:
            c = I.newcell(s, v.f[0], "insp")
            out += then(I.call_value(s, a[1], [Ref(c)], call["fr"]), lambda s2, r: ret(s2, v))
        else:
            out += ret(s, v)
    return out


@model("std::option::Option::<&T>::copied", "std::option::Option::<&T>::cloned")
def m_ocopied(I, st, a, call):
    out = []
    for s, v in opt_cases(I, st, a[0]):
        if v.var == 1:
            out += [("ret", s2, some(x)) for s2, x in I.rload(s, v.f[0])]
        else:
            out += ret(s, v)
    return out


@model("std::option::Option::<T>::as_ref", "std::option::Option::<T>::as_mut")
def m_as_ref(I, st, a, call):
    out = []
    for s, v in opt_cases(I, st, a[0]):
        out += ret(s, some(I.deref_ref(a[0], (("v", 1), ("f", 0)))) if v.var == 1 else NONE)
    return out


@model("std::option::Option::<T>::take")
def m_otake(I, st, a, call):
    out = []
    for s, v in I.rload(st, a[0]):
        for s2 in I.rstore(s, a[0], NONE):
            out += ret(s2, v)
    return out


@model("std::ops::Try::branch")
def m_branch(I, st, a, call):
    out = []
    for s, v in opt_cases(I, st, a[0]):
        if v.k == RESULT:
            out += ret(s, Agg(CF, 0, (v.f[0],)) if v.var == 0 else Agg(CF, 1, (v,)))
        else:
            out += ret(s, Agg(CF, 0, (v.f[0],)) if v.var == 1 else Agg(CF, 1, (v,)))
    return out


@model("std::ops::FromResidual::from_residual")
def m_residual(I, st, a, call):
    return ret(st, a[0])


# ---------------------------------------------------------------- integers
def intbounds(d):
    p = d["p"]
    for t in INTB:
        if "<impl %s>" % t in p:
            return INTB[t]
    return None


def _arith(I, call, op, x, y):
    return x + y if op == "add" else x - y if op == "sub" else x * y


def m_checked(I, st, a, call):
    op = call["d"]["p"].split("checked_")[-1]
    lo, hi = intbounds(call["d"])
    if op in ("div", "rem"):
        out = []
        for s, z in cases(st, f_eq(a[1])):
            if z:
                out += ret(s, NONE)
            else:
                out += [("ret", s2, some(v)) for s2, v in I.binop(s, op.capitalize(), a[0], a[1], {"n": [k for k in INTB if INTB[k] == (lo, hi)][0]})]
        return out
    r = _arith(I, call, op, a[0], a[1])
    out = []
    for s, inr in cases(st, f_and(f_ge(r - lo), f_ge(Lin(hi) - r))):
        out += ret(s, some(r) if inr else NONE)
    return out


def m_saturating(I, st, a, call):
    op = call["d"]["p"].split("saturating_")[-1]
    lo, hi = intbounds(call["d"])
    r = _arith(I, call, op, a[0], a[1])
    out = []
    for s, over in cases(st, f_ge(r - hi - 1)):
        if over:
            out += ret(s, Lin(hi))
        else:
            for s2, under in cases(s, f_ge(Lin(lo) - 1 - r)):
                out += ret(s2, Lin(lo) if under else r)
    return out


def m_wrapping(I, st, a, call):
    op = call["d"]["p"].split("wrapping_")[-1]
    lo, hi = intbounds(call["d"])
    if op == "neg":
        r = -a[0]
    else:
        r = _arith(I, call, op, a[0], a[1])
    return rets(I.wrap(st, r, lo, hi))


def m_overflowing(I, st, a, call):
    op = call["d"]["p"].split("overflowing_")[-1]
    lo, hi = intbounds(call["d"])
    r = _arith(I, call, op, a[0], a[1])
    out = []
    for s, inr in cases(st, f_and(f_ge(r - lo), f_ge(Lin(hi) - r))):
        out += [("ret", s2, Agg("tuple", 0, (v, not inr))) for s2, v in I.wrap(s, r, lo, hi)]
    return out


def m_abs_diff(I, st, a, call):
    return [("ret", s, a[0] - a[1] if b else a[1] - a[0]) for s, b in cases(st, f_ge(a[0] - a[1]))]


def m_div_ceil(I, st, a, call):
    if a[1].is_const() and a[1].c > 0:
        q, r = I.divmod_const(st, a[0] + (a[1].c - 1), a[1].c)
        return ret(st, q)
    raise Unsupported("div_ceil")


def m_minmax(I, st, a, call):
    mx = call["d"]["p"].endswith("max")
    x, y = I.as_int(a[0]), I.as_int(a[1])
    if x is None or y is None:
        raise Unsupported("min/max of non-integers")
    out = []
    # max(a,b): b if b >= a ; min(a,b): a if a <= b
    for s, ge in cases(st, f_ge(y - x)):
        out += ret(s, (y if ge else x) if mx else (x if ge else y))
    return out


M["std::cmp::min"] = M["std::cmp::max"] = M["std::cmp::Ord::min"] = M["std::cmp::Ord::max"] = m_minmax


@model("std::cmp::Ord::clamp")
def m_clamp(I, st, a, call):
    out = []
    for s, lo in cases(st, f_lt(a[0], a[1])):
        if lo:
            out += ret(s, a[1])
        else:
            for s2, hi in cases(s, f_lt(a[2], a[0])):
                out += ret(s2, a[2] if hi else a[0])
    return out


# ---------------------------------------------------------------- comparison
def eq_vals(I, st, a, b, call):
    """outcomes with a boolean formula: structural equality of two values (through references)"""
    out = []
    for s, x in peel(I, st, a):
        for s2, y in peel(I, s, b):
            out += eq1(I, s2, x, y, a, b, call)
    return out


def eq1(I, st, x, y, ra, rb, call):
    xi, yi = I.as_int(x), I.as_int(y)
    if isinstance(x, Lin) or isinstance(y, Lin):
        if xi is None or yi is None:
            raise Unsupported("equality of %r and %r" % (x, y))
        if I.int_eq_hook:
            r = I.int_eq_hook(I, st, xi, yi)
            if r is not None:
                return [("ret", s, b) for s, b in r]
        f = f_eq(xi - yi)
        t = st.truth(f)
        return ret(st, f if t is None else t)
    if is_fm(x) and is_fm(y):
        return ret(st, f_iff(x, y))
    k = I.rt_key(st, x)
    h = getattr(I, "eq_hook", None)
    if h:
        r = h(I, st, x, y, ra, rb)
        if r is not None:
            return r
    if k:
        for t, targs, b in I.P.impls.get(("std::cmp::PartialEq", "eq"), ()):
            bt = base_ty(t)
            if bt["k"] == "adt" and bt["p"] == k:
                out = []
                ca = ra if isinstance(ra, Ref) else Ref(I.newcell(st, x, "eqa"))
                cb = rb if isinstance(rb, Ref) else Ref(I.newcell(st, y, "eqb"))
                for s, r1 in peel_ref(I, st, ca):
                    for s2, r2 in peel_ref(I, s, cb):
                        out += I.inline(s2, b, [r1, r2], call["fr"], call["line"])
                return out
        out = []
        for s, u in I.agg(st, x):
            for s2, w in I.agg(s, y):
                if u.var != w.var:
                    out += ret(s2, False)
                    continue
                cur = [("ret", s2, True)]
                for p, q in zip(u.f, w.f):
                    nxt = []
                    for o in cur:
                        if o[0] != "ret":
                            nxt.append(o)
                            continue
                        for o2 in eq_vals(I, o[1], p, q, call):
                            nxt.append(("ret", o2[1], f_and(o[2], o2[2])) if o2[0] == "ret" else o2)
                    cur = nxt
                out += cur
        return out
    if isinstance(x, Seq) and isinstance(y, Seq):
        return seq_eq(I, st, x, y, call)
    if x == y:
        return ret(st, True)
    raise Unsupported("equality of %r and %r" % (x, y))


def seq_eq(I, st, x, y, call):
    if x == y:
        return ret(st, True)
    n, m = x.length(), y.length()
    out = []
    for s, same in cases(st, f_eq(n - m)):
        if not same:
            out += ret(s, False)
            continue
        if all(g[0] == "e" for g in x.s) and all(g[0] == "e" for g in y.s):
            cur = [("ret", s, True)]
            for g, h in zip(x.s, y.s):
                nxt = []
                for o in cur:
                    if o[0] != "ret":
                        nxt.append(o)
                        continue
                    for o2 in eq_vals(I, o[1], g[1], h[1], call):
                        nxt.append(("ret", o2[1], f_and(o[2], o2[2])) if o2[0] == "ret" else o2)
                cur = nxt
            out += cur
            continue
        h = getattr(I, "seq_eq_hook", None)
        if h:
            r = h(I, s, x, y, call)
            if r is not None:
                out += r
                continue
        if x.length() == ZERO or y.length() == ZERO:
            out += ret(s, True)
            continue
        r = seq_walk(I, s, x, y, call, False)
        if r is not None:
            out += r
            continue
        key = ("seqeq", repr(x), repr(y)) if repr(x) <= repr(y) else ("seqeq", repr(y), repr(x))
        out += ret(s, ("at", key, True))
    return out


def seq_walk(I, st, x, y, call, order):
    """compare two sequences of numbers element by element: equality (same length) or lexicographic order; None for other elements"""
    for q in (x, y):
        for g in q.s:
            if g[0] == "e" and I.as_int(g[1]) is None:
                return None
            if g[0] not in ("e", "s"):
                return None
    n, m = x.length(), y.length()
    cx, cy, ck = (iter_cell(I, st, v, "sw") for v in (x, y, ZERO))

    def iteration(s):
        outs = []
        k = s.mem[ck]
        for s1, e1 in cases(s, f_ge(k - n)):
            if e1:
                if not order:
                    outs.append(("ret", s1, True))
                else:
                    for s2, e2 in cases(s1, f_ge(k - m)):
                        outs.append(("ret", s2, EQUAL if e2 else LESS))
                continue
            for s2, e2 in cases(s1, f_ge(k - m)):
                if e2:
                    outs.append(("ret", s2, GREATER if order else False))
                    continue
                for s3, u in I.rload(s2, Ref(cx), (("x", k),)):
                    for s4, w in I.rload(s3, Ref(cy), (("x", k),)):
                        u2, w2 = I.as_int(u), I.as_int(w)
                        if u2 is None or w2 is None:
                            raise NotInts()
                        for s5, e in cases(s4, f_eq(u2 - w2)):
                            if e:
                                s5.mem[ck] = k + 1
                                outs.append(("back", s5, None))
                            elif not order:
                                outs.append(("ret", s5, False))
                            else:
                                for s6, l in cases(s5, f_lt(u2, w2)):
                                    outs.append(("ret", s6, LESS if l else GREATER))
        return outs
    try:
        return I.loop(st.fork(), iteration, lambda s: gc(I, s), "comparison at %s" % call["line"])
    except NotInts:
        return None
    finally:
        for c in (cx, cy, ck):
            I.roots.discard(c)


class NotInts(Exception):
    pass


@model("std::cmp::PartialEq::eq")
def m_eq(I, st, a, call):
    return eq_vals(I, st, a[0], a[1], call)


@model("std::cmp::PartialEq::ne")
def m_ne(I, st, a, call):
    return then(eq_vals(I, st, a[0], a[1], call), lambda s, f: ret(s, f_not(f)))


def cmp_vals(I, st, a, b, call, meth):
    """outcomes with an Ordering (total) or Option<Ordering> when meth is partial_cmp"""
    out = []
    for s, x in peel(I, st, a):
        for s2, y in peel(I, s, b):
            xi, yi = I.as_int(x), I.as_int(y)
            if xi is not None and yi is not None:
                for s3, l in cases(s2, f_lt(xi, yi)):
                    if l:
                        out += ret(s3, LESS)
                    else:
                        for s4, e in cases(s3, f_eq(xi - yi)):
                            out += ret(s4, EQUAL if e else GREATER)
                continue
            if isinstance(x, Seq) and isinstance(y, Seq) and not getattr(I, "cmp_hook", None):
                r = seq_walk(I, s2, x, y, call, True)
                if r is not None:
                    out += r
                    continue
            k = I.rt_key(s2, x)
            done = False
            trs = (("std::cmp::PartialOrd", "partial_cmp"), ("std::cmp::Ord", "cmp"))
            for tr, m in trs[::-1] if meth == "cmp" else trs:
                for t, targs, body in I.P.impls.get((tr, m), ()):
                    bt = base_ty(t)
                    if not done and bt["k"] == "adt" and bt["p"] == k:
                        done = True
                        for s3, r1 in peel_ref(I, s2, a):
                            for s4, r2 in peel_ref(I, s3, b):
                                out += I.inline(s4, body, [r1, r2], call["fr"], call["line"])
            if not done:
                h = getattr(I, "cmp_hook", None)
                if h:
                    r = h(I, s2, x, y, call)
                    if r is not None:
                        out += r
                        continue
                raise Unsupported("ordering of %r" % (x,))
    return out


@model("std::cmp::Ord::cmp")
def m_cmp(I, st, a, call):
    return then(cmp_vals(I, st, a[0], a[1], call, "cmp"), lambda s, v: ret(s, v if v.k == ORDERING else v.f[0]))


@model("std::cmp::PartialOrd::partial_cmp")
def m_pcmp(I, st, a, call):
    return then(cmp_vals(I, st, a[0], a[1], call, "partial_cmp"), lambda s, v: ret(s, some(v) if v.k == ORDERING else v))


@model("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge")
def m_rel(I, st, a, call):
    op = call["d"]["p"][-2:]

    def k(s, v):
        if v.k == OPTION:
            if v.var == 0:
                return ret(s, False)
            v = v.f[0]
        return ret(s, {"lt": v.var == 0, "le": v.var <= 1, "gt": v.var == 2, "ge": v.var >= 1}[op])
    xs = peel(I, st.fork(), a[0])
    if len(xs) == 1 and I.as_int(xs[0][1]) is not None:
        out = []
        for s, x in peel(I, st, a[0]):
            for s2, y in peel(I, s, a[1]):
                x2, y2 = I.as_int(x), I.as_int(y)
                f = {"lt": f_lt(x2, y2), "le": f_le(x2, y2), "gt": f_lt(y2, x2), "ge": f_le(y2, x2)}[op]
                out += ret(s2, f)
        return out
    return then(cmp_vals(I, st, a[0], a[1], call, "partial_cmp"), k)


@model("std::cmp::Ordering::reverse")
def m_rev_ord(I, st, a, call):
    return [("ret", s, Agg(ORDERING, 2 - v.var, ())) for s, v in I.agg(st, a[0])]


@model("std::cmp::Ordering::is_lt", "std::cmp::Ordering::is_le", "std::cmp::Ordering::is_gt", "std::cmp::Ordering::is_ge", "std::cmp::Ordering::is_eq", "std::cmp::Ordering::is_ne")
def m_is_ord(I, st, a, call):
    op = call["d"]["p"][-2:]
    return [("ret", s, {"lt": v.var == 0, "le": v.var <= 1, "gt": v.var == 2, "ge": v.var >= 1, "eq": v.var == 1, "ne": v.var != 1}[op]) for s, v in I.agg(st, a[0])]


# ---------------------------------------------------------------- clone / default / conversions
@model("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::rc::Rc::<T, A>::clone")
def m_clone(I, st, a, call):
    sty = call["d"].get("self") or {}
    if sty.get("k") == "ref" or sty.get("p") == "std::rc::Rc":
        return rets(I.rload(st, a[0]))
    if sty.get("p") == "std::boxed::Box":
        out = []
        for s, v in I.rload(st, a[0]):
            if isinstance(v, Ref):
                for s2, x in I.rload(s, v):
                    c = I.newcell(s2, x, "box")
                    out += ret(s2, Ref(c, v.p[-1:] if v.p and v.p[-1][0] == "r" else ()))
            else:
                out += ret(s, v)
        return out
    return rets(I.rload(st, a[0]))


@model("std::iter::Iterator::copied", "std::iter::Iterator::cloned")
def m_copied(I, st, a, call):
    return ret(st, Agg("it:Copied", 0, (a[0],)))


def default_of(I, st, t):
    k = t["k"]
    if k in ("int",):
        return ret(st, ZERO)
    if k == "bool":
        return ret(st, False)
    if k == "tuple":
        cur = [("ret", st, ())]
        for e in t["a"]:
            cur = then(cur, lambda s, vs: then(default_of(I, s, e), lambda s2, v: [("ret", s2, vs + (v,))]))
        return [("ret", o[1], Agg("tuple", 0, o[2])) for o in cur]
    if k == "adt":
        p = t["p"]
        if p in ("std::vec::Vec", "std::string::String", "std::collections::VecDeque"):
            return ret(st, Seq())
        if p in ("std::collections::HashMap", "std::collections::HashSet"):
            import maps
            return ret(st, maps.new_map())
        if p == OPTION:
            return ret(st, NONE)
        if p == "std::boxed::Box":
            return then(default_of(I, st, t["a"][0]), lambda s, v: ret(s, Ref(I.newcell(s, v, "box"), (("r", ZERO, ZERO),) if isinstance(v, Seq) else ())))
    if k == "slice":
        return ret(st, Seq())
    for t2, targs, b in I.P.impls.get(("std::default::Default", "default"), ()):
        if k == "adt" and t2["k"] == "adt" and t2["p"] == t["p"]:
            I.inlined.add(b.path)
            return I.call_body(st, b, [], 3)
    raise Unsupported("default of %s" % ty_key(t))


@model("std::default::Default::default")
def m_default(I, st, a, call):
    return default_of(I, st, call["d"]["self"])


@model("std::mem::take")
def m_take(I, st, a, call):
    t = call["d"]["a"][0]
    out = []
    for s, v in I.rload(st, a[0]):
        for o in default_of(I, s, t):
            if o[0] == "ret":
                for s3 in I.rstore(o[1], a[0], o[2]):
                    out += ret(s3, v)
            else:
                out.append(o)
    return out


@model("std::mem::replace")
def m_replace(I, st, a, call):
    out = []
    for s, v in I.rload(st, a[0]):
        for s2 in I.rstore(s, a[0], a[1]):
            out += ret(s2, v)
    return out


@model("std::mem::swap")
def m_swap2(I, st, a, call):
    out = []
    for s, v in I.rload(st, a[0]):
        for s2, w in I.rload(s, a[1]):
            for s3 in I.rstore(s2, a[0], w):
                for s4 in I.rstore(s3, a[1], v):
                    out += ret(s4, UNIT)
    return out


@model("std::mem::drop")
def m_drop(I, st, a, call):
    return ret(st, UNIT)


def seq_of(I, st, v):
    """sequence contents of a Vec value / slice pointer"""
    if isinstance(v, Seq):
        return [(st, v)]
    if isinstance(v, Ref):
        out = []
        for s, x in I.rload(st, v):
            out += seq_of(I, s, x)
        return out
    if isinstance(v, Bytes):
        return [(st, Seq([("e", Lin(ord(ch))) for ch in v.b.decode("utf8")]))]
    raise Unsupported("sequence of %r" % (v,))


@model("std::convert::Into::into", "std::convert::From::from")
def m_into(I, st, a, call):
    d = call["d"]
    if d["m"] == "into":
        src, dst = d.get("self"), d["a"][1] if len(d["a"]) > 1 else None
    else:
        dst = d.get("self")
        src = d["a"][1] if len(d["a"]) > 1 else None
    if dst and dst["k"] == "adt" and dst["p"].startswith("crate::"):
        for t, targs, b in I.P.impls.get(("std::convert::From", "from"), ()):
            if t["k"] == "adt" and t["p"] == dst["p"] and targs and same_ty(targs[-1], src):
                if b.path in I.contracts:
                    r = I.contracts[b.path](I, st, a, call)
                    if r is not None:
                        return r
                return I.inline(st, b, a, call["fr"], call["line"])
    if dst and dst["k"] == "adt":
        if dst["p"] == "std::boxed::Box":
            out = []
            for s, v in seq_of(I, st, a[0]) if dst["a"][0]["k"] in ("slice", "str") else [(st, a[0])]:
                c = I.newcell(s, v, "box")
                out += ret(s, Ref(c, (("r", ZERO, v.length()),) if isinstance(v, Seq) else ()))
            return out
        if dst["p"] in ("std::vec::Vec", "std::string::String"):
            return rets(seq_of(I, st, a[0]))
    if dst and dst["k"] in ("int", "char"):
        x = I.as_int(a[0])
        if x is not None:
            return ret(st, x)
        if is_fm(a[0]):
            return [("ret", s, ONE if b else ZERO) for s, b in cases(st, a[0])]
    if src and dst and same_ty(src, dst):
        return ret(st, a[0])
    raise Unsupported("conversion into %s" % (ty_key(dst) if dst else "?"))


def same_ty(a, b):
    if a is None or b is None:
        return False
    if a["k"] != b["k"]:
        return False
    k = a["k"]
    if k in ("ref", "ptr", "slice", "array"):
        return same_ty(a["e"], b["e"])
    if k == "adt":
        return a["p"] == b["p"] and len(a["a"]) == len(b["a"]) and all(same_ty(x, y) for x, y in zip(a["a"], b["a"]))
    if k == "int":
        return a["n"] == b["n"]
    if k == "tuple":
        return len(a["a"]) == len(b["a"]) and all(same_ty(x, y) for x, y in zip(a["a"], b["a"]))
    return True


@model("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into")
def m_tryfrom(I, st, a, call):
    d = call["d"]
    dst = d.get("self") if d["m"] == "try_from" else d["a"][1]
    if dst["k"] == "int":
        lo, hi = INTB[dst["n"]]
        return [("ret", s, ok(a[0]) if b else err(Term("tryfromint"))) for s, b in cases(st, f_and(f_ge(a[0] - lo), f_ge(Lin(hi) - a[0])))]
    if dst["k"] == "char":
        return [("ret", s, ok(a[0]) if b else err(Term("tryfromchar"))) for s, b in cases(st, valid_char(a[0]))]
    raise Unsupported("try_from")


@model("std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut", "std::ops::Deref::deref", "std::ops::DerefMut::deref_mut",
       "std::borrow::Borrow::borrow", "std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice", "std::string::String::as_str")
def m_deref(I, st, a, call):
    sty = call["d"].get("self") or {}
    p = sty.get("p")
    if p in ("std::rc::Rc", "std::boxed::Box", "std::cell::Ref", "std::cell::RefMut", "std::sync::Arc"):
        out = []
        for s, v in I.rload(st, a[0]):
            out += ret(s, v)
        return out
    if p in ("std::vec::Vec", "std::string::String", "std::collections::VecDeque") or sty.get("k") in ("array", "slice", "str") or "trait" not in call["d"]:
        return rets(I.as_slice(st, a[0]))
    raise Unsupported("deref of %s" % p)


@model("std::boxed::Box::<T>::new", "std::rc::Rc::<T>::new", "std::sync::Arc::<T>::new")
def m_boxnew(I, st, a, call):
    return ret(st, Ref(I.newcell(st, a[0], "box")))


@model("std::boxed::Box::<T, A>::leak")
def m_leak(I, st, a, call):
    return ret(st, a[0])


@model("std::boxed::Box::<T>::new_uninit")
def m_newuninit(I, st, a, call):
    return ret(st, Ref(I.newcell(st, Top("uninit"), "box")))


@model("std::boxed::box_assume_init_into_vec_unsafe")
def m_boxvec(I, st, a, call):
    return rets(I.rload(st, a[0]))


@model("std::rc::Rc::<T, A>::ptr_eq", "std::ptr::eq", "std::ptr::addr_eq")
def m_ptreq(I, st, a, call):
    x, y = a
    if call["d"]["p"].endswith("ptr_eq"):
        x = I.rload(st, x)[0][1]
        y = I.rload(st, y)[0][1]
    h = getattr(I, "ptr_eq_hook", None)
    if h:
        return rets(h(I, st, x, y))
    if x == y:
        return ret(st, True)
    raise Unsupported("pointer comparison")


# ---------------------------------------------------------------- cells
@model("std::cell::RefCell::<T>::new", "std::cell::Cell::<T>::new")
def m_cellnew(I, st, a, call):
    return ret(st, a[0])


@model("std::cell::RefCell::<T>::borrow", "std::cell::RefCell::<T>::borrow_mut")
def m_borrow(I, st, a, call):
    return ret(st, a[0])


@model("std::thread::LocalKey::<T>::with", "std::thread::LocalKey::<std::cell::RefCell<T>>::with_borrow",
       "std::thread::LocalKey::<std::cell::RefCell<T>>::with_borrow_mut")
def m_with(I, st, a, call):
    key = a[0]
    c = ("s", "tls:" + (repr(key)))
    h = getattr(I, "tls_hook", None)
    if h:
        st, v = h(I, st, key)
    else:
        raise Unsupported("thread local")
    return I.call_value(st, a[1], [v], call["fr"])


# ---------------------------------------------------------------- indexing
def range_bounds(I, st, r, n):
    """[(st, lo, hi)] of a range argument, None when the argument is an index"""
    for s, v in I.agg(st, r):
        if not isinstance(v, Agg):
            return None
        k = v.k.split("::")[-1]
        if k == "Range":
            return [(s, v.f[0], v.f[1])]
        if k == "RangeFrom":
            return [(s, v.f[0], n)]
        if k == "RangeTo":
            return [(s, ZERO, v.f[0])]
        if k == "RangeFull":
            return [(s, ZERO, n)]
        if k == "RangeInclusive":
            return [(s, v.f[0], v.f[1] + 1)]
        if k == "RangeToInclusive":
            return [(s, ZERO, v.f[0] + 1)]
    return None


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def m_index(I, st, a, call):
    out = []
    if isinstance(a[0], Ref) and not (a[0].p and a[0].p[-1][0] == "r"):
        import maps
        v = I.rload(st, a[0])
        if len(v) == 1 and isinstance(v[0][1], Agg) and v[0][1].k == maps.HM:
            return maps.m_mapindex(I, st, a, call)
    for s0, r in I.as_slice(st, a[0]):
        base = r.p[-1]
        n = base[2] - base[1]
        idx = a[1]
        if isinstance(idx, Lin):
            for s, b in cases(s0, f_and(f_ge(idx), f_lt(idx, n))):
                if b:
                    out += ret(s, I.deref_ref(r, (("x", idx),)))
                else:
                    out += panic(s, "index %r out of bounds (len %r) at %s" % (idx, n, call["line"]), "bounds")
            continue
        for s, lo, hi in range_bounds(I, s0, idx, n) or I._unsup("index by %r" % (idx,)):
            for s2, b in cases(s, f_and(f_le(lo, hi), f_le(hi, n))):
                if b:
                    out += ret(s2, I.deref_ref(r, (("r", lo, hi),)))
                else:
                    out += panic(s2, "range %r..%r out of bounds (len %r) at %s" % (lo, hi, n, call["line"]), "bounds")
    return out


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def m_get(I, st, a, call):
    out = []
    for s0, r in I.as_slice(st, a[0]):
        n = r.p[-1][2] - r.p[-1][1]
        idx = a[1]
        if isinstance(idx, Lin):
            for s, b in cases(s0, f_and(f_ge(idx), f_lt(idx, n))):
                out += ret(s, some(I.deref_ref(r, (("x", idx),))) if b else NONE)
            continue
        for s, lo, hi in range_bounds(I, s0, idx, n):
            for s2, b in cases(s, f_and(f_le(lo, hi), f_le(hi, n))):
                out += ret(s2, some(I.deref_ref(r, (("r", lo, hi),))) if b else NONE)
    return out


@model("core::slice::<impl [T]>::len", "std::vec::Vec::<T, A>::len", "std::collections::VecDeque::<T, A>::len")
def m_len(I, st, a, call):
    return rets(I.ref_len(st, a[0]))


@model("core::slice::<impl [T]>::is_empty", "std::vec::Vec::<T, A>::is_empty", "std::collections::VecDeque::<T, A>::is_empty", "core::str::<impl str>::is_empty", "std::string::String::is_empty")
def m_isempty(I, st, a, call):
    return [("ret", s, simp(s, f_eq(n))) for s, n in I.ref_len(st, a[0])]


def simp(st, f):
    t = st.truth(f)
    return f if t is None else t


@model("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::first_mut", "core::slice::<impl [T]>::last", "core::slice::<impl [T]>::last_mut")
def m_firstlast(I, st, a, call):
    last = "last" in call["d"]["p"]
    out = []
    for s0, r in I.as_slice(st, a[0]):
        n = r.p[-1][2] - r.p[-1][1]
        for s, e in cases(s0, f_eq(n)):
            out += ret(s, NONE if e else some(I.deref_ref(r, (("x", n - 1 if last else ZERO),))))
    return out


@model("core::slice::<impl [T]>::split_first", "core::slice::<impl [T]>::split_last")
def m_split_first(I, st, a, call):
    last = "last" in call["d"]["p"]
    out = []
    for s0, r in I.as_slice(st, a[0]):
        n = r.p[-1][2] - r.p[-1][1]
        for s, e in cases(s0, f_eq(n)):
            if e:
                out += ret(s, NONE)
            else:
                out += ret(s, some(Agg("tuple", 0, (I.deref_ref(r, (("x", n - 1 if last else ZERO),)), I.deref_ref(r, (("r", ZERO, n - 1) if last else ("r", ONE, n),))))))
    return out


@model("core::slice::<impl [T]>::split_at", "core::slice::<impl [T]>::split_at_mut")
def m_split_at(I, st, a, call):
    out = []
    for s0, r in I.as_slice(st, a[0]):
        n = r.p[-1][2] - r.p[-1][1]
        for s, b in cases(s0, f_le(a[1], n)):
            if b:
                out += ret(s, Agg("tuple", 0, (I.deref_ref(r, (("r", ZERO, a[1]),)), I.deref_ref(r, (("r", a[1], n),)))))
            else:
                out += panic(s, "split_at", "bounds")
    return out


@model("core::slice::<impl [T]>::swap")
def m_swap(I, st, a, call):
    out = []
    for s0, r in I.as_slice(st, a[0]):
        n = r.p[-1][2] - r.p[-1][1]
        for s, b in cases(s0, f_and(f_lt(a[1], n), f_lt(a[2], n))):
            if not b:
                out += panic(s, "swap out of bounds at %s" % call["line"], "bounds")
                continue
            for s1, x in I.rload(s, r, (("x", a[1]),)):
                for s2, y in I.rload(s1, r, (("x", a[2]),)):
                    for s3 in I.rstore(s2, r, y, (("x", a[1]),)):
                        for s4 in I.rstore(s3, r, x, (("x", a[2]),)):
                            out += ret(s4, UNIT)
    return out


@model("core::slice::<impl [T]>::reverse")
def m_reverse(I, st, a, call):
    out = []
    for s0, r in I.as_slice(st, a[0]):
        for s, q in I.rload(s0, r):
            if all(g[0] == "e" for g in q.s):
                for s2 in I.rstore(s, Ref(r.c, r.p), Seq(q.s[::-1])):
                    out += ret(s2, UNIT)
            else:
                h = getattr(I, "reverse_hook", None)
                if not h:
                    raise Unsupported("reverse of symbolic sequence")
                for s2 in I.rstore(s, Ref(r.c, r.p), h(I, s, q)):
                    out += ret(s2, UNIT)
    return out


@model("std::slice::<impl [T]>::to_vec", "std::slice::<impl [T]>::into_vec", "core::slice::<impl [T]>::to_vec")
def m_tovec(I, st, a, call):
    return rets(seq_of(I, st, a[0]))


@model("core::slice::<impl [T]>::starts_with", "core::slice::<impl [T]>::ends_with")
def m_starts(I, st, a, call):
    end = call["d"]["p"].endswith("ends_with")
    out = []
    for s, r in I.as_slice(st, a[0]):
        for s1, q in I.as_slice(s, a[1]):
            n, k = r.p[-1][2] - r.p[-1][1], q.p[-1][2] - q.p[-1][1]
            for s2, fits in cases(s1, f_le(k, n)):
                if not fits:
                    out += ret(s2, False)
                else:
                    out += eq_vals(I, s2, I.deref_ref(r, (("r", n - k, n) if end else ("r", ZERO, k),)), q, call)
    return out


@model("core::slice::<impl [T]>::contains")
def m_contains(I, st, a, call):
    def body(s, ref):
        return eq_vals(I, s, ref, a[1], call)
    return quant(I, st, mk_iter(I, st, a[0]), body, call, False)


@model("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def m_copy_from(I, st, a, call):
    out = []
    for s0, r in I.as_slice(st, a[0]):
        for s1, r2 in I.as_slice(s0, a[1]):
            n = r.p[-1][2] - r.p[-1][1]
            m = r2.p[-1][2] - r2.p[-1][1]
            for s, e in cases(s1, f_eq(n - m)):
                if not e:
                    out += panic(s, "copy_from_slice length", "bounds")
                    continue
                for s2, q in I.rload(s, r2):
                    for s3 in I.rstore(s2, r, q):
                        out += ret(s3, UNIT)
    return out


@model("core::slice::<impl [T]>::fill")
def m_fill(I, st, a, call):
    out = []
    for s0, r in I.as_slice(st, a[0]):
        n = r.p[-1][2] - r.p[-1][1]
        for s3 in I.rstore(s0, r, rep_seq(I, a[1], n)):
            out += ret(s3, UNIT)
    return out


# ---------------------------------------------------------------- Vec
@model("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "std::collections::VecDeque::<T>::new", "std::collections::VecDeque::<T>::with_capacity",
       "std::string::String::new", "std::string::String::with_capacity")
def m_vecnew(I, st, a, call):
    return ret(st, Seq())


@model("std::vec::Vec::<T, A>::push", "std::collections::VecDeque::<T, A>::push_back", "std::string::String::push")
def m_push(I, st, a, call):
    out = []
    for s, q in I.rload(st, a[0]):
        if not isinstance(q, Seq):
            raise Unsupported("push to %r" % (q,))
        for s2 in I.rstore(s, a[0], Seq(q.s + (("e", a[1]),))):
            out += ret(s2, UNIT)
    return out


@model("std::vec::Vec::<T, A>::pop", "std::collections::VecDeque::<T, A>::pop_back", "std::collections::VecDeque::<T, A>::pop_front", "std::string::String::pop")
def m_pop(I, st, a, call):
    front = call["d"]["p"].endswith("front")
    out = []
    for s, q in I.rload(st, a[0]):
        n = q.length()
        for s1, e in cases(s, f_eq(n)):
            if e:
                out += ret(s1, NONE)
                continue
            for s2, l, r in I.seq_split(s1, q, ONE if front else n - 1):
                for s3, v in I.seq_index(s2, l if front else r, ZERO):
                    for s4 in I.rstore(s3, a[0], r if front else l):
                        out += ret(s4, some(v))
    return out


@model("std::vec::Vec::<T, A>::clear", "std::string::String::clear", "std::collections::VecDeque::<T, A>::clear")
def m_clear(I, st, a, call):
    return [("ret", s, UNIT) for s in I.rstore(st, a[0], Seq())]


@model("std::vec::Vec::<T, A>::truncate")
def m_truncate(I, st, a, call):
    out = []
    for s, q in I.rload(st, a[0]):
        n = q.length()
        for s1, le in cases(s, f_le(n, a[1])):
            if le:
                out += ret(s1, UNIT)
                continue
            for s2, l, r in I.seq_split(s1, q, a[1]):
                for s3 in I.rstore(s2, a[0], l):
                    out += ret(s3, UNIT)
    return out


def rep_seq(I, v, n):
    """n copies of v"""
    n = lin(n)
    if n.is_const() and n.c <= 64:
        return Seq([("e", v)] * n.c)
    key = "rep(%r)" % (v,)
    return arr_seq(SymArr(key, None, lambda I_, s, i: [(s, v)], False), n)


@model("std::vec::from_elem")
def m_fromelem(I, st, a, call):
    return ret(st, rep_seq(I, a[0], a[1]))


@model("std::vec::Vec::<T, A>::resize")
def m_resize(I, st, a, call):
    out = []
    for s, q in I.rload(st, a[0]):
        n = q.length()
        for s1, le in cases(s, f_le(a[1], n)):
            if le:
                for s2, l, r in I.seq_split(s1, q, a[1]):
                    for s3 in I.rstore(s2, a[0], l):
                        out += ret(s3, UNIT)
            else:
                for s3 in I.rstore(s1, a[0], Seq(q.s + rep_seq(I, a[2], a[1] - n).s)):
                    out += ret(s3, UNIT)
    return out


@model("std::vec::Vec::<T, A>::resize_with")
def m_resize_with(I, st, a, call):
    out = []
    for s, q in I.rload(st, a[0]):
        n = q.length()
        for s1, le in cases(s, f_le(a[1], n)):
            if le:
                for s2, l, r in I.seq_split(s1, q, a[1]):
                    for s3 in I.rstore(s2, a[0], l):
                        out += ret(s3, UNIT)
                continue
            d = a[1] - n
            if d.t or d.c > 64:
                raise Unsupported("resize_with by %r" % (d,))
            outs = [("ret", s1, [])]
            for _ in range(d.c):
                outs = [o2 if o2[0] != "ret" else ("ret", o2[1], o[2] + [o2[2]]) for o in outs for o2 in
                        ([o] if o[0] != "ret" else I.call_value(o[1], a[2], [], call["fr"]))]
            for o in outs:
                if o[0] != "ret":
                    out.append(o)
                    continue
                for s3 in I.rstore(o[1], a[0], Seq(tuple(q.s) + tuple(("e", x) for x in o[2]))):
                    out += ret(s3, UNIT)
    return out


@model("std::vec::Vec::<T, A>::extend_from_slice", "std::string::String::push_str")
def m_extend(I, st, a, call):
    out = []
    for s, q in I.rload(st, a[0]):
        for s1, r in seq_of(I, s, a[1]):
            for s2 in I.rstore(s1, a[0], Seq(q.s + r.s)):
                out += ret(s2, UNIT)
    return out


@model("std::vec::Vec::<T, A>::append")
def m_append(I, st, a, call):
    out = []
    for s, q in I.rload(st, a[0]):
        for s1, r in I.rload(s, a[1]):
            for s2 in I.rstore(s1, a[0], Seq(q.s + r.s)):
                for s3 in I.rstore(s2, a[1], Seq()):
                    out += ret(s3, UNIT)
    return out


@model("std::vec::Vec::<T, A>::insert")
def m_insert(I, st, a, call):
    out = []
    for s, q in I.rload(st, a[0]):
        n = q.length()
        for s1, b in cases(s, f_le(a[1], n)):
            if not b:
                out += panic(s1, "insert out of bounds at %s" % call["line"], "bounds")
                continue
            for s2, l, r in I.seq_split(s1, q, a[1]):
                for s3 in I.rstore(s2, a[0], Seq(l.s + (("e", a[2]),) + r.s)):
                    out += ret(s3, UNIT)
    return out


@model("std::vec::Vec::<T, A>::remove")
def m_remove(I, st, a, call):
    out = []
    for s, q in I.rload(st, a[0]):
        n = q.length()
        for s1, b in cases(s, f_lt(a[1], n)):
            if not b:
                out += panic(s1, "remove out of bounds at %s" % call["line"], "bounds")
                continue
            for s2, v in I.seq_index(s1, q, a[1]):
                for s3, l, r in I.seq_split(s2, q, a[1]):
                    for s4, m, t in I.seq_split(s3, r, ONE):
                        for s5 in I.rstore(s4, a[0], Seq(l.s + t.s)):
                            out += ret(s5, v)
    return out


@model("std::vec::Vec::<T, A>::swap_remove")
def m_swap_remove(I, st, a, call):
    out = []
    for s, q in I.rload(st, a[0]):
        n = q.length()
        for s1, b in cases(s, f_lt(a[1], n)):
            if not b:
                out += panic(s1, "swap_remove out of bounds at %s" % call["line"], "bounds")
                continue
            for s2, v in I.seq_index(s1, q, a[1]):
                for s3, w in I.seq_index(s2, q, n - 1):
                    for s4, q2 in I.seq_set(s3, q, a[1], w):
                        for s5, l, r in I.seq_split(s4, q2, n - 1):
                            for s6 in I.rstore(s5, a[0], l):
                                out += ret(s6, v)
    return out


@model("std::vec::Vec::<T, A>::into_boxed_slice", "std::string::String::into_boxed_str")
def m_intobox(I, st, a, call):
    c = I.newcell(st, a[0], "box")
    return ret(st, Ref(c, (("r", ZERO, a[0].length()),)))


@model("std::vec::Vec::<T, A>::reserve", "std::vec::Vec::<T, A>::shrink_to_fit", "std::string::String::reserve")
def m_nop(I, st, a, call):
    return ret(st, UNIT)


@model("std::vec::Vec::<T, A>::capacity")
def m_cap(I, st, a, call):
    return ret(st, I.intsym(st, fresh("cap"), 0, 2**60))


# ---------------------------------------------------------------- characters and strings
def valid_char(x):
    return f_and(f_ge(x), f_ge(Lin(0x10FFFF) - x), f_or(f_ge(Lin(0xD7FF) - x), f_ge(x - 0xE000)))


@model("std::char::from_u32", "std::char::methods::<impl char>::from_u32", "core::char::methods::<impl char>::from_u32")
def m_from_u32(I, st, a, call):
    return [("ret", s, some(a[0]) if b else NONE) for s, b in cases(st, valid_char(a[0]))]


@model("std::char::from_digit", "std::char::methods::<impl char>::from_digit")
def m_from_digit(I, st, a, call):
    d, r = a
    if not r.is_const():
        raise Unsupported("from_digit radix")
    out = []
    for s, b in cases(st, f_lt(d, r)):
        if not b:
            out += ret(s, NONE)
            continue
        for s2, dec in cases(s, f_le(d, Lin(9))):
            out += ret(s2, some(d + 48 if dec else d + 87))
    return out


def in_range(x, a, b):
    return f_and(f_ge(x - ord(a)), f_ge(Lin(ord(b)) - x))


def charpred(name, f):
    def m(I, st, a, call):
        out = []
        for s, v in peel(I, st, a[0]):
            out += [("ret", s2, b) for s2, b in cases(s, f(v))]
        return out
    M["std::char::methods::<impl char>::" + name] = m
    M["core::num::<impl u8>::" + name] = m


charpred("is_ascii_hexdigit", lambda x: f_or(in_range(x, "0", "9"), in_range(x, "a", "f"), in_range(x, "A", "F")))
charpred("is_ascii_digit", lambda x: in_range(x, "0", "9"))
charpred("is_ascii", lambda x: f_ge(Lin(127) - x))
charpred("is_ascii_graphic", lambda x: in_range(x, "!", "~"))
charpred("is_ascii_lowercase", lambda x: in_range(x, "a", "z"))
charpred("is_ascii_uppercase", lambda x: in_range(x, "A", "Z"))
charpred("is_ascii_alphabetic", lambda x: f_or(in_range(x, "a", "z"), in_range(x, "A", "Z")))
charpred("is_ascii_alphanumeric", lambda x: f_or(in_range(x, "a", "z"), in_range(x, "A", "Z"), in_range(x, "0", "9")))
charpred("is_ascii_control", lambda x: f_or(f_ge(Lin(31) - x), f_eq(x - 127)))


@model("std::char::methods::<impl char>::is_digit")
def m_is_digit(I, st, a, call):
    return then(m_to_digit(I, st, a, call), lambda s, v: ret(s, v.var == 1))


@model("std::char::methods::<impl char>::to_digit")
def m_to_digit(I, st, a, call):
    x, r = a
    if not r.is_const():
        raise Unsupported("to_digit radix")
    out = []
    for s, dec in cases(st, in_range(x, "0", "9")):
        if dec:
            for s2, b in cases(s, f_lt(x - 48, r)):
                out += ret(s2, some(x - 48) if b else NONE)
            continue
        if r.c <= 10:
            out += ret(s, NONE)
            continue
        for s2, lo in cases(s, f_and(f_ge(x - 97), f_lt(x - 87, r))):
            if lo:
                out += ret(s2, some(x - 87))
                continue
            for s3, up in cases(s2, f_and(f_ge(x - 65), f_lt(x - 55, r))):
                out += ret(s3, some(x - 55) if up else NONE)
    return out


@model("std::char::methods::<impl char>::len_utf8")
def m_len_utf8(I, st, a, call):
    out = []
    for s, b in cases(st, f_ge(Lin(0x7F) - a[0])):
        if b:
            out += ret(s, Lin(1))
        else:
            for s2, b2 in cases(s, f_ge(Lin(0x7FF) - a[0])):
                if b2:
                    out += ret(s2, Lin(2))
                else:
                    for s3, b3 in cases(s2, f_ge(Lin(0xFFFF) - a[0])):
                        out += ret(s3, Lin(3 if b3 else 4))
    return out


@model("core::str::<impl str>::chars")
def m_chars(I, st, a, call):
    out = []
    for s, q in seq_of(I, st, a[0]):
        c = I.newcell(s, q, "chars")
        out += ret(s, Agg("it:Own", 0, (Ref(c), ZERO, q.length())))
    return out


@model("std::string::ToString::to_string")
def m_to_string(I, st, a, call):
    sty = call["d"].get("self") or {}
    if sty.get("k") == "char":
        return [("ret", s, Seq((("e", v),))) for s, v in peel(I, st, a[0])]
    if sty.get("k") == "str" or sty.get("p") == "std::string::String":
        return rets(seq_of(I, st, a[0]))
    h = getattr(I, "to_string_hook", None)
    if h:
        return h(I, st, a, call)
    raise Unsupported("to_string")


# ---------------------------------------------------------------- formatting
def decode_template(b):
    """std format_args template: [(kind, data)]; kind 'lit' (str) | 'arg' (index, options)"""
    out = []
    i = 0
    nxt = 0
    while i < len(b):
        c = b[i]
        i += 1
        if c == 0:
            break
        if c < 0x80:
            out.append(("lit", b[i:i + c].decode("utf8")))
            i += c
        elif c == 0x80:
            n = b[i] | b[i + 1] << 8
            i += 2
            out.append(("lit", b[i:i + n].decode("utf8")))
            i += n
        else:
            o = {}
            if c & 1:
                o["flags"] = int.from_bytes(b[i:i + 4], "little")
                i += 4
            if c & 2:
                o["width"] = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if c & 4:
                o["prec"] = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if c & 8:
                nxt = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if c & 16:
                o["widtharg"] = True
            if c & 32:
                o["precarg"] = True
            out.append(("arg", nxt, o))
            nxt += 1
    return out


@model("core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_lower_hex", "core::fmt::rt::Argument::<'_>::new_debug",
       "core::fmt::rt::Argument::<'_>::new_upper_hex")
def m_fmtarg(I, st, a, call):
    return ret(st, Agg("fmtarg", 0, (Term(call["d"]["p"].split("new_")[-1]), a[0], Term("ty", json_ty(call["d"]["a"][-1] if call["d"].get("a") else {"k": "other"})))))


def json_ty(t):
    return ty_key(base_ty(t)) if t.get("k") else "?"


@model("std::fmt::Arguments::<'a>::new")
def m_fmtnew(I, st, a, call):
    out = []
    for s, t in peel(I, st, a[0]):
        for s2, args in peel(I, s, a[1]):
            out += ret(s2, Agg("fmtargs", 0, (t, args)))
    return out


@model("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::new_const")
def m_fmtstr(I, st, a, call):
    return [("ret", s, Agg("fmtargs", 1, (t,))) for s, t in peel(I, st, a[0])]


def format_outcomes(I, st, fa, call):
    """outcomes with the Seq of characters produced by the format arguments"""
    if fa.k == "fmtargs" and fa.var == 1:
        return rets(seq_of(I, st, fa.f[0]))
    t = fa.f[0]
    if not isinstance(t, Bytes):
        raise Unsupported("format template %r" % (t,))
    cur = [("ret", st, ())]
    for pc in decode_template(t.b):
        nxt = []
        for o in cur:
            if o[0] != "ret":
                nxt.append(o)
                continue
            if pc[0] == "lit":
                nxt.append(("ret", o[1], o[2] + tuple(("e", Lin(ord(c))) for c in pc[1])))
                continue
            arg = fa.f[1].s[pc[1]][1]
            for o2 in fmt_one(I, o[1], arg, pc[2], call):
                nxt.append(("ret", o2[1], o[2] + o2[2].s) if o2[0] == "ret" else o2)
        cur = nxt
    return [("ret", o[1], Seq(o[2])) if o[0] == "ret" else o for o in cur]


def fmt_one(I, st, arg, opts, call):
    kind = arg.f[0].op
    out = []
    for s, v in peel(I, st, arg.f[1]):
        tk = arg.f[2].a[0]
        if tk == "char" and not opts and kind == "display":
            out += ret(s, Seq((("e", v),)))
        elif isinstance(v, (Seq, Bytes)) and not opts and kind == "display":
            out += rets(seq_of(I, s, v))
        elif isinstance(v, Lin) and kind in ("lower_hex", "upper_hex"):
            out += fmt_hex(I, s, v, opts, kind)
        elif isinstance(v, Lin) and kind == "display" and not opts:
            out += ret(s, Seq((("t", Term("dec", v), declen(I, s, v)),)))
        else:
            raise Unsupported("formatting of %r as %s" % (v, kind))
    return out


def declen(I, s, v):
    n = I.intsym(s, fresh("declen"), 1, 20)
    return n


def fmt_hex(I, st, v, opts, kind):
    """hexadecimal digits of v as symbolic characters, split on the number of digits"""
    width = opts.get("width", 0)
    fl = opts.get("flags", 0)
    if opts and set(opts) - {"width", "flags"}:
        raise Unsupported("hex format options")
    zero = bool(fl & (1 << 24))
    alt = bool(fl & (1 << 23))
    if width and not zero:
        raise Unsupported("hex padding")
    out = []
    cur = [st]
    for nd in range(1, 9):
        nxt = []
        for s in cur:
            for s2, b in ([(s, True)] if nd == 8 else cases(s, f_lt(v, Lin(16 ** nd)))):
                if not b:
                    nxt.append(s2)
                    continue
                digs = []
                x = v
                for _ in range(nd):
                    q, r = I.divmod_const(s2, x, 16)
                    digs.append(r)
                    x = q
                n = max(nd, width - (2 if alt else 0))
                chars = ([Lin(48), Lin(120)] if alt else []) + [Lin(48)] * (n - nd) + [Lin(0)] * 0
                seq = [("e", c) for c in chars] + [("t", Term("hexdig" if kind == "lower_hex" else "HEXDIG", d), ONE) for d in digs[::-1]]
                out += ret(s2, Seq(seq))
        cur = nxt
        if not cur:
            break
    return out


@model("std::fmt::Formatter::<'a>::write_fmt", "std::fmt::Write::write_fmt")
def m_write_fmt(I, st, a, call):
    def k(s, q):
        for s1, o in fmt_sink(I, s, a[0]):
            pass
        return append_out(I, s, a[0], q)
    h = getattr(I, "fmt_hook", None)
    if h:
        r = h(I, st, a, call)
        if r is not None:
            return r
    return then(format_outcomes(I, st, a[1], call), lambda s, q: append_out(I, s, a[0], q))


def fmt_sink(I, s, f):
    return I.rload(s, f)


def append_out(I, st, f, q):
    out = []
    for s, o in I.rload(st, f):
        if isinstance(o, Seq):
            for s2 in I.rstore(s, f, Seq(o.s + q.s)):
                out += ret(s2, ok(UNIT))
        else:
            raise Unsupported("formatter %r" % (o,))
    return out


@model("std::fmt::Formatter::<'a>::write_str", "std::fmt::Write::write_str")
def m_write_str(I, st, a, call):
    out = []
    for s, q in seq_of(I, st, a[1]):
        out += append_out(I, s, a[0], q)
    return out


@model("std::fmt::Formatter::<'a>::write_char", "std::fmt::Write::write_char")
def m_write_char(I, st, a, call):
    return append_out(I, st, a[0], Seq((("e", a[1]),)))


@model("std::fmt::Display::fmt")
def m_display(I, st, a, call):
    out = []
    for s, v in peel(I, st, a[0]):
        if isinstance(v, (Seq, Bytes)):
            for s2, q in seq_of(I, s, v):
                out += append_out(I, s2, a[1], q)
        else:
            raise Unsupported("Display::fmt of %r" % (v,))
    return out


@model("std::fmt::format", "alloc::fmt::format")
def m_format(I, st, a, call):
    return format_outcomes(I, st, a[0], call)


@model("std::io::_print", "std::io::_eprint")
def m_print(I, st, a, call):
    return ret(st, UNIT)


# ---------------------------------------------------------------- iterators
def mk_iter(I, st, r):
    """slice pointer -> iterator over element pointers (single state)"""
    l = I.as_slice(st, r)
    if len(l) != 1:
        raise Unsupported("iterator over split pointer")
    r = l[0][1]
    return Agg("it:Slice", 0, (Ref(r.c, r.p[:-1]), r.p[-1][1], r.p[-1][2]))


@model("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "std::collections::VecDeque::<T, A>::iter", "std::collections::VecDeque::<T, A>::iter_mut")
def m_iter(I, st, a, call):
    return [("ret", s, Agg("it:Slice", 0, (Ref(r.c, r.p[:-1]), r.p[-1][1], r.p[-1][2]))) for s, r in I.as_slice(st, a[0])]


@model("std::iter::IntoIterator::into_iter")
def m_into_iter(I, st, a, call):
    return rets(into_iter(I, st, a[0], call["d"].get("self")))


def into_iter(I, st, v, sty=None):
    if isinstance(v, Ref):
        if v.p and v.p[-1][0] == "r":
            return [(st, mk_iter(I, st, v))]
        out = []
        for s, x in I.rload(st, v):
            if isinstance(x, Seq) or isinstance(x, Ref):
                out.append((s, mk_iter(I, s, v)))
            else:
                out.append((s, v))
        return out
    if isinstance(v, Seq):
        c = I.newcell(st, v, "into")
        return [(st, Agg("it:Own", 0, (Ref(c), ZERO, v.length())))]
    if isinstance(v, Agg):
        if v.k == OPTION:
            return [(s, Agg("it:Opt", 0, (x,))) for s, x in [(st, v)]]
        return [(st, v)]
    if isinstance(v, SymE) and v.ty["p"] == OPTION:
        return [(st, Agg("it:Opt", 0, (v,)))]
    if isinstance(v, Term):
        return [(st, v)]
    raise Unsupported("into_iter of %r" % (v,))


def adapter(kind):
    def m(I, st, a, call):
        out = []
        for s, it in [(st, a[0])]:
            rest = list(a[1:])
            if kind in ("Zip", "Chain"):
                for s2, it2 in into_iter(I, s, a[1]):
                    out += ret(s2, Agg("it:" + kind, 0, (it, it2)))
                continue
            if kind == "Enumerate":
                rest = [ZERO]
            if kind == "Peekable":
                rest = [NONE]
            out += ret(s, Agg("it:" + kind, 0, [it] + rest))
        return out
    return m


for _n, _k in (("enumerate", "Enumerate"), ("rev", "Rev"), ("skip", "Skip"), ("take", "Take"), ("map", "Map"), ("filter", "Filter"), ("zip", "Zip"),
               ("chain", "Chain"), ("filter_map", "FilterMap"), ("take_while", "TakeWhile"), ("skip_while", "SkipWhile"), ("inspect", "Inspect"),
               ("by_ref", None), ("fuse", None)):
    M["std::iter::Iterator::" + _n] = adapter(_k) if _k else m_id


@model("std::iter::zip")
def m_zip(I, st, a, call):
    out = []
    for s, x in into_iter(I, st, a[0]):
        for s2, y in into_iter(I, s, a[1]):
            out += ret(s2, Agg("it:Zip", 0, (x, y)))
    return out


@model("std::ops::RangeInclusive::<Idx>::new")
def m_rangeincl(I, st, a, call):
    return ret(st, Agg("std::ops::RangeInclusive", 0, (a[0], a[1], False)))


@model("std::ops::RangeInclusive::<Idx>::contains", "std::ops::Range::<Idx>::contains")
def m_range_contains(I, st, a, call):
    out = []
    for s, r in peel(I, st, a[0]):
        for s2, x in peel(I, s, a[1]):
            f = f_and(f_le(r.f[0], x), f_le(x, r.f[1]) if "Inclusive" in r.k else f_lt(x, r.f[1]))
            out += ret(s2, f)
    return out


@model("std::iter::once")
def m_once(I, st, a, call):
    return ret(st, Agg("it:Opt", 0, (some(a[0]),)))


@model("std::iter::empty")
def m_itempty(I, st, a, call):
    return ret(st, Agg("it:Opt", 0, (NONE,)))


@model("std::iter::Iterator::next")
def m_next(I, st, a, call):
    return iter_next(I, st, a[0], call)


@model("std::iter::DoubleEndedIterator::next_back")
def m_next_back(I, st, a, call):
    return iter_next(I, st, a[0], call, True)


def setf(I, s, r, i, v):
    return I.rstore(s, r, v, (("f", i),))


def iter_next(I, st, r, call, back=False):
    """advance the iterator stored behind pointer r"""
    out = []
    for s, it in I.rload(st, r):
        if isinstance(it, Ref):
            out += iter_next(I, s, it, call, back)
            continue
        if isinstance(it, SymE):
            raise Unsupported("iterator %r" % (it,))
        if not isinstance(it, Agg):
            h = getattr(I, "iter_hook", None)
            if h:
                x = h(I, s, r, it, back)
                if x is not None:
                    out += x
                    continue
            raise Unsupported("iterator %r" % (it,))
        k = it.k
        if k in ("it:Slice", "it:Own"):
            base, lo, hi = it.f
            for s2, b in cases(s, f_lt(lo, hi)):
                if not b:
                    out += ret(s2, NONE)
                    continue
                idx = hi - 1 if back else lo
                item = I.deref_ref(base, (("x", idx),))
                for s3 in (setf(I, s2, r, 2, hi - 1) if back else setf(I, s2, r, 1, lo + 1)):
                    if k == "it:Own":
                        for s4, v in I.rload(s3, item):
                            out += ret(s4, some(v))
                    else:
                        out += ret(s3, some(item))
        elif k == "std::ops::Range":
            lo, hi = it.f
            for s2, b in cases(s, f_lt(lo, hi)):
                if not b:
                    out += ret(s2, NONE)
                elif back:
                    for s3 in setf(I, s2, r, 1, hi - 1):
                        out += ret(s3, some(hi - 1))
                else:
                    for s3 in setf(I, s2, r, 0, lo + 1):
                        out += ret(s3, some(lo))
        elif k == "std::ops::RangeFrom":
            for s3 in setf(I, s, r, 0, it.f[0] + 1):
                out += ret(s3, some(it.f[0]))
        elif k == "std::ops::RangeInclusive":
            lo, hi, done = it.f
            for s2, b in cases(s, f_and(f_not(done), f_le(lo, hi))):
                if not b:
                    out += ret(s2, NONE)
                    continue
                for s3, last in cases(s2, f_eq(lo - hi)):
                    if last:
                        for s4 in setf(I, s3, r, 2, True):
                            out += ret(s4, some(lo))
                    elif back:
                        for s4 in setf(I, s3, r, 1, hi - 1):
                            out += ret(s4, some(hi))
                    else:
                        for s4 in setf(I, s3, r, 0, lo + 1):
                            out += ret(s4, some(lo))
        elif k == "it:Opt":
            for s2, v in I.agg(s, it.f[0]):
                for s3 in setf(I, s2, r, 0, NONE):
                    out += ret(s3, v)
        elif k == "it:Copied":
            for o in iter_next(I, s, I.deref_ref(r, (("f", 0),)), call, back):
                if o[0] == "ret" and o[2].var == 1:
                    for s2, v in I.rload(o[1], o[2].f[0]):
                        out += ret(s2, some(v))
                else:
                    out.append(o)
        elif k == "it:Enumerate":
            if back:
                for s1, n in iter_len(I, s, I.deref_ref(r, (("f", 0),))):
                    for o in iter_next(I, s1, I.deref_ref(r, (("f", 0),)), call, True):
                        if o[0] == "ret" and o[2].var == 1:
                            out += ret(o[1], some(Agg("tuple", 0, (it.f[1] + n - 1, o[2].f[0]))))
                        else:
                            out.append(o)
                continue
            for o in iter_next(I, s, I.deref_ref(r, (("f", 0),)), call):
                if o[0] == "ret" and o[2].var == 1:
                    for s2 in setf(I, o[1], r, 1, it.f[1] + 1):
                        out += ret(s2, some(Agg("tuple", 0, (it.f[1], o[2].f[0]))))
                else:
                    out.append(o)
        elif k == "it:Rev":
            out += iter_next(I, s, I.deref_ref(r, (("f", 0),)), call, not back)
        elif k == "it:Skip":
            n = it.f[1]
            inner = I.deref_ref(r, (("f", 0),))
            if back:
                for s1, m in iter_len(I, s, r):
                    for s2, pos in cases(s1, f_ge(m - 1)):
                        out += iter_next(I, s2, inner, call, True) if pos else ret(s2, NONE)
                continue
            if n == ZERO:
                out += iter_next(I, s, inner, call)
                continue
            for s2 in iter_drop(I, s, inner, n, call):
                for s3 in setf(I, s2, r, 1, ZERO):
                    out += iter_next(I, s3, inner, call)
        elif k == "it:Take":
            n = it.f[1]
            if back:
                raise Unsupported("next_back of take")
            for s2, pos in cases(s, f_ge(n - 1)):
                if not pos:
                    out += ret(s2, NONE)
                    continue
                for s3 in setf(I, s2, r, 1, n - 1):
                    out += iter_next(I, s3, I.deref_ref(r, (("f", 0),)), call)
        elif k == "it:Map":
            for o in iter_next(I, s, I.deref_ref(r, (("f", 0),)), call, back):
                if o[0] == "ret" and o[2].var == 1:
                    out += then(I.call_value(o[1], I.deref_ref(r, (("f", 1),)), [o[2].f[0]], call["fr"]), lambda s2, v: ret(s2, some(v)))
                else:
                    out.append(o)
        elif k == "it:Inspect":
            for o in iter_next(I, s, I.deref_ref(r, (("f", 0),)), call, back):
                if o[0] == "ret" and o[2].var == 1:
                    c = I.newcell(o[1], o[2].f[0], "insp")
                    out += then(I.call_value(o[1], I.deref_ref(r, (("f", 1),)), [Ref(c)], call["fr"]), lambda s2, v, w=o[2]: ret(s2, w))
                else:
                    out.append(o)
        elif k in ("it:Filter", "it:FilterMap", "it:SkipWhile"):
            out += filter_next(I, s, r, it, call, back)
        elif k == "it:TakeWhile":
            if len(it.f) == 3 and it.f[2] is True:
                out += ret(s, NONE)
                continue
            for o in iter_next(I, s, I.deref_ref(r, (("f", 0),)), call):
                if o[0] == "ret" and o[2].var == 1:
                    c = I.newcell(o[1], o[2].f[0], "tw")
                    for o2 in I.call_value(o[1], I.deref_ref(r, (("f", 1),)), [Ref(c)], call["fr"]):
                        if o2[0] != "ret":
                            out.append(o2)
                            continue
                        for s2, b in cases(o2[1], o2[2]):
                            if b:
                                out += ret(s2, o[2])
                            else:
                                for s3 in I.rstore(s2, r, Agg("it:Opt", 0, (NONE,))):
                                    out += ret(s3, NONE)
                else:
                    out.append(o)
        elif k == "it:Zip":
            for o in iter_next(I, s, I.deref_ref(r, (("f", 0),)), call, back):
                if o[0] == "ret" and o[2].var == 1:
                    for o2 in iter_next(I, o[1], I.deref_ref(r, (("f", 1),)), call, back):
                        if o2[0] == "ret" and o2[2].var == 1:
                            out += ret(o2[1], some(Agg("tuple", 0, (o[2].f[0], o2[2].f[0]))))
                        else:
                            out.append(o2)
                else:
                    out.append(o)
        elif k == "it:Chain":
            i, j = (1, 0) if back else (0, 1)
            for o in iter_next(I, s, I.deref_ref(r, (("f", i),)), call, back):
                if o[0] == "ret" and o[2].var == 0:
                    out += iter_next(I, o[1], I.deref_ref(r, (("f", j),)), call, back)
                else:
                    out.append(o)
        elif k == "it:Peekable":
            p = it.f[1]
            if isinstance(p, Agg) and p.var == 1:
                if back:
                    raise Unsupported("next_back of a peeked iterator")
                for s2 in setf(I, s, r, 1, NONE):
                    out += ret(s2, p.f[0])
            else:
                out += iter_next(I, s, I.deref_ref(r, (("f", 0),)), call, back)
        elif k in ITERS:
            out += ITERS[k](I, s, r, it, call, back)
        elif k.startswith("it:") and getattr(I, "iters", {}).get(k):
            out += I.iters[k](I, s, r, it, back)
        else:
            done = False
            meth = "next_back" if back else "next"
            tr = "std::iter::DoubleEndedIterator" if back else "std::iter::Iterator"
            for t, targs, b in I.P.impls.get((tr, meth), ()):
                bt = base_ty(t)
                if bt["k"] == "adt" and bt["p"] == k:
                    if b.path in I.contracts:
                        x = I.contracts[b.path](I, s, [r], call)
                        if x is not None:
                            out += x
                            done = True
                            break
                    out += I.inline(s, b, [r], call["fr"], call["line"])
                    done = True
                    break
            if not done:
                raise Unsupported("iterator kind " + k)
    return out


def filter_next(I, s0, r, it, call, back):
    inner = I.deref_ref(r, (("f", 0),))
    fn = I.deref_ref(r, (("f", 1),))
    if it.k == "it:SkipWhile" and len(it.f) == 3:
        return iter_next(I, s0, inner, call)

    def iteration(s):
        outs = []
        for o in iter_next(I, s, inner, call, back):
            if o[0] != "ret":
                outs.append(o)
                continue
            if o[2].var == 0:
                outs.append(o)
                continue
            if it.k == "it:FilterMap":
                for o2 in I.call_value(o[1], fn, [o[2].f[0]], call["fr"]):
                    if o2[0] != "ret":
                        outs.append(o2)
                        continue
                    for s2, v in I.agg(o2[1], o2[2]):
                        outs.append(("ret", s2, v) if v.var == 1 else ("back", s2, None))
                continue
            c = I.newcell(o[1], o[2].f[0], "flt")
            for o2 in I.call_value(o[1], fn, [Ref(c)], call["fr"]):
                if o2[0] != "ret":
                    outs.append(o2)
                    continue
                for s2, b in cases(o2[1], o2[2]):
                    if it.k == "it:SkipWhile":
                        b = not b
                        if b:
                            a = I.rload(s2, r)[0][1]
                            s2 = I.rstore(s2, r, Agg(a.k, a.var, a.f + (True,)))[0]
                    outs.append(("ret", s2, o[2]) if b else ("back", s2, None))
        return outs
    return I.loop(s0, iteration, lambda s: gc(I, s), "%s %s" % (it.k, call["line"]))


def iter_len(I, st, r):
    out = []
    for s, it in I.rload(st, r):
        k = it.k
        if k in ("it:Slice", "it:Own"):
            out.append((s, it.f[2] - it.f[1]))
        elif k in ("it:Copied", "it:Map", "it:Rev", "it:Enumerate", "it:Inspect"):
            out += iter_len(I, s, I.deref_ref(r, (("f", 0),)))
        elif k == "std::ops::Range":
            for s2, b in cases(s, f_le(it.f[0], it.f[1])):
                out.append((s2, it.f[1] - it.f[0] if b else ZERO))
        elif k == "it:Skip":
            for s2, n in iter_len(I, s, I.deref_ref(r, (("f", 0),))):
                for s3, b in cases(s2, f_le(it.f[1], n)):
                    out.append((s3, n - it.f[1] if b else ZERO))
        elif k == "it:Take":
            for s2, n in iter_len(I, s, I.deref_ref(r, (("f", 0),))):
                for s3, b in cases(s2, f_le(it.f[1], n)):
                    out.append((s3, it.f[1] if b else n))
        elif k == "it:Zip":
            for s2, n in iter_len(I, s, I.deref_ref(r, (("f", 0),))):
                for s3, m in iter_len(I, s2, I.deref_ref(r, (("f", 1),))):
                    for s4, b in cases(s3, f_le(n, m)):
                        out.append((s4, n if b else m))
        else:
            raise Unsupported("length of iterator " + k)
    return out


M["std::iter::ExactSizeIterator::len"] = lambda I, st, a, call: rets(iter_len(I, st, a[0]))


def iter_drop(I, st, r, n, call):
    """advance by n (stop at the end)"""
    out = []
    for s, it in I.rload(st, r):
        k = it.k
        if k in ("it:Slice", "it:Own"):
            for s2, b in cases(s, f_le(n, it.f[2] - it.f[1])):
                out += setf(I, s2, r, 1, it.f[1] + n if b else it.f[2])
        elif k == "std::ops::Range":
            for s2, b in cases(s, f_le(n, it.f[1] - it.f[0])):
                out += setf(I, s2, r, 0, it.f[0] + n if b else it.f[1])
        elif k == "it:Enumerate":
            for s1, m in iter_len(I, s, I.deref_ref(r, (("f", 0),))):
                for s2, b in cases(s1, f_le(n, m)):
                    for s3 in iter_drop(I, s2, I.deref_ref(r, (("f", 0),)), n, call):
                        out += setf(I, s3, r, 1, it.f[1] + (n if b else m))
        elif k in ("it:Copied",):
            out += iter_drop(I, s, I.deref_ref(r, (("f", 0),)), n, call)
        elif n.is_const() and n.c <= 8:
            cur = [s]
            for _ in range(n.c):
                nxt = []
                for s2 in cur:
                    for o in iter_next(I, s2, r, call):
                        if o[0] == "ret":
                            nxt.append(o[1])
                        else:
                            raise Unsupported("skip with a failing iterator")
                cur = nxt
            out += cur
        else:
            raise Unsupported("skip on " + k)
    return out


@model("std::iter::Iterator::nth")
def m_nth(I, st, a, call):
    out = []
    for s in iter_drop(I, st, a[0], a[1], call):
        out += iter_next(I, s, a[0], call)
    return out


@model("std::iter::Iterator::last")
def m_itlast(I, st, a, call):
    c = I.newcell(st, a[0], "it")
    return iter_next(I, st, Ref(c), call, True)


def gc(I, st):
    """drop heap cells that are not reachable"""
    seen = set()
    todo = []
    for c, v in st.mem.items():
        if c[0] != "h":
            todo.append(v)
    hold = getattr(st, "roots", None)
    todo += [Ref(c) for c in I.roots]
    while todo:
        x = todo.pop()
        if isinstance(x, Ref):
            if x.c not in seen:
                seen.add(x.c)
                v = st.mem.get(x.c)
                if v is not None:
                    todo.append(v)
        elif isinstance(x, (Agg, Clo)):
            todo.extend(x.f)
        elif isinstance(x, Seq):
            for g in x.s:
                if g[0] == "e":
                    todo.append(g[1])
                elif g[0] == "s" and getattr(g[1], "roots", None):
                    todo.extend(g[1].roots)
                elif g[0] == "t":
                    todo.append(g[1])
        elif isinstance(x, Term):
            todo.extend(y for y in x.a if isinstance(y, V))
    for c in [c for c in st.mem if c[0] == "h" and c not in seen]:
        del st.mem[c]


def iter_cell(I, st, it, name):
    c = ("h", fresh(name))
    st.mem[c] = it
    I.roots.add(c)
    return c


def quant(I, st, it, pred, call, universal):
    """all / any over an iterator value"""
    c = iter_cell(I, st, it, "qit")

    def iteration(s):
        outs = []
        for o in iter_next(I, s, Ref(c), call):
            if o[0] != "ret":
                outs.append(o)
                continue
            if o[2].var == 0:
                outs.append(("ret", o[1], universal))
                continue
            for o2 in pred(o[1], o[2].f[0]):
                if o2[0] != "ret":
                    outs.append(o2)
                    continue
                for s2, b in cases(o2[1], o2[2]):
                    outs.append(("back", s2, None) if b == universal else ("ret", s2, b))
        return outs
    r = I.loop(st, iteration, lambda s: gc(I, s), "%s at %s" % ("all" if universal else "any", call["line"]))
    I.roots.discard(c)
    return r


@model("std::iter::Iterator::all")
def m_all(I, st, a, call):
    it = a[0]
    if isinstance(it, Ref):
        return quant_ref(I, st, it, lambda s, x: I.call_value(s, a[1], [x], call["fr"]), call, True)
    return quant(I, st, it, lambda s, x: I.call_value(s, a[1], [x], call["fr"]), call, True)


@model("std::iter::Iterator::any")
def m_any(I, st, a, call):
    it = a[0]
    if isinstance(it, Ref):
        return quant_ref(I, st, it, lambda s, x: I.call_value(s, a[1], [x], call["fr"]), call, False)
    return quant(I, st, it, lambda s, x: I.call_value(s, a[1], [x], call["fr"]), call, False)


def quant_ref(I, st, r, pred, call, universal):
    def iteration(s):
        outs = []
        for o in iter_next(I, s, r, call):
            if o[0] != "ret":
                outs.append(o)
                continue
            if o[2].var == 0:
                outs.append(("ret", o[1], universal))
                continue
            for o2 in pred(o[1], o[2].f[0]):
                if o2[0] != "ret":
                    outs.append(o2)
                    continue
                for s2, b in cases(o2[1], o2[2]):
                    outs.append(("back", s2, None) if b == universal else ("ret", s2, b))
        return outs
    return I.loop(st, iteration, lambda s: gc(I, s), "%s at %s" % ("all" if universal else "any", call["line"]))


@model("std::iter::Iterator::fold")
def m_fold(I, st, a, call):
    c = iter_cell(I, st, a[0], "fit")
    acc = iter_cell(I, st, a[1], "acc")
    fn = iter_cell(I, st, a[2], "ffn")

    def iteration(s):
        outs = []
        for o in iter_next(I, s, Ref(c), call):
            if o[0] != "ret":
                outs.append(o)
            elif o[2].var == 0:
                outs.append(("ret", o[1], o[1].mem[acc]))
            else:
                for o2 in I.call_value(o[1], Ref(fn), [o[1].mem[acc], o[2].f[0]], call["fr"]):
                    if o2[0] != "ret":
                        outs.append(o2)
                    else:
                        o2[1].mem[acc] = o2[2]
                        outs.append(("back", o2[1], None))
        return outs
    h = getattr(I, "fold_hook", None)
    if h:
        r = h(I, st, a, call, c, acc, fn)
        if r is not None:
            return r
    r = I.loop(st, iteration, lambda s: gc(I, s), "fold at %s" % call["line"])
    for x in (c, acc, fn):
        I.roots.discard(x)
    return r


@model("std::iter::Iterator::for_each")
def m_foreach(I, st, a, call):
    c = iter_cell(I, st, a[0], "feit")
    fn = iter_cell(I, st, a[1], "fefn")

    def iteration(s):
        outs = []
        for o in iter_next(I, s, Ref(c), call):
            if o[0] != "ret":
                outs.append(o)
            elif o[2].var == 0:
                outs.append(("ret", o[1], UNIT))
            else:
                for o2 in I.call_value(o[1], Ref(fn), [o[2].f[0]], call["fr"]):
                    outs.append(o2 if o2[0] != "ret" else ("back", o2[1], None))
        return outs
    r = I.loop(st, iteration, lambda s: gc(I, s), "for_each at %s" % call["line"])
    for x in (c, fn):
        I.roots.discard(x)
    return r


def search(kind):
    def m(I, st, a, call):
        r = a[0]
        own = not isinstance(r, Ref)
        if own:
            c = iter_cell(I, st, r, "sit")
            r = Ref(c)
        cnt = iter_cell(I, st, ZERO, "cnt")

        def iteration(s):
            outs = []
            for o in iter_next(I, s, r, call, kind == "rposition"):
                if o[0] != "ret":
                    outs.append(o)
                elif o[2].var == 0:
                    outs.append(("ret", o[1], NONE))
                else:
                    x = o[2].f[0]
                    if kind == "find":
                        arg = Ref(I.newcell(o[1], x, "fnd"))
                    else:
                        arg = x
                    for o2 in I.call_value(o[1], a[1], [arg], call["fr"]):
                        if o2[0] != "ret":
                            outs.append(o2)
                            continue
                        if kind == "find_map":
                            for s2, v in I.agg(o2[1], o2[2]):
                                outs.append(("ret", s2, v) if v.var == 1 else ("back", s2, None))
                            continue
                        for s2, b in cases(o2[1], o2[2]):
                            if b:
                                outs.append(("ret", s2, some(x) if kind == "find" else some(s2.mem[cnt])))
                            else:
                                s2.mem[cnt] = s2.mem[cnt] + 1
                                outs.append(("back", s2, None))
            return outs
        res = I.loop(st, iteration, lambda s: gc(I, s), "%s at %s" % (kind, call["line"]))
        if own:
            I.roots.discard(c)
        I.roots.discard(cnt)
        return res
    return m


for _k in ("find", "position", "find_map"):
    M["std::iter::Iterator::" + _k] = search(_k)


@model("std::iter::Iterator::count")
def m_count(I, st, a, call):
    if isinstance(a[0], Agg) and a[0].k in ("it:Slice", "it:Own", "it:Copied", "it:Map", "it:Rev", "it:Enumerate"):
        c = I.newcell(st, a[0], "cit")
        return rets(iter_len(I, st, Ref(c)))
    c = iter_cell(I, st, a[0], "cit")
    cnt = iter_cell(I, st, ZERO, "cnt")

    def iteration(s):
        outs = []
        for o in iter_next(I, s, Ref(c), call):
            if o[0] != "ret":
                outs.append(o)
            elif o[2].var == 0:
                outs.append(("ret", o[1], o[1].mem[cnt]))
            else:
                o[1].mem[cnt] = o[1].mem[cnt] + 1
                outs.append(("back", o[1], None))
        return outs
    r = I.loop(st, iteration, lambda s: gc(I, s), "count at %s" % call["line"])
    I.roots.discard(c)
    I.roots.discard(cnt)
    return r


def minmax_it(mx):
    def m(I, st, a, call):
        c = iter_cell(I, st, a[0], "mit")
        best = iter_cell(I, st, NONE, "best")

        def iteration(s):
            outs = []
            for o in iter_next(I, s, Ref(c), call):
                if o[0] != "ret":
                    outs.append(o)
                elif o[2].var == 0:
                    outs.append(("ret", o[1], o[1].mem[best]))
                else:
                    b = o[1].mem[best]
                    if b.var == 0:
                        o[1].mem[best] = o[2]
                        outs.append(("back", o[1], None))
                        continue
                    for s1, x in peel(I, o[1], b.f[0]):
                        for s2, y in peel(I, s1, o[2].f[0]):
                            if I.as_int(x) is None or I.as_int(y) is None:
                                raise Unsupported("max of non-integers")
                            for s3, take in cases(s2, f_le(x, y) if mx else f_lt(y, x)):
                                if take:
                                    s3.mem[best] = o[2]
                                outs.append(("back", s3, None))
            return outs
        r = I.loop(st, iteration, lambda s: gc(I, s), "max at %s" % call["line"])
        I.roots.discard(c)
        I.roots.discard(best)
        return r
    return m


M["std::iter::Iterator::max"] = minmax_it(True)
M["std::iter::Iterator::min"] = minmax_it(False)


@model("std::iter::Iterator::sum")
def m_sum(I, st, a, call):
    c = iter_cell(I, st, a[0], "sumit")
    acc = iter_cell(I, st, ZERO, "sum")

    def iteration(s):
        outs = []
        for o in iter_next(I, s, Ref(c), call):
            if o[0] != "ret":
                outs.append(o)
            elif o[2].var == 0:
                outs.append(("ret", o[1], o[1].mem[acc]))
            else:
                for s1, x in peel(I, o[1], o[2].f[0]):
                    s1.mem[acc] = s1.mem[acc] + x
                    s1.add_taint("sum overflow")
                    outs.append(("back", s1, None))
        return outs
    r = I.loop(st, iteration, lambda s: gc(I, s), "sum")
    I.roots.discard(c)
    I.roots.discard(acc)
    return r


# ---- collect
def src_len(I, it):
    """number of items of an iterator value when it does not depend on closures, else None"""
    k = it.k if isinstance(it, Agg) else None
    if k in ("it:Slice", "it:Own"):
        return it.f[2] - it.f[1]
    if k in ("it:Map", "it:Copied", "it:Rev", "it:Enumerate"):
        return src_len(I, it.f[0])
    if k == "std::ops::Range":
        return it.f[1] - it.f[0]
    return None


def lazy_item(I, st, it, i, call):
    """outcomes: item number i of the iterator value (no effect on the iterator)"""
    k = it.k
    if k == "it:Slice":
        return ret(st, I.deref_ref(it.f[0], (("x", it.f[1] + i),)))
    if k == "it:Own":
        return rets(I.rload(st, I.deref_ref(it.f[0], (("x", it.f[1] + i),))))
    if k == "std::ops::Range":
        return ret(st, it.f[0] + i)
    if k == "it:Copied":
        return then(lazy_item(I, st, it.f[0], i, call), lambda s, v: rets(I.rload(s, v)))
    if k == "it:Enumerate":
        return then(lazy_item(I, st, it.f[0], i, call), lambda s, v: ret(s, Agg("tuple", 0, (it.f[1] + i, v))))
    if k == "it:Rev":
        n = src_len(I, it.f[0])
        return lazy_item(I, st, it.f[0], n - 1 - i, call)
    if k == "it:Map":
        return then(lazy_item(I, st, it.f[0], i, call), lambda s, v: I.call_value(s, it.f[1], [v], call["fr"]))
    raise Unsupported("lazy item of " + k)


def snapshot(I, st, v):
    """copy referenced cells so that the value stays valid"""
    m = {}

    def cp(x):
        if isinstance(x, Ref):
            if x.c[0] in ("s", "k"):
                return x
            if x.c not in m:
                c = ("p", fresh("snap"))
                m[x.c] = c
                if x.c in st.mem:
                    st.mem[c] = cp(st.mem[x.c])
            return Ref(m[x.c], x.p)
        if isinstance(x, Agg):
            return Agg(x.k, x.var, [cp(y) for y in x.f])
        if isinstance(x, Clo):
            return Clo(x.p, [cp(y) for y in x.f])
        if isinstance(x, Seq):
            return Seq([("e", cp(g[1])) if g[0] == "e" else g for g in x.s])
        return x
    return cp(v)


def target_of(d):
    a = d.get("a") or []
    return a[-1] if a else {"k": "other"}


@model("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter")
def m_collect(I, st, a, call):
    return collect(I, st, a[0], call, target_of(call["d"]))


def collect(I, st, it, call, target=None):
    tk = (target or {}).get("p")
    if tk in ("std::collections::HashSet", "std::collections::HashMap", RESULT, OPTION):
        h = getattr(I, "collect_hook", None)
        if h:
            r = h(I, st, it, call, target)
            if r is not None:
                return r
        raise Unsupported("collect into " + str(tk))

    def finish(s, q):
        if tk == "std::boxed::Box":
            c = I.newcell(s, q, "box")
            return ret(s, Ref(c, (("r", ZERO, q.length()),)))
        return ret(s, q)
    n = src_len(I, it) if isinstance(it, Agg) else None
    if n is not None and not n.is_const():
        if it.k == "it:Copied" and it.f[0].k == "it:Slice":
            out = []
            b, lo, hi = it.f[0].f
            for s, q in I.rload(st, Ref(b.c, I.norm_path(b.p + (("r", lo, hi),)))):
                out += finish(s, q)
            return out
        if it.k == "it:Own":
            out = []
            b, lo, hi = it.f
            for s, q in I.rload(st, Ref(b.c, I.norm_path(b.p + (("r", lo, hi),)))):
                out += finish(s, q)
            return out
        h = getattr(I, "lazy_ok", None)
        if h is None or h(I, st, it):
            out = []
            for s, ge in cases(st, f_ge(n)):
                if not ge:
                    out += finish(s, Seq())
                    continue
                snap = snapshot(I, s, it)
                nm = fresh("map")
                s.facts[("lazy", nm)] = snap
                arr = SymArr(nm, None, lambda I_, s2, i: lazy_elem(I_, s2, snap, i, call), False)
                arr.src = snap
                out += finish(s, arr_seq(arr, n))
            return out
    c = iter_cell(I, st, it, "colit")
    acc = iter_cell(I, st, Seq(), "col")

    def iteration(s):
        outs = []
        for o in iter_next(I, s, Ref(c), call):
            if o[0] != "ret":
                outs.append(o)
            elif o[2].var == 0:
                outs.append(("ret", o[1], o[1].mem[acc]))
            else:
                o[1].mem[acc] = Seq(o[1].mem[acc].s + (("e", o[2].f[0]),))
                outs.append(("back", o[1], None))
        return outs
    r = I.loop(st, iteration, lambda s: gc(I, s), "collect at %s" % call["line"], (acc,))
    I.roots.discard(c)
    I.roots.discard(acc)
    return then(r, finish)


def lazy_elem(I, s, it, i, call):
    out = []
    for o in lazy_item(I, s, it, i, call):
        if o[0] == "ret":
            out.append((o[1], o[2]))
        elif o[0] == "panic":
            I.side_outcomes.append(o)
        else:
            raise Unsupported(o[2])
    return out


@model("std::iter::Extend::extend")
def m_ext(I, st, a, call):
    out = []
    for s, it in into_iter(I, st, a[1]):
        for o in collect(I, s, it, call):
            if o[0] != "ret":
                out.append(o)
                continue
            for s2, q in I.rload(o[1], a[0]):
                for s3 in I.rstore(s2, a[0], Seq(q.s + o[2].s)):
                    out += ret(s3, UNIT)
    return out


# ---------------------------------------------------------------- closures
@model("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once")
def m_fncall(I, st, a, call):
    args = a[1]
    if not isinstance(args, Agg):
        raise Unsupported("argument tuple")
    return I.call_value(st, a[0], list(args.f), call["fr"])


# ---------------------------------------------------------------- fallbacks by shape of the path
def generic(I, d):
    p = d["p"]
    if "<impl " in p:
        m = p.split("::")[-1]
        if m in ("checked_add", "checked_sub", "checked_mul", "checked_div", "checked_rem"):
            return m_checked
        if m in ("saturating_add", "saturating_sub", "saturating_mul"):
            return m_saturating
        if m in ("wrapping_add", "wrapping_sub", "wrapping_mul", "wrapping_neg"):
            return m_wrapping
        if m in ("overflowing_add", "overflowing_sub", "overflowing_mul"):
            return m_overflowing
        if m == "abs_diff":
            return m_abs_diff
        if m == "div_ceil":
            return m_div_ceil
        if m in ("min", "max"):
            return m_minmax
    return None


# ---------------------------------------------------------------- sorting (decided by the specification's hook)
@model("std::slice::<impl [T]>::sort_by_key", "core::slice::<impl [T]>::sort_unstable_by_key", "std::slice::<impl [T]>::sort_by_cached_key",
       "std::slice::<impl [T]>::sort_by", "core::slice::<impl [T]>::sort_unstable_by", "std::slice::<impl [T]>::sort", "core::slice::<impl [T]>::sort_unstable")
def m_sort(I, st, a, call):
    h = getattr(I, "sort_hook", None)
    m = call["d"]["p"].split("::")[-1]
    out = []
    for s, r in I.as_slice(st, a[0]):
        for s1, q in I.rload(s, r):
            x = h(I, s1, r, q[1] if isinstance(q, tuple) else q, a[1] if len(a) > 1 else None, m, call) if h else None
            if x is None and explicit(q):
                x = m_sort_explicit(I, s1, r, q, a[1] if len(a) > 1 else None, m, call)
            if x is None:
                raise Unsupported("sort")
            out += x
    return out


def explicit(q, lim=6):
    return isinstance(q, Seq) and len(q.s) <= lim and all(g[0] == "e" for g in q.s)


def sort_explicit(I, st, items, cmp):
    """insertion sort of a list of known length: outcomes with the sorted list; cmp(s, x, y) -> outcomes with an Ordering"""
    outs = [("ret", st, [])]
    for x in items:
        nxt = []
        for o in outs:
            if o[0] != "ret":
                nxt.append(o)
                continue
            # position from the right (stable)
            work = [(o[1], len(o[2]))]
            while work:
                s, k = work.pop()
                if k == 0:
                    nxt.append(("ret", s, [x] + o[2]))
                    continue
                for o2 in cmp(s, o[2][k - 1], x):
                    if o2[0] != "ret":
                        nxt.append(o2)
                        continue
                    for s2, v in I.agg(o2[1], o2[2]):
                        if v.k != ORDERING:
                            raise Unsupported("sort by %r" % (v,))
                        if v.var == 2:
                            work.append((s2, k - 1))
                        else:
                            nxt.append(("ret", s2, o[2][:k] + [x] + o[2][k:]))
        outs = nxt
    return outs


def m_sort_explicit(I, st, r, q, f, m, call):
    items = [g[1] for g in q.s]
    if f is None:
        cmp = lambda s, x, y: cmp_vals(I, s, x, y, dict(call, d=dict(call["d"], m="cmp", trait="std::cmp::Ord")), "cmp")
    elif m in ("sort_by", "sort_unstable_by"):
        cmp = lambda s, x, y: I.call_value(s, f, [Ref(I.newcell(s, x, "sx")), Ref(I.newcell(s, y, "sy"))], call["fr"])
    else:
        def cmp(s, x, y):
            def k1(s1, a):
                return then(I.call_value(s1, f, [Ref(I.newcell(s1, y, "sy"))], call["fr"]),
                            lambda s2, b: cmp_vals(I, s2, a, b, dict(call, d=dict(call["d"], m="cmp", trait="std::cmp::Ord")), "cmp"))
            return then(I.call_value(s, f, [Ref(I.newcell(s, x, "sx"))], call["fr"]), k1)
    out = []
    for o in sort_explicit(I, st, items, cmp):
        if o[0] != "ret":
            out.append(o)
            continue
        for s in I.rstore(o[1], r, Seq([("e", x) for x in o[2]])):
            out += ret(s, UNIT)
    return out


@model("std::vec::Vec::<T, A>::dedup", "std::vec::Vec::<T, A>::dedup_by_key", "std::vec::Vec::<T, A>::dedup_by")
def m_dedup(I, st, a, call):
    m = call["d"]["p"].split("::")[-1]
    out = []
    for s, q in I.rload(st, a[0]):
        if not explicit(q):
            raise Unsupported("dedup of %r" % (q,))
        outs = [("ret", s, [])]
        for x in [g[1] for g in q.s]:
            nxt = []
            for o in outs:
                if o[0] != "ret":
                    nxt.append(o)
                    continue
                if not o[2]:
                    nxt.append(("ret", o[1], [x]))
                    continue
                y = o[2][-1]
                if m == "dedup":
                    rs = eq_vals(I, o[1], y, x, call)
                elif m == "dedup_by":
                    rs = I.call_value(o[1], a[1], [Ref(I.newcell(o[1], x, "dx")), Ref(I.newcell(o[1], y, "dy"))], call["fr"])
                else:
                    rs = then(I.call_value(o[1], a[1], [Ref(I.newcell(o[1], y, "dy"))], call["fr"]),
                              lambda s1, ky: then(I.call_value(s1, a[1], [Ref(I.newcell(s1, x, "dx"))], call["fr"]),
                                                  lambda s2, kx: eq_vals(I, s2, ky, kx, call)))
                for o2 in rs:
                    if o2[0] != "ret":
                        nxt.append(o2)
                        continue
                    for s2, b in cases(o2[1], o2[2]):
                        nxt.append(("ret", s2, o[2] if b else o[2] + [x]))
            outs = nxt
        for o in outs:
            if o[0] != "ret":
                out.append(o)
                continue
            for s2 in I.rstore(o[1], a[0], Seq([("e", x) for x in o[2]])):
                out += ret(s2, UNIT)
    return out


@model("std::vec::Vec::<T, A>::retain")
def m_retain(I, st, a, call):
    out = []
    for s, q in I.rload(st, a[0]):
        if not explicit(q):
            raise Unsupported("retain on %r" % (q,))
        outs = [("ret", s, [])]
        for x in [g[1] for g in q.s]:
            nxt = []
            for o in outs:
                if o[0] != "ret":
                    nxt.append(o)
                    continue
                for o2 in I.call_value(o[1], a[1], [Ref(I.newcell(o[1], x, "rx"))], call["fr"]):
                    if o2[0] != "ret":
                        nxt.append(o2)
                        continue
                    for s2, b in cases(o2[1], o2[2]):
                        nxt.append(("ret", s2, o[2] + [x] if b else o[2]))
            outs = nxt
        for o in outs:
            if o[0] != "ret":
                out.append(o)
                continue
            for s2 in I.rstore(o[1], a[0], Seq([("e", x) for x in o[2]])):
                out += ret(s2, UNIT)
    return out


# ---------------------------------------------------------------- more of Option and bool
@model("std::option::Option::<T>::zip")
def m_ozip(I, st, a, call):
    out = []
    for s, v in opt_cases(I, st, a[0]):
        if v.var == 0:
            out += ret(s, NONE)
            continue
        for s2, w in opt_cases(I, s, a[1]):
            out += ret(s2, NONE if w.var == 0 else some(Agg("tuple", 0, (v.f[0], w.f[0]))))
    return out


@model("std::option::Option::<T>::xor")
def m_oxor(I, st, a, call):
    out = []
    for s, v in opt_cases(I, st, a[0]):
        for s2, w in opt_cases(I, s, a[1]):
            out += ret(s2, v if w.var == 0 else w if v.var == 0 else NONE)
    return out


@model("core::bool::<impl bool>::then_some", "core::bool::<impl bool>::then")
def m_then_some(I, st, a, call):
    out = []
    for s, b in cases(st, a[0]):
        if not b:
            out += ret(s, NONE)
        elif call["d"]["p"].endswith("then"):
            out += then(I.call_value(s, a[1], [], call["fr"]), lambda s2, v: ret(s2, some(v)))
        else:
            out += ret(s, some(a[1]))
    return out


@model("std::cmp::Ordering::then", "std::cmp::Ordering::then_with")
def m_ord_then(I, st, a, call):
    out = []
    for s, v in I.agg(st, a[0]):
        if v.var != 1:
            out += ret(s, v)
        elif call["d"]["p"].endswith("with"):
            out += I.call_value(s, a[1], [], call["fr"])
        else:
            out += ret(s, a[1])
    return out


# ---------------------------------------------------------------- binary search
def bsearch(kind):
    def m(I, st, a, call):
        out = []
        for s0, r in I.as_slice(st, a[0]):
            n = r.p[-1][2] - r.p[-1][1]
            lo, hi = iter_cell(I, s0, ZERO, "bl"), iter_cell(I, s0, n, "bh")
            base = iter_cell(I, s0, Ref(r.c, r.p), "bs")
            args = [iter_cell(I, s0, x, "ba") for x in a[1:]]

            def probe(s, el):
                x = [s.mem[c] for c in args]
                if kind == "by_key":
                    def key(s2, k):
                        return cmp_vals(I, s2, k, x[0], call, "cmp")
                    return then(I.call_value(s, Ref(args[1]), [el], call["fr"]), key)
                if kind == "plain":
                    return cmp_vals(I, s, el, x[0], call, "cmp")
                return I.call_value(s, Ref(args[0]), [el], call["fr"])

            def iteration(s):
                outs = []
                l, h = s.mem[lo], s.mem[hi]
                for s1, more in cases(s, f_lt(l, h)):
                    if not more:
                        outs.append(("ret", s1, l if kind == "point" else err(l)))
                        continue
                    mid = l + I.divmod_const(s1, h - l, 2)[0]
                    rr = s1.mem[base]
                    for o in probe(s1, I.deref_ref(rr, (("x", mid),))):
                        if o[0] != "ret":
                            outs.append(o)
                            continue
                        if kind == "point":
                            for s2, b in cases(o[1], o[2]):
                                s2.mem[lo if b else hi] = mid + 1 if b else mid
                                outs.append(("back", s2, None))
                            continue
                        for s2, v in I.agg(o[1], o[2]):
                            if v.var == 1:
                                outs.append(("ret", s2, ok(mid)))
                                continue
                            s2.mem[lo if v.var == 0 else hi] = mid + 1 if v.var == 0 else mid
                            outs.append(("back", s2, None))
                return outs
            out += I.loop(s0, iteration, lambda s: gc(I, s), "binary search at %s" % call["line"])
            for c in [lo, hi, base] + args:
                I.roots.discard(c)
        return out
    return m


for _n, _k in (("binary_search", "plain"), ("binary_search_by", "by"), ("binary_search_by_key", "by_key"), ("partition_point", "point")):
    model("core::slice::<impl [T]>::" + _n)(bsearch(_k))


# ---------------------------------------------------------------- folds that stop early
@model("std::iter::Iterator::try_fold")
def m_try_fold(I, st, a, call):
    own = not isinstance(a[0], Ref)
    c = iter_cell(I, st, a[0], "tit") if own else None
    it = Ref(c) if own else a[0]
    acc, fn = iter_cell(I, st, a[1], "tacc"), iter_cell(I, st, a[2], "tfn")
    rty = call["d"]["a"][-1].get("p") if call["d"].get("a") else None

    def done(v):
        if rty == OPTION:
            return some(v)
        if rty == RESULT:
            return ok(v)
        if rty == CF:
            return Agg(CF, 0, (v,))
        raise Unsupported("try_fold into %s" % rty)

    def iteration(s):
        outs = []
        for o in iter_next(I, s, it, call):
            if o[0] != "ret":
                outs.append(o)
            elif o[2].var == 0:
                outs.append(("ret", o[1], done(o[1].mem[acc])))
            else:
                for o2 in I.call_value(o[1], Ref(fn), [o[1].mem[acc], o[2].f[0]], call["fr"]):
                    if o2[0] != "ret":
                        outs.append(o2)
                        continue
                    for s2, v in I.agg(o2[1], o2[2]):
                        if v.var == (1 if rty == OPTION else 0):
                            s2.mem[acc] = v.f[0]
                            outs.append(("back", s2, None))
                        else:
                            outs.append(("ret", s2, v))
        return outs
    r = I.loop(st, iteration, lambda s: gc(I, s), "try_fold at %s" % call["line"])
    for x in (c, acc, fn):
        I.roots.discard(x)
    return r


@model("std::slice::<impl [T]>::concat")
def m_concat(I, st, a, call):
    out = []
    for s0, r in I.as_slice(st, a[0]):
        for s, q in I.rload(s0, r):
            if any(g[0] != "e" for g in q.s):
                raise Unsupported("concat of an unknown list")
            cur = [(s, Seq())]
            for g in q.s:
                cur = [(s3, Seq(z.s + w.s)) for s2, z in cur for s3, w in seq_of(I, s2, g[1])]
            for s2, z in cur:
                out += ret(s2, z)
    return out


# ---------------------------------------------------------------- more of VecDeque and Vec
@model("std::collections::VecDeque::<T, A>::push_front")
def m_push_front(I, st, a, call):
    out = []
    for s, q in I.rload(st, a[0]):
        for s2 in I.rstore(s, a[0], Seq((("e", a[1]),) + tuple(q.s))):
            out += ret(s2, UNIT)
    return out


for _n in ("front", "front_mut", "back", "back_mut"):
    def _dq(I, st, a, call, last="back" in _n):
        out = []
        for s0, r in I.as_slice(st, a[0]):
            n = r.p[-1][2] - r.p[-1][1]
            for s, e in cases(s0, f_eq(n)):
                out += ret(s, NONE if e else some(I.deref_ref(r, (("x", n - 1 if last else ZERO),))))
        return out
    model("std::collections::VecDeque::<T, A>::" + _n)(_dq)


@model("std::vec::Vec::<T, A>::split_off")
def m_split_off(I, st, a, call):
    out = []
    for s, q in I.rload(st, a[0]):
        for s1, le in cases(s, f_le(a[1], q.length())):
            if not le:
                out += panic(s1, "split_off", "bounds")
                continue
            for s2, l, r in I.seq_split(s1, q, a[1]):
                for s3 in I.rstore(s2, a[0], l):
                    out += ret(s3, r)
    return out


@model("std::vec::Vec::<T, A>::drain")
def m_drain(I, st, a, call):
    rg = a[1]
    if not isinstance(rg, Agg) or not rg.k.startswith("std::ops::Range"):
        raise Unsupported("drain of %r" % (rg,))
    kind = rg.k.split("::")[-1]
    out = []
    for s, q in I.rload(st, a[0]):
        n = q.length()
        lo = ZERO if kind in ("RangeFull", "RangeTo", "RangeToInclusive") else rg.f[0]
        hi = {"RangeFull": lambda: n, "RangeFrom": lambda: n, "Range": lambda: rg.f[1], "RangeInclusive": lambda: rg.f[1] + 1,
              "RangeTo": lambda: rg.f[0], "RangeToInclusive": lambda: rg.f[0] + 1}[kind]()
        for s1, b in cases(s, f_and(f_le(lo, hi), f_le(hi, n))):
            if not b:
                out += panic(s1, "drain", "bounds")
                continue
            for s2, l, r in I.seq_split(s1, q, lo):
                for s3, m, t in I.seq_split(s2, r, hi - lo):
                    for s4 in I.rstore(s3, a[0], Seq(tuple(l.s) + tuple(t.s))):
                        out += ret(s4, Agg("it:Own", 0, (Ref(I.newcell(s4, m, "drain")), ZERO, m.length())))
    return out


# ---------------------------------------------------------------- more iterators (kind -> next)
def it_windows(I, s, r, it, call, back):
    base, lo, hi, k = it.f
    out = []
    for s2, b in cases(s, f_le(lo + k, hi)):
        if not b:
            out += ret(s2, NONE)
        elif back:
            for s3 in setf(I, s2, r, 2, hi - 1):
                out += ret(s3, some(I.deref_ref(base, (("r", hi - k, hi),))))
        else:
            for s3 in setf(I, s2, r, 1, lo + 1):
                out += ret(s3, some(I.deref_ref(base, (("r", lo, lo + k),))))
    return out


def it_chunks(I, s, r, it, call, back):
    base, lo, hi, k = it.f
    if back:
        raise Unsupported("next_back of chunks")
    out = []
    for s2, b in cases(s, f_lt(lo, hi)):
        if not b:
            out += ret(s2, NONE)
            continue
        for s3, full in cases(s2, f_le(lo + k, hi)):
            e = lo + k if full else hi
            for s4 in setf(I, s3, r, 1, e):
                out += ret(s4, some(I.deref_ref(base, (("r", lo, e),))))
    return out


def it_exact(I, s, r, it, call, back):
    base, lo, hi, k = it.f
    if back:
        raise Unsupported("next_back of chunks_exact")
    out = []
    for s2, full in cases(s, f_le(lo + k, hi)):
        if not full:
            out += ret(s2, NONE)
            continue
        for s4 in setf(I, s2, r, 1, lo + k):
            out += ret(s4, some(I.deref_ref(base, (("r", lo, lo + k),))))
    return out


def it_flat(I, s0, r, it, call, back):
    """fields: outer iterator, inner iterator or None, function or unit"""
    if back:
        raise Unsupported("next_back of flat_map")
    rc = iter_cell(I, s0, r, "flatp")

    def iteration(s):
        outs = []
        rr = s.mem[rc]
        cur = I.rload(s, rr)
        for s1, f in cur:
            if isinstance(f.f[1], Agg) and f.f[1].k == OPTION and f.f[1].var == 0:
                for o in iter_next(I, s1, I.deref_ref(rr, (("f", 0),)), call):
                    if o[0] != "ret" or o[2].var == 0:
                        outs.append(o)
                        continue
                    vs = I.call_value(o[1], I.deref_ref(rr, (("f", 2),)), [o[2].f[0]], call["fr"]) if f.f[2] != UNIT else ret(o[1], o[2].f[0])
                    for o2 in vs:
                        if o2[0] != "ret":
                            outs.append(o2)
                            continue
                        v = o2[2]
                        for s2, v in (I.agg(o2[1], v) if isinstance(v, SymE) else [(o2[1], v)]):
                            for s3, inner in into_iter(I, s2, v):
                                for s4 in setf(I, s3, rr, 1, Agg("it:Some", 0, (inner,))):
                                    outs.append(("back", s4, None))
                continue
            for o in iter_next(I, s1, I.deref_ref(rr, (("f", 1), ("f", 0))), call):
                if o[0] != "ret" or o[2].var == 1:
                    outs.append(o)
                    continue
                for s2 in setf(I, o[1], rr, 1, NONE):
                    outs.append(("back", s2, None))
        return outs
    x = I.loop(s0, iteration, lambda s: gc(I, s), "flat_map %s" % call["line"])
    I.roots.discard(rc)
    return x


def it_stepby(I, s, r, it, call, back):
    if back:
        raise Unsupported("next_back of step_by")
    inner = I.deref_ref(r, (("f", 0),))
    out = []
    if it.f[2] is True:
        for s2 in setf(I, s, r, 2, False):
            out += iter_next(I, s2, inner, call)
        return out
    for s1 in (iter_drop(I, s, inner, it.f[1] - 1, call) if it.f[1] != ONE else [s]):
        out += iter_next(I, s1, inner, call)
    return out


def it_mapwhile(I, s, r, it, call, back):
    if back:
        raise Unsupported("next_back of map_while")
    out = []
    for o in iter_next(I, s, I.deref_ref(r, (("f", 0),)), call):
        if o[0] == "ret" and o[2].var == 1:
            args = [o[2].f[0]]
            if it.k == "it:Scan":
                args = [I.deref_ref(r, (("f", 1),))] + args
            fn = I.deref_ref(r, (("f", 2 if it.k == "it:Scan" else 1),))
            for o2 in I.call_value(o[1], fn, args, call["fr"]):
                if o2[0] != "ret":
                    out.append(o2)
                    continue
                for s2, v in I.agg(o2[1], o2[2]):
                    out += ret(s2, v)
        else:
            out.append(o)
    return out


def it_fromfn(I, s, r, it, call, back):
    return then(I.call_value(s, I.deref_ref(r, (("f", 0),)), [], call["fr"]), lambda s2, v: [("ret", s3, w) for s3, w in I.agg(s2, v)])


def it_succ(I, s, r, it, call, back):
    out = []
    for s1, v in I.agg(s, it.f[0]):
        if v.var == 0:
            out += ret(s1, NONE)
            continue
        c = I.newcell(s1, v.f[0], "succ")
        for o in I.call_value(s1, I.deref_ref(r, (("f", 1),)), [Ref(c)], call["fr"]):
            if o[0] != "ret":
                out.append(o)
                continue
            for s2 in setf(I, o[1], r, 0, o[2]):
                out += ret(s2, v)
    return out


def it_repeat(I, s, r, it, call, back):
    return ret(s, some(it.f[0]))


ITERS = {"it:Windows": it_windows, "it:Chunks": it_chunks, "it:ChunksExact": it_exact, "it:Flat": it_flat, "it:StepBy": it_stepby,
         "it:MapWhile": it_mapwhile, "it:Scan": it_mapwhile, "it:FromFn": it_fromfn, "it:Succ": it_succ, "it:Repeat": it_repeat}


for _n, _k in (("windows", "it:Windows"), ("chunks", "it:Chunks"), ("chunks_exact", "it:ChunksExact")):
    def _sl(I, st, a, call, kind=_k):
        out = []
        for s0, r in I.as_slice(st, a[0]):
            for s, z in cases(s0, f_eq(a[1])):
                if z:
                    out += panic(s, kind, "size is zero")
                else:
                    out += ret(s, Agg(kind, 0, (Ref(r.c, r.p), ZERO, r.p[-1][2] - r.p[-1][1], a[1])))
        return out
    model("core::slice::<impl [T]>::" + _n)(_sl)


M["std::iter::Iterator::peekable"] = adapter("Peekable")
M["std::iter::Iterator::flat_map"] = lambda I, st, a, call: ret(st, Agg("it:Flat", 0, (a[0], NONE, a[1])))
M["std::iter::Iterator::flatten"] = lambda I, st, a, call: ret(st, Agg("it:Flat", 0, (a[0], NONE, UNIT)))
M["std::iter::Iterator::map_while"] = lambda I, st, a, call: ret(st, Agg("it:MapWhile", 0, (a[0], a[1])))
M["std::iter::Iterator::scan"] = lambda I, st, a, call: ret(st, Agg("it:Scan", 0, (a[0], a[1], a[2])))
M["std::iter::from_fn"] = lambda I, st, a, call: ret(st, Agg("it:FromFn", 0, (a[0],)))
M["std::iter::successors"] = lambda I, st, a, call: ret(st, Agg("it:Succ", 0, (a[0], a[1])))
M["std::iter::repeat"] = lambda I, st, a, call: ret(st, Agg("it:Repeat", 0, (a[0],)))
M["std::iter::repeat_n"] = lambda I, st, a, call: ret(st, Agg("it:Take", 0, (Agg("it:Repeat", 0, (a[0],)), a[1])))
M["std::iter::Iterator::step_by"] = lambda I, st, a, call: [o for s, z in cases(st, f_eq(a[1])) for o in (
    panic(s, "step_by", "step is zero") if z else ret(s, Agg("it:StepBy", 0, (a[0], a[1], True))))]


@model("std::iter::Peekable::<I>::peek", "std::iter::Peekable::<I>::peek_mut")
def m_peek(I, st, a, call):
    out = []
    for s, it in I.rload(st, a[0]):
        p = it.f[1]
        if isinstance(p, Agg) and p.var == 1:
            v = p.f[0]
            if isinstance(v, Agg) and v.k == OPTION and v.var == 0:
                out += ret(s, NONE)
            else:
                out += ret(s, some(I.deref_ref(a[0], (("f", 1), ("f", 0), ("f", 0)))))
            continue
        for o in iter_next(I, s, I.deref_ref(a[0], (("f", 0),)), call):
            if o[0] != "ret":
                out.append(o)
                continue
            for s2 in setf(I, o[1], a[0], 1, some(o[2])):
                out += ret(s2, NONE if o[2].var == 0 else some(I.deref_ref(a[0], (("f", 1), ("f", 0), ("f", 0)))))
    return out


@model("std::iter::Peekable::<I>::next_if", "std::iter::Peekable::<I>::next_if_eq")
def m_next_if(I, st, a, call):
    out = []
    eq = call["d"]["p"].endswith("eq")
    for o in m_peek(I, st, a, call):
        if o[0] != "ret" or o[2].var == 0:
            out.append(o)
            continue
        if eq:
            raise Unsupported("next_if_eq")
        for o2 in I.call_value(o[1], a[1], [o[2].f[0]], call["fr"]):
            if o2[0] != "ret":
                out.append(o2)
                continue
            for s2, b in cases(o2[1], o2[2]):
                out += iter_next(I, s2, a[0], call) if b else ret(s2, NONE)
    return out


def two_way(split):
    def m(I, st, a, call):
        if any(x in json.dumps(call["d"].get("a") or []) for x in ("HashSet", "HashMap", "BTree", "String", "VecDeque")):
            raise Unsupported("partition into a collection that is not a Vec")
        c = iter_cell(I, st, a[0], "pit")
        x, y = iter_cell(I, st, Seq(), "pl"), iter_cell(I, st, Seq(), "pr")
        fn = iter_cell(I, st, a[1], "pfn") if len(a) > 1 else None

        def iteration(s):
            outs = []
            for o in iter_next(I, s, Ref(c), call):
                if o[0] != "ret":
                    outs.append(o)
                elif o[2].var == 0:
                    outs.append(("ret", o[1], Agg("tuple", 0, (o[1].mem[x], o[1].mem[y]))))
                elif fn is None:
                    for s2, p in I.agg(o[1], o[2].f[0]):
                        for cell, v in ((x, p.f[0]), (y, p.f[1])):
                            s2.mem[cell] = Seq(tuple(s2.mem[cell].s) + (("e", v),))
                        outs.append(("back", s2, None))
                else:
                    v = I.newcell(o[1], o[2].f[0], "pv")
                    for o2 in I.call_value(o[1], Ref(fn), [Ref(v)], call["fr"]):
                        if o2[0] != "ret":
                            outs.append(o2)
                            continue
                        for s2, b in cases(o2[1], o2[2]):
                            cell = x if b else y
                            s2.mem[cell] = Seq(tuple(s2.mem[cell].s) + (("e", o[2].f[0]),))
                            outs.append(("back", s2, None))
            return outs
        r = I.loop(st, iteration, lambda s: gc(I, s), "partition at %s" % call["line"])
        for z in (c, x, y, fn):
            I.roots.discard(z)
        return r
    return m


M["std::iter::Iterator::unzip"] = two_way(True)
if "std::iter::Iterator::partition" not in M:
    M["std::iter::Iterator::partition"] = two_way(False)


def extremum(mx, kind):
    """max_by_key/min_by_key/max_by/min_by"""
    def m(I, st, a, call):
        c = iter_cell(I, st, a[0], "xit")
        best, bk = iter_cell(I, st, NONE, "xbest"), iter_cell(I, st, NONE, "xkey")
        fn = iter_cell(I, st, a[1], "xfn")

        def put(s, o, k):
            s.mem[best] = o
            s.mem[bk] = some(k)
            return ("back", s, None)

        def decide(s, o, k, less):
            # less: Ordering of best compared with the new element
            outs = []
            for s2, v in I.agg(s, less):
                take = v.var in (0, 1) if mx else v.var == 2
                outs.append(put(s2, o, k) if take else ("back", s2, None))
            return outs

        def iteration(s):
            outs = []
            for o in iter_next(I, s, Ref(c), call):
                if o[0] != "ret":
                    outs.append(o)
                    continue
                if o[2].var == 0:
                    outs.append(("ret", o[1], o[1].mem[best]))
                    continue
                el = I.newcell(o[1], o[2].f[0], "xel")
                ks = I.call_value(o[1], Ref(fn), [Ref(el)], call["fr"]) if kind == "key" else ret(o[1], UNIT)
                for o2 in ks:
                    if o2[0] != "ret":
                        outs.append(o2)
                        continue
                    s2, k = o2[1], o2[2]
                    b = s2.mem[best]
                    if b.var == 0:
                        outs.append(put(s2, o[2], k))
                    elif kind == "key":
                        l, r = I.newcell(s2, s2.mem[bk].f[0], "xk"), I.newcell(s2, k, "xk")
                        for o3 in cmp_vals(I, s2, Ref(l), Ref(r), call, "cmp"):
                            outs += [o3] if o3[0] != "ret" else decide(o3[1], o[2], k, o3[2])
                    else:
                        l, r = I.newcell(s2, b.f[0], "xk"), I.newcell(s2, o[2].f[0], "xk")
                        for o3 in I.call_value(s2, Ref(fn), [Ref(l), Ref(r)], call["fr"]):
                            outs += [o3] if o3[0] != "ret" else decide(o3[1], o[2], k, o3[2])
            return outs
        r = I.loop(st, iteration, lambda s: gc(I, s), "extremum at %s" % call["line"])
        for z in (c, best, bk, fn):
            I.roots.discard(z)
        return r
    return m


for _n in ("max", "min"):
    M["std::iter::Iterator::%s_by_key" % _n] = extremum(_n == "max", "key")
    M["std::iter::Iterator::%s_by" % _n] = extremum(_n == "max", "by")


@model("std::iter::Iterator::reduce")
def m_reduce(I, st, a, call):
    c, fn, acc = iter_cell(I, st, a[0], "rit"), iter_cell(I, st, a[1], "rfn"), iter_cell(I, st, NONE, "racc")

    def iteration(s):
        outs = []
        for o in iter_next(I, s, Ref(c), call):
            if o[0] != "ret":
                outs.append(o)
            elif o[2].var == 0:
                outs.append(("ret", o[1], o[1].mem[acc]))
            elif o[1].mem[acc].var == 0:
                o[1].mem[acc] = o[2]
                outs.append(("back", o[1], None))
            else:
                for o2 in I.call_value(o[1], Ref(fn), [o[1].mem[acc].f[0], o[2].f[0]], call["fr"]):
                    if o2[0] == "ret":
                        o2[1].mem[acc] = some(o2[2])
                        outs.append(("back", o2[1], None))
                    else:
                        outs.append(o2)
        return outs
    r = I.loop(st, iteration, lambda s: gc(I, s), "reduce at %s" % call["line"])
    for z in (c, acc, fn):
        I.roots.discard(z)
    return r


# ---------------------------------------------------------------- more of Option
@model("std::option::Option::<T>::unwrap_or_default")
def m_unwrap_or_default(I, st, a, call):
    out = []
    for s, v in opt_cases(I, st, a[0]):
        out += default_of(I, s, call["d"]["a"][0]) if v.var == 0 else ret(s, v.f[0])
    return out


def opt_fill(how):
    def m(I, st, a, call):
        out = []
        for s0, v0 in I.rload(st, a[0]):
            for s, v in I.agg(s0, v0):
                slot = I.deref_ref(a[0], (("f", 0),))
                if how == "insert" or v.var == 0:
                    for o in (I.call_value(s, a[1], [], call["fr"]) if how == "with" else ret(s, a[1])):
                        if o[0] != "ret":
                            out.append(o)
                            continue
                        for s2 in I.rstore(o[1], a[0], some(o[2])):
                            out += ret(s2, slot)
                else:
                    for s2 in I.rstore(s, a[0], v):
                        out += ret(s2, slot)
        return out
    return m


M["std::option::Option::<T>::get_or_insert"] = opt_fill("value")
M["std::option::Option::<T>::get_or_insert_with"] = opt_fill("with")
M["std::option::Option::<T>::insert"] = opt_fill("insert")


@model("std::option::Option::<T>::replace")
def m_oreplace(I, st, a, call):
    out = []
    for s, v in I.rload(st, a[0]):
        for s2 in I.rstore(s, a[0], some(a[1])):
            out += ret(s2, v)
    return out


@model("std::option::Option::<std::option::Option<T>>::flatten")
def m_oflatten(I, st, a, call):
    out = []
    for s, v in opt_cases(I, st, a[0]):
        if v.var == 0:
            out += ret(s, NONE)
        else:
            out += [("ret", s2, w) for s2, w in I.agg(s, v.f[0])]
    return out


@model("core::num::<impl usize>::is_multiple_of", "core::num::<impl u32>::is_multiple_of")
def m_is_multiple_of(I, st, a, call):
    k = lin(a[1])
    if not (k.is_const() and k.c > 0):
        raise Unsupported("is_multiple_of a variable")
    return ret(st, f_eq(I.divmod_const(st, a[0], k.c)[1]))
