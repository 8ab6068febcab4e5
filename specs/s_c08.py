"""C08: parsing and printing of string literals.

Parsing: the automaton of SMT-LIB 2.6 escapes runs in lockstep with the code, driven by the characters the code reads (history variables).  At every
loop head the output of the code and of the automaton are matched against each other.
Printing: for every character the text appended to the output is one of the forms that are read back as that character."""
from common import *
import s_c17

S = "smt_strings::"
POS, PEND, CODE, OUT, BAD = [("loop", x) for x in ("pos", "pend", "code", "out", "bad")]
NAMES = {0: "no escape", 1: "\\", 2: "\\u", 3: "\\uX", 4: "\\u{"}


def spec_init(st):
    st.mem[POS] = ZERO
    st.mem[PEND] = Agg("pend", 0, ())
    st.mem[CODE] = st.mem[BAD] = ZERO
    st.mem[OUT] = Agg("out", 0, ())


def emit(st, *vs):
    st.mem[OUT] = Agg("out", 0, st.mem[OUT].f + vs)


def reset(st):
    st.mem[PEND] = Agg("pend", 0, ())
    st.mem[CODE] = ZERO


def flush(st):
    emit(st, *st.mem[PEND].f)
    reset(st)


def hexcases(st, c):
    """[(st, digit value or None)]"""
    out = []
    for s, d in cases(st, f_and(f_le(Lin(48), c), f_le(c, Lin(57)))):
        if d:
            out.append((s, c - 48))
            continue
        for s1, d in cases(s, f_and(f_le(Lin(97), c), f_le(c, Lin(102)))):
            if d:
                out.append((s1, c - 87))
                continue
            for s2, d in cases(s1, f_and(f_le(Lin(65), c), f_le(c, Lin(70)))):
                out.append((s2, c - 55 if d else None))
    return out


def step(st, c):
    """the SMT-LIB reading automaton accepts character c : [states]"""
    p = st.mem[PEND]
    k = p.var

    def go(s, k, code=None):
        q = s.mem[PEND]
        s.mem[PEND] = Agg("pend", k, q.f + (c,))
        if code is not None:
            s.mem[CODE] = code
        return s
    out = []
    if k == 0:
        for s, e in cases(st, f_eq(c - 92)):
            if e:
                out.append(go(s, 1))
            else:
                emit(s, c)
                out.append(s)
        return out
    if k == 1:
        for s, e in cases(st, f_eq(c - 117)):
            if e:
                out.append(go(s, 2))
            else:
                flush(s)
                out += step(s, c)
        return out
    digits = len(p.f) - (2 if k == 3 else 3)
    work = [st]
    if k == 2:
        work = []
        for s, e in cases(st, f_eq(c - 123)):
            if e:
                out.append(go(s, 4))
            else:
                work.append(s)
    if k == 4 and digits >= 1:
        work = []
        for s, e in cases(st, f_eq(c - 125)):
            if not e:
                work.append(s)
                continue
            for s1, ok_ in cases(s, f_le(s.mem[CODE], Lin(MAX))):
                if ok_:
                    emit(s1, s1.mem[CODE])
                    reset(s1)
                else:
                    flush(s1)
                    emit(s1, c)
                out.append(s1)
    for s in work:
        if k == 4 and digits >= 5:
            flush(s)
            out += step(s, c)
            continue
        for s1, d in hexcases(s, c):
            if d is None:
                flush(s1)
                out += step(s1, c)
                continue
            code = s1.mem[CODE] * 16 + d
            if k == 3 and digits == 3:
                emit(s1, code)
                reset(s1)
                out.append(s1)
            else:
                out.append(go(s1, 3 if k == 2 else k, code))
    return out


MATCHED = SymArr("MATCHED", None, lambda I, s, i: [(s, chsym(I, s, "MATCHED[%r]" % (i,)))])


def match(st, v):
    """(matched vector, number of automaton outputs consumed)"""
    if not isinstance(v, Seq) or any(g[0] == "s" and g[1] is not MATCHED or g[0] == "t" for g in v.s):
        return v, 0
    segs = list(v.s)
    if len(segs) > 4 and segs[0][0] == "e":
        return v, 0
    t = ZERO
    while segs and segs[0][0] == "s":
        t = t + (segs[0][3] - segs[0][2])
        segs = segs[1:]
    q = st.mem[OUT].f
    n = 0
    while segs and n < len(q) and segs[0][0] == "e" and isinstance(segs[0][1], Lin) and st.num.entails_eq(segs[0][1] - q[n]):
        segs = segs[1:]
        n += 1
        t = t + 1
    new = Seq((("s", MATCHED, ZERO, t),) + tuple(segs))
    return (v if new == v else new), n


def fold(I, st):
    best = [0, None]

    def val(v, path):
        if isinstance(v, Seq):
            r, n = match(st, v)
            if n > best[0]:
                best[:] = [n, path]
        elif isinstance(v, Agg):
            for i, x in enumerate(v.f):
                val(x, path + (i,))

    def upd(v, path, chosen):
        if isinstance(v, Seq):
            if not v.s:
                return Seq((("s", MATCHED, ZERO, ZERO),))
            return match(st, v)[0] if chosen and path == best[1] else v
        if isinstance(v, Agg):
            fs = [upd(x, path + (i,), chosen) for i, x in enumerate(v.f)]
            return v if all(a is b for a, b in zip(fs, v.f)) else Agg(v.k, v.var, fs)
        return v
    cells = [k for k in st.mem if k[0] not in ("s", "loop")]
    for cell in cells:
        val(st.mem[cell], (cell,))
    for cell in cells:
        v = st.mem[cell]
        nv = upd(v, (cell,), best[1] is not None)
        if nv is not v:
            st.mem[cell] = nv
    if best[0]:
        st.mem[OUT] = Agg("out", 0, st.mem[OUT].f[best[0]:])


def give_up(I, st):
    """rewrite rule: when the outputs no longer match, the difference is not tracked further"""
    def rest(v):
        if isinstance(v, Seq) and len(v.s) > 1 and v.s[0][0] == "s" and v.s[0][1] is MATCHED:
            return len(v.s)
        return max([rest(x) for x in v.f] + [0]) if isinstance(v, Agg) else 0

    def cut(v):
        if isinstance(v, Seq) and v.s and v.s[0][0] == "s" and v.s[0][1] is MATCHED:
            return Seq((("s", MATCHED, ZERO, v.length()),))
        return Agg(v.k, v.var, [cut(x) for x in v.f]) if isinstance(v, Agg) else v
    cells = [k for k in st.mem if k[0] not in ("s", "loop")]
    if st.mem[BAD] == ONE or len(st.mem[OUT].f) > 10 or any(rest(st.mem[k]) > 10 for k in cells):
        st.mem[BAD] = ONE
        st.mem[OUT] = Agg("out", 0, ())
        for k in cells:
            if isinstance(st.mem[k], (Agg, Seq)):
                st.mem[k] = cut(st.mem[k])


def forget(I, st):
    """rewrite rule: pending characters keep only their equalities"""
    ren = {}

    def buf(x):
        if x.is_const():
            return x
        if x not in ren:
            nm = fresh("buf")
            ren[x] = I.intsym(st, nm, 0, 2**32 - 1)
            I.kinds[nm] = "x"
        return ren[x]

    def val(v):
        if isinstance(v, Seq):
            if any(g[0] != "e" and not (g[0] == "s" and g[1] is MATCHED) for g in v.s):
                return v
            return Seq([("e", buf(g[1])) if g[0] == "e" and isinstance(g[1], Lin) else g for g in v.s])
        if isinstance(v, Agg):
            return Agg(v.k, v.var, [val(x) for x in v.f])
        return v
    for cell in [k for k in st.mem if k[0] not in ("s", "loop", "k")]:
        if isinstance(st.mem[cell], (Agg, Seq)):
            st.mem[cell] = val(st.mem[cell])
    for cell in (PEND, OUT):
        a = st.mem[cell]
        st.mem[cell] = Agg(a.k, a.var, [buf(x) for x in a.f])


@ob("C08", "parse_smt_literal", budget=300)
def parse(c):
    b = c.fn(S + "parse_smt_literal")
    I = c.interp(peel=2, shape_hook=s_c17.parser_shape, loopvariants=200, unary=tuple(sorted(set(IM.UNARY) | {16 ** k - 1 for k in range(1, 8)})), binmax=12)
    st = St()
    n = I.intsym(st, "txt.len", 0, I32MAX)
    arr = SymArr("txt", None, lambda I, s, i: [(s, chsym(I, s, "txt[%r]" % (i,)))])

    def onread(I, s, i, x):
        if not s.num.entails_eq(i - s.mem[POS]):
            return [s]
        s.mem[POS] = s.mem[POS] + 1
        return step(s, x)
    arr.onread = onread
    spec_init(st)
    I.ghosts = [n]
    I.rewrite_always = [fold]
    I.rewrite = [fold, give_up, forget]
    q = arr_seq(arr, n)
    for o in c.run(I, b, st, [Ref(I.newcell(st, q, "txt"), (("r", ZERO, n),))]):
        if o[0] == "panic":
            c.no_panic(o, b.path)
            continue
        for s, v in I.agg(o[1], o[2]):
            cur = [s]
            if s.exact and s.mem[POS].is_const():
                while any(x.truth(f_lt(x.mem[POS], n)) is not False for x in cur) and len(cur) < 50:
                    nxt = []
                    for x in cur:
                        for x1, more in cases(x, f_lt(x.mem[POS], n)):
                            nxt += [y for y, w in I.arr_elem(x1, arr, x1.mem[POS])] if more else [x1]
                    if nxt == cur:
                        break
                    cur = nxt
                    if any(x.mem[POS].c > 6 for x in cur if x.mem[POS].is_const()):
                        break
            for s1 in cur:
                if not c.prove(s1, f_eq(s1.mem[POS] - n), "the whole text is read", b.path, exact=False):
                    continue
                finish(c, I, s1, str_seq(I, v), b.path)


def finish(c, I, s, q, where):
    flush(s)
    if s.mem[BAD] != ZERO:
        c.prove(s, False, "the result is the decoded text", where, exact=False)
        return
    m, k = match(s, q)
    if k:
        s.mem[OUT] = Agg("out", 0, s.mem[OUT].f[k:])
    rest = [g for g in m.s if not (g[0] == "s" and g[1] is MATCHED)]
    want = s.mem[OUT].f
    what = "the result is the decoded text"
    if any(g[0] != "e" for g in rest):
        raise Unsupported("result %r" % (q,))
    if len(rest) != len(want):
        c.prove(s, False, what + " (length)", where)
        return
    c.prove(s, f_and(*[f_eq(g[1] - w) for g, w in zip(rest, want)]), what, where)


@ob("C08", "parse_smt_literal_escapes")
def parse_esc(c):
    """exact evaluation on texts around one or two escape sequences"""
    def check(c, I, s, text, r, where):
        spec_init(s)
        cur = [s]
        for g in text.s:
            nxt = []
            for s1 in cur:
                nxt += step(s1, g[1])
            cur = nxt
        for s1 in cur:
            flush(s1)
            want = s1.mem[OUT].f
            if any(g[0] != "e" for g in r.s):
                raise Unsupported("result %r" % (r,))
            if len(r.s) != len(want):
                c.prove(s1, False, "the result is the decoded text (length)", where)
            else:
                c.prove(s1, f_and(*[f_or(f_eq(g[1] - w), f_lt(Lin(MAX), w)) for g, w in zip(r.s, want)]), "the result is the decoded text", where)
    s_c17.on_templates(c, check)


# ------------------------------------------------------------------ printing
def display_body(c):
    return c.impl("std::fmt::Display", "fmt", "smt_strings::SmtString")


def as_chars(I, st, q):
    """[(st, [Lin])] the characters of a printed text"""
    cur = [(st, [])]
    for g in q.s:
        nxt = []
        for s, l in cur:
            if g[0] == "e" and isinstance(g[1], Lin):
                nxt.append((s, l + [g[1]]))
            elif g[0] == "t" and g[1].op in ("hexdig", "HEXDIG"):
                d = g[1].a[0]
                for s1, dec in cases(s, f_lt(d, Lin(10))):
                    nxt.append((s1, l + [d + 48 if dec else d + (87 if g[1].op == "hexdig" else 55)]))
            else:
                raise Unsupported("printed text %r" % (q,))
        cur = nxt
    return cur


def read_back(c, I, s, chars, want, where):
    """chars: printed text with the enclosing quotes"""
    if not c.prove(s, f_and(f_ge(Lin(len(chars) - 2)), *[f_eq(x - 34) for x in chars[:1] + chars[-1:]]), "the printed text is enclosed in quotes", where):
        return
    body = chars[1:-1]
    for x in body:
        if not c.prove(s, f_and(f_le(Lin(32), x), f_le(x, Lin(126))), "the printed text is printable ASCII", where):
            return
    # undo the doubling of quotes
    work = [(s, [], body)]
    done = []
    while work:
        s, l, rest = work.pop()
        if not rest:
            done.append((s, l))
            continue
        for s1, qt in cases(s, f_eq(rest[0] - 34)):
            if not qt:
                work.append((s1, l + [rest[0]], rest[1:]))
            elif c.prove(s1, f_eq(rest[1] - 34) if len(rest) > 1 else False, "a double quote is printed twice", where):
                work.append((s1, l + [rest[0]], rest[2:]))
    for s, l in done:
        spec_init(s)
        cur = [s]
        for x in l:
            nxt = []
            for s1 in cur:
                nxt += step(s1, x)
            cur = nxt
        for s1 in cur:
            flush(s1)
            got = s1.mem[OUT].f
            if len(got) != len(want):
                c.prove(s1, False, "the printed text is read back as the string (length)", where)
            else:
                c.prove(s1, f_and(*[f_eq(g - w) for g, w in zip(got, want)]), "the printed text is read back as the string", where)


@ob("C08", "display_escape_like_strings")
def display_esc(c):
    """exact evaluation on strings that look like escape sequences, followed by arbitrary characters"""
    b = display_body(c)
    for p, k in s_c17.templates(c):
        if k == 2 and p or k and len(p) > 9:
            continue
        for close in (("", "}") if "{" in p and not p.endswith("}") else ("",)):
            I = c.interp(peel=24, exact_only=True)
            st = St()
            q = s_c17.template_text(I, st, p + close, k)
            for g in q.s:
                if not g[1].is_const() and not st.num.add_ge(Lin(MAX) - g[1]):
                    raise Unsupported("template")
            st.note("string of the form %s%s%s" % (p, close, "x" * k))
            sink = I.newcell(st, Seq(), "sink")
            I.roots.add(sink)
            for o in c.run(I, b, st, [ref(I, st, Agg(SS, 0, [q])), Ref(sink)]):
                if o[0] == "panic":
                    c.no_panic(o, b.path)
                    continue
                for s, chars in as_chars(I, o[1], o[1].mem[sink]):
                    read_back(c, I, s, chars, [g[1] for g in q.s], b.path)


def piece(st, segs, x):
    """number of leading segments that are read back as the character x whatever follows, None when there are none"""
    def at(i, v):
        return i < len(segs) and segs[i][0] == "e" and isinstance(segs[i][1], Lin) and st.num.entails_eq(segs[i][1] - v)

    def dig(i):
        if i < len(segs) and segs[i][0] == "t" and segs[i][1].op in ("hexdig", "HEXDIG"):
            return segs[i][1].a[0]
        if i < len(segs) and segs[i][0] == "e" and isinstance(segs[i][1], Lin) and segs[i][1].is_const():
            ch = chr(segs[i][1].c)
            if ch in "0123456789abcdefABCDEF":
                return Lin(int(ch, 16))
        return None
    if at(0, 34) and at(1, 34) and st.num.entails_eq(x - 34):
        return 2
    if at(0, 92) and at(1, 117):
        i, v, brace = 2, ZERO, at(2, 123)
        if brace:
            i = 3
        n = 0
        while n < (5 if brace else 4):
            d = dig(i)
            if d is None:
                break
            v = v * 16 + d
            i += 1
            n += 1
        if brace and n >= 1 and at(i, 125) and st.num.entails_eq(v - x):
            return i + 1
        if not brace and n == 4 and st.num.entails_eq(v - x):
            return i
        return None
    if segs and segs[0][0] == "e" and isinstance(segs[0][1], Lin) and st.truth(f_and(f_eq(segs[0][1] - x), f_le(Lin(32), x), f_le(x, Lin(126)), f_ne(x - 34), f_ne(x - 92))) is True:
        return 1
    return None


def fold_print(sink):
    def hook(I, st):
        q = st.mem[sink]
        segs = list(q.s)
        if not segs:
            return
        done = segs[0][0] == "t" and segs[0][1].op == "printed"
        if not done:
            if not (segs[0][0] == "e" and isinstance(segs[0][1], Lin) and st.num.entails_eq(segs[0][1] - 34)):
                return
        segs = segs[1:]
        want = list(st.mem[OUT].f)
        while want:
            k = piece(st, segs, want[0])
            if k is None:
                break
            segs, want = segs[k:], want[1:]
        st.mem[OUT] = Agg("out", 0, want)
        st.mem[sink] = Seq((("t", Term("printed"), I.intsym(st, fresh("plen"), 1, None)),) + tuple(segs))
    return hook


@ob("C08", "display")
def display(c):
    b = display_body(c)
    I = c.interp(peel=2)
    st = St()
    n = I.intsym(st, "s.len", 0, I32MAX)
    arr = SymArr("s", None, lambda I, s, i: [(s, chsym(I, s, "s[%r]" % (i,)))])

    def onread(I, s, i, x):
        if s.num.entails_eq(i - s.mem[POS]):
            s.mem[POS] = s.mem[POS] + 1
            emit(s, x)
        return [s]
    arr.onread = onread
    spec_init(st)
    I.ghosts = [n]
    sink = I.newcell(st, Seq(), "sink")
    I.roots.add(sink)
    hook = fold_print(sink)
    I.rewrite = [hook]
    for o in c.run(I, b, st, [ref(I, st, Agg(SS, 0, [arr_seq(arr, n)])), Ref(sink)]):
        if o[0] == "panic":
            c.no_panic(o, b.path)
            continue
        s = o[1]
        hook(I, s)
        q = s.mem[sink]
        good = len(q.s) == 2 and q.s[0][0] == "t" and q.s[0][1].op == "printed" and q.s[1][0] == "e" and not s.mem[OUT].f
        c.prove(s, f_and(f_eq(q.s[1][1] - 34), f_eq(s.mem[POS] - n)) if good else False, "every character is printed in a form that is read back as that character", b.path, exact=False)
