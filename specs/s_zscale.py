"""Independence from size literals.

The obligations on searches (derivative graphs, automata, lists of operands) range over bounded structures, so a cut-off written as a literal
("give up after 1024 states") lies outside them.  None of the specifications below depends on such a literal: wherever code of the modules listed here
uses an integer literal L >= 4 as a size, the obligations are decided once more with the literal taken as 2 (1), which moves the cut-off into the bounded
structures; casts of sizes and indices to 8 or 16 bits are taken as casts to a type with the values 0 and 1.  On code without such literals there is nothing to do and the condition holds.  Failing assertions are ignored in this reading (assertions on sizes)."""
import copy
import fnmatch
import mir
from spec import REG, ob

MODS = ("regular_expressions", "smt_regular_expressions", "bfs_queues", "labeled_queues", "matcher", "automata", "minimizer", "partitions",
        "compact_tables", "fast_sets", "store")
U32 = ("minimizer", "partitions", "compact_tables", "fast_sets")


def in_mods(path):
    p = path[1:] if path.startswith("<") else path
    return next((m for m in MODS if ("crate::%s::" % m) in p or ("<%s::" % m) in p), None)


def literals(x, types, out):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "const" and isinstance(x[1], dict) and x[1].get("k") == "int":
            c = x[1]
            if c["t"].get("n") in types and isinstance(c["v"], int) and 4 <= c["v"] <= 1 << 20:
                out.append(c)
            return
        for y in x:
            literals(y, types, out)
    elif isinstance(x, dict):
        for y in x.values():
            literals(y, types, out)


ARITH = ("Mul", "Div", "Rem", "Shl", "Shr", "BitAnd", "BitOr", "BitXor")
CALLS = ("pow", "rotate", "wrapping", "checked", "overflowing", "saturating", "shl", "shr", "digit", "radix", "get", "index", "nth", "mul", "div", "rem",
         "bit", "hash", "write")


def not_sizes(b):
    """the constants of a body that are factors, shifts, masks, positions, hash inputs or compared with the id of a term, and hence no cut-offs (ids of the
    constant objects)"""
    out, const, odd, ids = set(), {}, set(), set()

    def local(x):
        return x[1][0] if x[0] in ("copy", "move") and len(x[1]) == 1 else None

    def use(x):
        if x[0] == "const":
            out.add(id(x[1]))
        elif local(x) is not None:
            odd.add(local(x))

    def index(pl):
        for e in pl[1:]:
            if isinstance(e, list) and e[0] == "i":
                odd.add(e[1])

    def positions(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ("copy", "move"):
                index(x[1])
            for y in x:
                positions(y)
    compared = []
    for bl in filter(None, b["blocks"]):
        for st in bl["s"]:
            positions(st)
            if st[0] != "=":
                continue
            index(st[1])
            r = st[2]
            if r[0] == "use" and r[1][0] == "const" and len(st[1]) == 1:
                const.setdefault(st[1][0], []).append(id(r[1][1]))
            elif r[0] == "use" and len(st[1]) == 1 and any(isinstance(e, list) and e[:2] == ["f", 1] for e in r[1][1][1:]) \
                    and "regular_expressions::RE" in str(b["locals"][r[1][1][0]]):
                ids.add(st[1][0])
            elif r[0] == "cast" and r[3].get("n") == "u32":  # the check of a shift amount
                use(r[2])
            elif r[0] == "bin":
                if r[1].startswith(ARITH):
                    use(r[2])
                    use(r[3])
                elif r[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                    compared.append((r[2], r[3]))
        t = bl["t"]
        positions(t)
        if t[0] == "call" and t[1][0] == "const" and any(w in str(t[1][1].get("m")) for w in CALLS):
            for x in t[2]:
                use(x)
    for x, y in compared:
        if local(x) in ids:
            use(y)
        if local(y) in ids:
            use(x)
    for l in odd:
        out.update(const.get(l, ()))
    return out


def narrowing(b, x, out):
    """casts of sizes and indices to 8 or 16 bits"""
    if isinstance(x, list):
        if len(x) == 4 and x[0] == "cast" and isinstance(x[3], dict) and x[3].get("k") == "int" and x[3].get("n") in ("u8", "u16", "i8", "i16"):
            src = b["locals"][x[2][1][0]] if x[2][0] != "const" and len(x[2][1]) == 1 else None
            if x[2][0] != "const" and not (src and src.get("n") in ("u8", "u16", "i8", "i16", None)):
                out.append(x[3])
            return
        for y in x:
            narrowing(b, y, out)
    elif isinstance(x, dict):
        for y in x.values():
            narrowing(b, y, out)


def found(b):
    """(size literals, narrow types) of a body"""
    out, nar = [], []
    literals(b, ("usize", "isize", "u64", "i64", "u16") + (("u32",) if in_mods(b["path"]) in U32 else ()), out)
    narrowing(b, b["blocks"], nar)
    odd = not_sizes(b)
    return [c for c in out if id(c) not in odd], nar


def places(P):
    """[(path, literals)] of the bodies with size literals; constructors only set initial capacities"""
    r = []
    for b in P.d["bodies"]:
        if in_mods(b["path"]) and "::fmt" not in b["path"] and not b["path"].endswith("::new"):
            out, nar = found(b)
            if out or nar:
                r.append((b["path"], sorted({c["v"] for c in out} | {t["n"] for t in nar}, key=str)))
    return r


def scaled(P):
    pl = dict(places(P))
    if not pl:
        return None, pl
    top = 1 if any(isinstance(v, str) for l in pl.values() for v in l) else 2
    d = dict(P.d)
    d["bodies"] = []
    for b in P.d["bodies"]:
        if b["path"] in pl:
            b = copy.deepcopy(b)
            out, nar = found(b)
            for c in out:
                c["v"] = top
            for t in nar:
                t["hi"] = top
        d["bodies"].append(b)
    return mir.Program(d), pl


def scale(f):
    def g(c):
        P2, pl = scaled(c.P)
        if P2 is None:
            c.rule(True, "the code uses no size literal", "modules " + ", ".join(MODS))
            return
        c.P = P2
        check = c.no_panic
        c.no_panic = lambda o, *a, **k: None if o[2][0] in ("explicit", "assert") else check(o, *a, **k)
        f(c)
    return g


def add(p, *pats):
    for n, f, m in list(REG.get(p, ())):
        if ":" in n or m["tier"] != "quick" or not any(fnmatch.fnmatchcase(n, x) for x in pats):
            continue
        ob(p, "scaled:" + n)(scale(f))


add("C01", "inter-of-3", "union-of-3", "inter_list-3", "union_list-3", "diff_list-3", "concat_list-3", "flatten_*-3", "str-3", "str_in_re-3")
add("C02", "compile-1n-3", "compile-2n-3", "compile-1c-3")
add("C04", "2x2", "3x1", "3x2-1*", "4x1-*")
add("C05", "is_empty_re-*-3", "get_string-*-3", "is_empty_re-1n-5", "get_string-1n-5")
add("C06", "naive_search", "str_indexof", "str_replace", "str_replace_all")
add("C10", "replace-*-1", "replace_all-*-1", "replace-4-1", "replace_all-4-1")
add("C13", "three-ABC", "three-ABC-default", "cover-0123", "two-AB-default", "unreachable")
add("C14", "str_next-*", "accepts-*", "prune-1n-1n-1n-1n", "prune-2n-1n-0c", "rows-*", "finals-4", "table-2n-2n", "table-1c-1c-1c-fixed", "edges-2n-0c-0")
add("C16", "concat-in-FRF", "concat-in-RFR", "concat-in-FRFRF", "*3-in-*3")
add("C18", "start_char-*-3")
add("C19", "iter-1n-3", "iter-2n-3", "iter-1c-4", "compile-1n-3", "try_compile-1n-3")
