"""Models of hash maps and sets: association lists (newest first) over a possibly symbolic base."""
from stdmodels import *
import stdmodels as SM

HM = "std::collections::HashMap"
HS = "std::collections::HashSet"
EN = "std::collections::hash_map::Entry"
NOBASE = Term("nobase")


def new_map(base=None):
    return Agg(HM, 0, (Seq(), Term("mapbase", base) if base else NOBASE))


def as_map(v):
    if isinstance(v, Term) and v.op == "map" and v.a == ((),):
        return new_map()
    if isinstance(v, Agg) and v.k == HM:
        return v
    raise Unsupported("map %r" % (v,))


def load_map(I, st, r):
    return [(s, as_map(v)) for s, v in I.rload(st, r)]


def map_lookup(I, st, m, key, call):
    """outcomes with None or the reference to the stored value; unwinding as usual"""
    outs = []
    work = [(st, [g[1] for g in m.f[0].s])]
    while work:
        s, prs = work.pop()
        if not prs:
            if m.f[1] == NOBASE:
                outs.append(("ret", s, None))
                continue
            h = getattr(I, "map_base", None)
            if h is None:
                raise Unsupported("map contents")
            for s2, v in h(I, s, m.f[1].a[0], key):
                outs.append(("ret", s2, None if v is None else Ref(I.newcell(s2, v, "mv"))))
            continue
        p = prs[0]
        for o in eq_vals(I, s, key, p.f[0], call):
            if o[0] != "ret":
                outs.append(o)
                continue
            for s2, b in cases(o[1], o[2]):
                if b:
                    outs.append(("ret", s2, p.f[1]))
                else:
                    work.append((s2, prs[1:]))
    return outs


def map_put(I, st, r, key, val, call):
    """outcomes with (old reference or None, new reference)"""
    outs = []
    for s, m in load_map(I, st, r):
        for o in map_lookup(I, s, m, key, call):
            if o[0] != "ret":
                outs.append(o)
                continue
            s2, old = o[1], o[2]
            outs += put_at(I, s2, r, key, val, old, call)
    return outs


def put_at(I, s2, r, key, val, old, call):
    outs = []
    if old is not None:
        outs2 = I.rload(s2, old)
        for s3, ov in outs2:
            for s4 in I.rstore(s3, old, val):
                outs.append(("ret", s4, (ov, old)))
        return outs
    for s3, m in load_map(I, s2, r):
        c = Ref(I.newcell(s3, val, "mv"))
        h = getattr(I, "map_insert", None)
        if h and m.f[1] != NOBASE:
            h(I, s3, m.f[1].a[0], key, val, call)
        nm = Agg(HM, 0, (Seq((("e", Agg("pair", 0, (key, c))),) + tuple(m.f[0].s)), m.f[1]))
        for s4 in I.rstore(s3, r, nm):
            outs.append(("ret", s4, (None, c)))
    return outs


def deref1(I, st, k):
    """a key given by reference, as a value"""
    return I.rload(st, k)


for n in ("HashMap::<K, V>::new", "HashMap::<K, V>::with_capacity", "HashSet::<T>::new", "HashSet::<T>::with_capacity",
          "BTreeMap::<K, V>::new", "BTreeSet::<T>::new"):
    model("std::collections::" + n)(lambda I, st, a, call: ret(st, new_map()))

T3 = ["std::collections::HashMap::<K, V, S>::", "std::collections::HashMap::<K, V, S, A>::", "std::collections::HashMap::<K, V>::", "std::collections::BTreeMap::<K, V>::", "std::collections::BTreeMap::<K, V, A>::"]
S3 = ["std::collections::HashSet::<T, S>::", "std::collections::HashSet::<T, S, A>::", "std::collections::HashSet::<T>::", "std::collections::BTreeSet::<T>::", "std::collections::BTreeSet::<T, A>::"]


def mm(*names):
    def deco(f):
        for n in names:
            for b in T3:
                model(b + n)(f)
        return f
    return deco


def ms(*names):
    def deco(f):
        for n in names:
            for b in S3:
                model(b + n)(f)
        return f
    return deco


def lookup_all(I, st, a, call, k):
    """k(st, ref or None) -> outcomes, for a map and a key given by references"""
    out = []
    for s, m in load_map(I, st, a[0]):
        for s1, key in deref1(I, s, a[1]):
            for o in map_lookup(I, s1, m, key, call):
                if o[0] != "ret":
                    out.append(o)
                else:
                    out += k(o[1], o[2])
    return out


@mm("get", "get_mut")
def m_get(I, st, a, call):
    return lookup_all(I, st, a, call, lambda s, r: ret(s, NONE if r is None else some(r)))


@ms("get")
def m_sget(I, st, a, call):
    raise Unsupported("HashSet::get")


@mm("contains_key")
def m_has(I, st, a, call):
    return lookup_all(I, st, a, call, lambda s, r: ret(s, r is not None))


@ms("contains")
def m_shas(I, st, a, call):
    return lookup_all(I, st, a, call, lambda s, r: ret(s, r is not None))


@mm("insert")
def m_ins(I, st, a, call):
    return then(map_put(I, st, a[0], a[1], a[2], call), lambda s, v: ret(s, NONE if v[0] is None else some(v[0])))


@ms("insert")
def m_sins(I, st, a, call):
    return then(map_put(I, st, a[0], a[1], UNIT, call), lambda s, v: ret(s, v[0] is None))


def count(I, st, m):
    if m.f[1] != NOBASE:
        raise Unsupported("size of a symbolic map")
    return Lin(len(m.f[0].s))


@mm("len")
def m_len(I, st, a, call):
    return [("ret", s, count(I, s, m)) for s, m in load_map(I, st, a[0])]


ms("len")(m_len)


@mm("is_empty")
def m_isempty(I, st, a, call):
    return [("ret", s, count(I, s, m) == ZERO) for s, m in load_map(I, st, a[0])]


ms("is_empty")(m_isempty)


@mm("clear")
def m_clear(I, st, a, call):
    return [("ret", s2, UNIT) for s, m in load_map(I, st, a[0]) for s2 in I.rstore(s, a[0], new_map())]


ms("clear")(m_clear)


@mm("remove")
def m_remove(I, st, a, call):
    def k(s, r):
        if r is None:
            return ret(s, NONE)
        out = []
        for s2, m in load_map(I, s, a[0]):
            if m.f[1] != NOBASE:
                raise Unsupported("removal from a symbolic map")
            q = Seq(tuple(g for g in m.f[0].s if g[1].f[1] != r))
            for s3, v in I.rload(s2, r):
                for s4 in I.rstore(s3, a[0], Agg(HM, 0, (q, m.f[1]))):
                    out += ret(s4, some(v))
        return out
    return lookup_all(I, st, a, call, k)


# ---- entries: Occupied = 0, Vacant = 1 as in the definition of the enum
OCC, VAC = "std::collections::hash_map::OccupiedEntry", "std::collections::hash_map::VacantEntry"


@mm("entry")
def m_entry(I, st, a, call):
    out = []
    for s, m in load_map(I, st, a[0]):
        for o in map_lookup(I, s, m, a[1], call):
            if o[0] != "ret":
                out.append(o)
            elif o[2] is not None:
                out += ret(o[1], Agg(EN, 0, (Agg(OCC, 0, (a[1], o[2])),)))
            else:
                out += ret(o[1], Agg(EN, 1, (Agg(VAC, 0, (a[1], a[0])),)))
    return out


def own(I, st, v):
    return I.rload(st, v) if isinstance(v, Ref) else [(st, v)]


for P in ("std::collections::hash_map::OccupiedEntry::<'a, K, V>::", "std::collections::hash_map::OccupiedEntry::<'a, K, V, A>::"):
    @model(P + "get", P + "get_mut", P + "into_mut")
    def m_oget(I, st, a, call):
        return [("ret", s, e.f[1]) for s, e in own(I, st, a[0])]

    @model(P + "insert")
    def m_oins(I, st, a, call):
        out = []
        for s, e in own(I, st, a[0]):
            for s2, v in I.rload(s, e.f[1]):
                out += [("ret", s3, v) for s3 in I.rstore(s2, e.f[1], a[1])]
        return out

    @model(P + "key")
    def m_okey(I, st, a, call):
        return [("ret", s, Ref(I.newcell(s, e.f[0], "key"))) for s, e in own(I, st, a[0])]

for P in ("std::collections::hash_map::VacantEntry::<'a, K, V>::", "std::collections::hash_map::VacantEntry::<'a, K, V, A>::"):
    @model(P + "insert")
    def m_vins(I, st, a, call):
        out = []
        for s, e in own(I, st, a[0]):
            out += then(put_at(I, s, e.f[1], e.f[0], a[1], None, call), lambda s2, v: ret(s2, v[1]))
        return out

    @model(P + "key")
    def m_vkey(I, st, a, call):
        return [("ret", s, Ref(I.newcell(s, e.f[0], "key"))) for s, e in own(I, st, a[0])]

    @model(P + "into_key")
    def m_vikey(I, st, a, call):
        return [("ret", s, e.f[0]) for s, e in own(I, st, a[0])]

for P in ("std::collections::hash_map::Entry::<'a, K, V>::", "std::collections::hash_map::Entry::<'a, K, V, A>::"):
    @model(P + "or_insert")
    def m_orins(I, st, a, call):
        e = a[0]
        if e.var == 0:
            return ret(st, e.f[0].f[1])
        return then(put_at(I, st, e.f[0].f[1], e.f[0].f[0], a[1], None, call), lambda s, v: ret(s, v[1]))

    @model(P + "or_insert_with")
    def m_orinsw(I, st, a, call):
        e = a[0]
        if e.var == 0:
            return ret(st, e.f[0].f[1])
        return then(I.call_value(st, a[1], [], call["fr"]),
                    lambda s, v: then(put_at(I, s, e.f[0].f[1], e.f[0].f[0], v, None, call), lambda s2, w: ret(s2, w[1])))


def elems(I, st, m, what):
    if m.f[1] != NOBASE:
        raise Unsupported("iteration over a symbolic map")
    out = []
    for g in reversed(m.f[0].s):
        k, r = g[1].f
        kr = Ref(I.newcell(st, k, "key"))
        out.append(("e", kr if what == "keys" else r if what in ("values", "values_mut") else Agg("tuple", 0, (kr, r))))
    return Seq(tuple(out))


@mm("values", "values_mut", "keys", "iter")
def m_mapiter(I, st, a, call):
    what = call["d"]["p"].split("::")[-1]
    out = []
    for s, m in load_map(I, st, a[0]):
        # iteration order is unspecified: only what does not depend on it may be concluded
        if len(m.f[0].s) > 1:
            s.add_taint("map iteration order")
        q = elems(I, s, m, what)
        out += ret(s, Agg("it:Own", 0, (Ref(I.newcell(s, q, "mapit")), ZERO, q.length())))
    return out


@model("std::collections::hash_map::HashMap::<K, V, S>::index", "std::ops::Index::index<std::collections::HashMap>")
def m_mapindex(I, st, a, call):
    return lookup_all(I, st, a, call, lambda s, r: ret(s, r) if r is not None else [("panic", s, ("index", call["line"], "no entry"))])


# ---------------------------------------------------------------- hashing: the hasher is the list of what it was fed
def feed(I, st, h, x):
    out = []
    for s, q in I.rload(st, h):
        if not isinstance(q, Seq):
            raise Unsupported("hasher %r" % (q,))
        for s2 in I.rstore(s, h, Seq(tuple(q.s) + (("e", x),))):
            out.append(("ret", s2, UNIT))
    return out


def hash_val(I, st, v, h, call):
    out = []
    for s, x in peel(I, st, v):
        out += hash1(I, s, x, v, h, call)
    return out


def hash1(I, st, x, rv, h, call):
    if isinstance(x, Lin) or is_fm(x):
        return feed(I, st, h, x)
    k = I.rt_key(st, x)
    if k:
        for t, targs, b in I.P.impls.get(("std::hash::Hash", "hash"), ()):
            bt = base_ty(t)
            if bt["k"] == "adt" and bt["p"] == k:
                r = rv if isinstance(rv, Ref) else Ref(I.newcell(st, x, "hv"))
                out = []
                for s, r1 in peel_ref(I, st, r):
                    out += I.inline(s, b, [r1, h], call["fr"], call["line"])
                return out
        out = []
        for s, u in I.agg(st, x):
            cur = feed(I, s, h, Lin(u.var))
            for p in u.f:
                cur = then(cur, lambda s2, _: hash_val(I, s2, p, h, call))
            out += cur
        return out
    if isinstance(x, Agg):
        cur = [("ret", st, UNIT)]
        for p in x.f:
            cur = then(cur, lambda s2, _: hash_val(I, s2, p, h, call))
        return cur
    if isinstance(x, Seq):
        cur = feed(I, st, h, x.length())
        for g in x.s:
            if g[0] != "e":
                raise Unsupported("hash of an open list")
            cur = then(cur, lambda s2, _: hash_val(I, s2, g[1], h, call))
        return cur
    return feed(I, st, h, x)


@model("std::hash::Hash::hash")
def m_hash(I, st, a, call):
    return hash_val(I, st, a[0], a[1], call)


@model("std::hash::Hasher::write_usize", "std::hash::Hasher::write_u64", "std::hash::Hasher::write_u32", "std::hash::Hasher::write_u8", "std::hash::Hasher::write_u16", "std::hash::Hasher::write_u128")
def m_hwrite(I, st, a, call):
    return feed(I, st, a[0], a[1])
