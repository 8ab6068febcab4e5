"""Dependencies: a property that holds only when another component meets its contract includes the obligations of that contract.

The contracts used as summaries by the obligations of P are themselves obligations of Q; link(P, Q, ...) makes the check of P decide them too, so that a
defect in a component is reported for every property that relies on it."""
import fnmatch
from spec import REG, ob


def link(p, q, *pats, tier="quick"):
    have = {n for n, f, m in REG.get(p, ())}
    for n, f, m in list(REG.get(q, ())):
        if ":" in n or not any(fnmatch.fnmatchcase(n, x) for x in pats):
            continue
        nm = "%s:%s" % (q, n)
        if nm not in have:
            ob(p, nm, tier=m["tier"] if tier == "quick" else tier)(f)


CTOR = ("concat", "mk_loop", "inter-of-*", "union-of-*", "flatten_*", "complement")
KEYS = ("key-eq-hash", "derivative-key-eq-hash", "term-eq", "complement", "complement-node")
CLS = ("class_of_char", "class_ids", "picks", "classes", "new_from_set", "push", "complement")
MERGE = ("merge_partitions", "merge_partition_list")
DER = ("derivative-*", "classes-*", "char_derivative", "class_derivative*", "str_derivative-*")

# membership: constructors rest on inclusion, loop ranges, interval algebra, term identity; membership itself on derivatives
link("C01", "C16", "*")
link("C01", "C15", "*")
link("C01", "C20", "covers", "inter", "union", "inter_list", "contains", "constructors")
link("C01", "C03", *DER)
link("C01", "C07", *KEYS)
link("C01", "C11", "class_of_char", "picks", "classes", "new_from_set")
link("C01", "C12", *MERGE)
# derivatives
link("C03", "C01", "nullable-*", *CTOR)
link("C03", "C15", "shift", "queries")
link("C03", "C07", *KEYS)
link("C03", "C11", "interval_cover", "class_of_set", *CLS)
link("C03", "C12", *MERGE)
# properties of the derivative graph
for p_ in ("C02", "C05", "C10", "C18", "C19"):
    link(p_, "C03", *DER)
    link(p_, "C01", "nullable-*", *CTOR)
    link(p_, "C15", "shift", "queries")
    link(p_, "C07", *KEYS)
    link(p_, "C11", *CLS)
    link(p_, "C12", *MERGE)
for p_ in ("C02", "C05", "C18", "C19"):
    link(p_, "C03", "set_derivative*", "class-queries")
link("C02", "C11", "try_from_iter", "interval_cover", "class_of_set")
link("C18", "C05", "is_empty_re-*")
link("C05", "C19", "iter-*")
link("C10", "C01", "str_in_re-*", "smt-str_in_re-*")
# inclusion is used to prune unions; inclusion of ranges is interval algebra
link("C16", "C01", "union-of-*", "union", "union_list-*", "nullable-*", "re_union")
link("C16", "C20", "covers", "contains")
link("C16", "C15", "includes", "contains", "queries")
# consumers of the loop ranges
link("C15", "C01", "concat", "mk_loop", "smt_loop", "exp", "re_loop", "re_power")
link("C15", "C03", "derivative-Loop")
# consumers of the partitions
link("C11", "C03", "set_derivative*", "class-queries", "class_derivative*")
link("C12", "C03", "classes-*")
link("C12", "C14", "combined-1c-1c", "combined-1c-2n", "combined-2n-2n", "combined-1c-0c-1c0", "combined-2n-1n-2c")
link("C12", "C11", "push", "picks")
link("C13", "C11", "class_of_char", "try_from_iter", "accessors")
link("C14", "C12", *MERGE)
link("C14", "C11", "class_of_char", "picks", "class_ids")
link("C04", "C14", "rows-*", "table-1c-1c", "table-1c-2n", "table-2n-2n", "table-2n-1n-2c-fixed", "alphabet-1c-1c", "alphabet-1c-2n", "combined-1c-1c", "combined-1c-2n")
# term identity: operands of set operations are sorted and deduplicated by id
link("C07", "C01", "inter-of-*", "union-of-*", "complement", "diff")
# strings handed out by the regular-expression functions
link("C17", "C05", "get_string-*")
link("C17", "C10", "replace-1-*", "replace_all-1-*", "replace-2-*", "replace_all-2-*")
link("C17", "C01", "str-*", "char", "smt_range-*")
link("C02", "C19", "bounds-passed-on")

# strings are accepted by stepping
for p_ in ("C02", "C04", "C05", "C13"):
    link(p_, "C14", "str_next-*", "accepts-*", "class_next-*")
link("C11", "C14", "char_set_next-*")
