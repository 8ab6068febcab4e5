AI = "abstract interpretation of rustc MIR (path-partitioned, own relational numeric domain with widening) against set-theoretic contracts"
CLAIMED = {
 "C20": (AI, "Every CharSet operation is analysed on symbolic arguments; loops are summarised by a widened fixpoint. Trusts the MIR dumper, the models of core library functions, and the analyser."),
 "C15": (AI, "Every LoopRange operation is analysed on symbolic ranges with polynomial normal forms for products. Four conditions of the upper bound of mul with zero factors stay undecided and raise no alarm."),
 "C09": (AI, "Lexicographic order by a first-mismatch ghost index, str_to_int by history variables (value of the digits read so far) over all lengths, overflow asserts of the MIR reachable while the value fits count as violations."),
 "C06": (AI, "All ten functions on symbolic strings of any length; searches are decided with ghosts for the least occurrence and the mismatch of the candidate position, replace_all by folding its output to a prefix of the ideal one."),
 "C11": (AI, "Partitions of any length as sorted arrays with ghost positions of probe characters and of the gap-free prefix; binary searches by a widened fixpoint plus peeled rounds; try_from_iter by history variables over the sorted input."),
 "C12": (AI, "Both partitions are unbounded sorted streams; every produced interval must be the next maximal run with equal classes (history variables for the consumed intervals, invariant by a widened fixpoint, plus four exact rounds)."),
 "C17": (AI, "Goodness of every element of every produced string (integer constructors against their exact specification); the literal parser by a widened fixpoint over texts of any length and exactly on texts around one or two escape sequences. Strings from get_string and the regex replace functions are covered through C05 and C10."),
 "C08": (AI, "The SMT-LIB escape automaton runs in lockstep with the parser (outputs matched at every loop head, all lengths); printing: every printed form is read back as its character; plus exact evaluation around escape sequences, which yields the violations."),
 "C01": (AI, "Languages are an abstract domain: every RegLan carries a language term, constructors are executed on symbolic terms and the result must have the same normal form as the SMT-LIB denotation of the construction; differing forms are refuted by evaluation on short words. Lists of operands and texts up to three elements; recursion by contracts that are obligations themselves."),
 "C03": (AI, "Derivatives in the language domain: every rule of the derivative computation must produce the left quotient of the operand's language, class derivatives are well defined, the cache is keyed by term and class, str_derivative is iterated. Recursion by contract; operand lists up to three elements."),
 "C10": (AI, "find_match, str_replace_re and str_replace_re_all over words of up to four symbolic characters and an opaque regex; membership of the factors is read off the derivative chain of the path; leftmost-shortest match and left-to-right replacement are required. A loop that returns to the same state counts as a violation."),
 "C16": (AI, "included_in analysed on every pair of root constructors (recursive calls by contract) and on chains of ranges, full, loops and opaque factors of bounded length; a true result needs inclusion of the two language terms, refuted on short words otherwise."),
 "C18": (AI, "start_char and start_class analysed per root constructor in the language domain with the emptiness tests by contract: the result must be equivalent to non-emptiness of the derivative."),
 "C02": (AI, "The compiled automaton is compared with the derivative graph for every graph of up to three terms (some up to five) with up to three symbolic classes per term, lazily chosen; derivatives by contract (C03). Compared through the public Automaton API on a symbolic character: states, finality, transitions."),
 "C05": (AI, "The reachable-term iterator, emptiness test and witness search analysed on every bounded derivative graph (as for C02): enumerates exactly the reachable terms once; None iff no nullable term reachable; every witness follows real edges to a nullable term."),
 "C07": (AI, "Programs over a manager with an arbitrary symbolic history: constructing a term again returns the same term, distinct keys get distinct ids, key equality structural and consistent with hashing, complement is an involution, constructors independent of the number of terms already present."),
 "C19": (AI, "Bounded compilation on every bounded derivative graph and symbolic bound: Some iff the number of reachable terms is within the bound, result equal to the unbounded one; the unbounded entry point passes no hidden bound."),
 "C04": (AI, "minimize analysed on automata of up to 4 states and 1-3 classes (up to 5 in the thorough tier) whose labels, finality and successors are symbolic and split only where the code asks; result compared with the Nerode quotient through the public API. The compiled table is by contract (C14). Bounded in the number of states."),
 "C13": (AI, "Builder programs with symbolic keys and symbolic labels (up to three transitions of a state in any position, chains of up to six covering labels, defaults or none, several builds): accepted iff complete and conflict-free, successors compared through the public API on a symbolic character. Bounded in the number of calls."),
 "C14": (AI, "Automata of up to 4 states with symbolic labels, finality, initial state and successors: pruning, combined partition, alphabet, every cell of the compiled table, edge and final-state iterators compared with next on symbolic characters; the table builder with symbolic columns and values. Bounded in the number of states and classes."),
}
NA = {}
NOTES = "Static analysis only: nothing of /repo is executed. See DESIGN.md."
