AI = 'abstract interpretation of the SSA form, one abstract path at a time (no solver)'
BASE = ('Holds for every input in the abstraction: recursive calls are replaced by their contract (induction on nodes), '
        'loops by inductive invariants. Trusts the analyser, the SSA form and the properties of the node table that C12, C14, C15 and C29 state. ')
claims = {
 'C01': (AI + ': denotation of each path against the truth table', BASE),
 'C02': (AI + ': denotation of each path against the complement', BASE),
 'C03': (AI + ': denotation of each path against if-then-else', BASE),
 'C04': (AI + ': denotation of each path against quantification; dataflow of the variable set', BASE),
 'C05': (AI + ': denotation of each path against quantified application; dataflow of the variable set', BASE),
 'C06': (AI + ': denotation of each path against renaming', BASE + 'Relies on C07 for the contents of replacers.'),
 'C07': (AI + ': path obligations on the replacer that is built, loop invariants', BASE),
 'C13': (AI + ': lower bounds on the level of the successors of every node built', BASE),
 'C16': (AI + ': rooting of intermediate results (reference stack or Go node) at each allocation', BASE + 'The reclaimer itself is C15 and C17.'),
 'C20': (AI + ': lockset of every access to a location shared with finalizers, critical sections of read-modify-write sequences', 'Interleavings are not enumerated: mutual exclusion is derived from the locks held on each path. The user side is one goroutine, as the package requires.'),
 'C21': (AI + ': lock typestate along every path, lock order graph', 'Loops by balanced turns, recursion by units keyed by the locks held. Trusts the analyser and the model of sync.'),
 'C26': ('inclusion-based points-to analysis (allocation sites, field-sensitive) and lockset of the accesses to shared state', 'Flow- and context-insensitive over-approximation of what may be written; nothing is enumerated at run time.'),
 'C32': ('inclusion-based points-to analysis: writes through, and retention of, arguments', 'Over-approximation of what may be written or kept; library functions by a list of read-only ones.'),
 'C33': ('type-checking of the 8 builds, comparison of the exported scopes and method sets', 'Decides the property for the 4 tag combinations on amd64 and 386.'),
 'C18': (AI + ': every cache whose entries hold node numbers is cleared on each path that may free or renumber nodes', 'The clearing loops by their inductive invariant (every entry of the table is overwritten with a value no key matches). What the caches hold is C19.'),
 'C12': (AI + ': typestate of the node that is built, key of the table of contents', 'Every path of the constructor of nodes, collection and growth included, loops by classified inductive turns. Trusts the analyser; collisions of keys are excluded by the bits that the key covers.'),
 'C14': (AI + ': typestate of marks over collection, growth and construction; contract of the marking recursion', 'Loops by classified inductive turns. That what the user and the operations need is on the stack or counted is C16 and C17.'),
 'C11': (AI + ': one turn of the loop that builds the cube by induction (literal added, order, range), coverage of the list, origin and order of the list, refusal iff invalid', BASE + 'That the node built is the conjunction is the contract of Makenode (C12, C13).'),
 'C10': (AI + ': loops of Allnodes by induction (what each turn reports, against marks or slots in use; coverage of the table and of the list), typestate of marks and of errors on each path', BASE + 'That marks are exactly the reachable nodes is the contract of the marking recursion, checked here and in C14.'),
 'C08': (AI + ': the big integers followed as polynomials (powers of two of level differences, counts of the successors); typestate of the memo', BASE + 'Induction over the recursion. That levels increase from a node to its successors (exponents not negative) is C13.'),
 'C09': (AI + ': contents of the profile at each call (value of the branch, loop shown to cover the levels skipped), each successor once, propagation of errors', BASE + 'Induction over the recursion. A callback that itself writes to the profile is out of scope.'),
 'C30': (AI + ': the text written on each path, with symbolic numbers in it; the function given to Allnodes analysed apart; insertion at its place or sort by id, and coverage of the list by the loop that writes it', BASE + 'Formats of fmt, tabwriter buffers and the sort package are library facts. The failure of the stream itself is out of scope.'),
 'C25': ('two-program information flow: the debug build and the other one are aligned on SSA instruction by instruction; the constants that differ are the sources; values, memory classes, branches (up to their post-dominators) and the functions called in one build only are followed to a fixpoint; sinks are results, callbacks, library calls with effects, channels; explicit panics and reads of nodes in such code must not be reached by the interpreted operations', BASE + 'A memory class that differs is assumed to differ everywhere; the texts of Stats are exempt, and so are the assertions of the functions documented as kernel functions.'),
 'C17': (AI + ': count of references against finalizers on every path of Retnode and of the finalizer, interval of counts split at the saturation, marked and unmarked; effects of all other functions on counts; liveness around callbacks', BASE + 'Relies on the Go runtime calling a finalizer once, after the object is unreachable.'),
 'C15': (AI + ': automaton over free list, count and hash chains along each path of collection and growth', 'Loops by classified inductive turns (induction over slots); starts from the table that New builds, which is checked too.'),
 'C29': (AI + ': effects on the table of every function outside of the constructor of nodes; reachability of the constructor from queries', 'Over-approximation of the stores. Inside of the constructor the property is C14 and C15.'),
 'C19': (AI + ': what is stored in each operation cache against what each hit returns', BASE),
 'C24': (AI + ': the creation of an object, all its helpers followed, with symbolic options; links between options and limits', 'Every path of New and of the growth decisions. Options are functions of known shape found by their type; the primality test is a library fact.'),
 'C31': (AI + ': index bounds and non-emptiness of the cache tables over every path of lookups, insertions and resizes', BASE),
 'C27': (AI + ': what Ithvar and NIthvar read against what New records (loop over the variables); Label, Low, High against the node given', BASE + 'That the nodes stay in the table is C14 and C17.'),
 'C22': (AI + ': each path of each operation, its operands being unconstrained, against each kind of invalid operand; lists by induction', BASE + 'Implicit panics considered: reads through a nil node and accesses to the table by the identifier of an operand.'),
 'C23': (AI + ': failure propagation: each step of each path restricted to failure, each failing path traced to a failed step or to a recorded error', BASE + 'Loops by the values that keep a failure from turn to turn. The text of the error is not decided.'),
 'C35': (AI + ': loop invariant of the search of prime numbers (no prime left out: divisor, parity, or exact test of the library; direction; stops at a prime), origin of the length of each table', BASE + 'That (*big.Int).ProbablyPrime is exact below 2^64 is a library fact; that a prime exists above each number is arithmetic.'),
 'C34': (AI + ': ranking of each loop (counter with a bound that does not move, iteration, chain, shorter list) and of each recursion (first level of the operands, list), memory of the recursions looked for before and recorded after on every path', BASE + 'That an entry of a cache is not overwritten by another one of the same slot, and how often, is not decided: no bound on the running time beyond termination and the use of the memory.'),
 'C28': (AI + ': denotation of each path against the connective; lists by induction (recursion, or loop invariant found on the accumulators)', BASE),
}
na_reasons = {
}
