#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that the text is easy to review and edit).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text},
      "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe or [], "hook_needed": None}})

BOTH = ["hudd.go", "hkernel.go", "buddy.go", "bkernel.go"]

prop("C01", "Apply computes its operator's truth table for all operands",
 "For each of the ten binary operators and any two nodes of the BDD, Apply returns the node whose function is the operator's documented truth table applied pointwise to the two operand functions. This includes every special case (constant operand, equal operands, operands rooted at different levels). An operator outside the ten is refused: nil result and error status set.",
 ["inputs"], "all operators, all pairs of operand nodes (constants, equal, different roots)",
 "The tests use and/or/imp/biimp/diff on a few formulas; a wrong truth-table row for diff leaves all of them passing, and no test looks at xor, nand, nor, less or invimp.",
 ["operations.go", "operator.go"],
 [("terminal cases + Shannon step of the apply recursion", "operations.go:apply"), ("truth tables", "operator.go:opres"), ("operator selection", "operations.go:Apply")],
 observe=["Apply"])
prop("C02", "Not computes the complement",
 "For every node n of the BDD, Not(n) returns the node whose function is the negation of n's function, with True and False exchanged.",
 ["inputs"], "all nodes",
 "Not is only exercised through the Milner and queens models on single variables.",
 ["operations.go"], [("negation recursion", "operations.go:not")], observe=["Not"])
prop("C03", "Ite computes (f & g) | (!f & h) for every triple",
 "For all nodes f, g, h, whatever the relative order of their root variables and whichever of them are constant or equal, Ite(f,g,h) returns the node of (f & g) | (!f & h).",
 ["inputs"], "all triples of nodes, all weak orderings of their levels",
 "One test computes a single Ite.",
 ["operations.go"], [("terminal cases, min3, iteLow/iteHigh cofactor selection", "operations.go:ite")], observe=["Ite"])
prop("C04", "Exist quantifies exactly the variables of varset",
 "For every node n and every varset built by Makeset, Exist(n, varset) returns the node of the existential quantification of n over exactly the variables in varset, independently of which variable sets earlier calls used. When varset is empty (True), the result is n and no error is raised.",
 ["inputs", "histories"], "all nodes, all variable sets, any earlier sequence of quantifications",
 "Quantification is only run on the Milner relation with one fixed variable set; the empty set is never tried.",
 ["operations.go", "cache.go"], [("quantification recursion", "operations.go:quant"), ("variable-set marking with a generation number", "cache.go:quantset2cache")], observe=["Exist"])
prop("C05", "AppEx equals Apply followed by Exist",
 "For the four supported operators (and, xor, or, nand), all nodes n1, n2 and every varset built by Makeset, AppEx(n1, n2, op, varset) returns the node of the existential quantification over varset of (n1 op n2), and AndExist is AppEx with conjunction. With an empty varset the result is that of Apply; any other operator is refused with nil and the error status set.",
 ["inputs", "histories"], "all operand pairs, supported operators, variable sets, and earlier calls",
 "Only and is exercised, on one model; xor, or and nand and the empty set are not.",
 ["operations.go", "cache.go", "bdd.go"], [("combined recursion", "operations.go:appquant"), ("operator/id set-up", "operations.go:AppEx")], observe=["AppEx", "AndExist"])
prop("C06", "Replace performs the renaming, whatever the variable order",
 "For every node n and every Replacer built for the BDD, Replace(n, r) returns the node of n's function with each old variable replaced by its new one, including when the renaming changes the relative order of variables. When a new variable clashes with one that n already uses on the same path, the result is nil and the error status is set, without a panic.",
 ["inputs"], "all nodes and replacers, including order-changing and clashing ones",
 "Only the order-preserving primed-to-unprimed renaming of the Milner model is run.",
 ["operations.go", "replace.go"], [("renaming recursion", "operations.go:replace"), ("re-ordering of a renamed node", "operations.go:correctify")], observe=["Replace"])
prop("C07", "NewReplacer accepts exactly the valid renamings",
 "NewReplacer never panics: it returns an error when the slices differ in length, when either contains the same index twice, when an index is outside [0..Varnum), or when a new variable is itself renamed to something else. Otherwise it returns a Replacer that maps oldvars[k] to newvars[k] for every k and every other variable to itself, with an identifier distinct from that of every other Replacer.",
 ["inputs", "histories"], "all pairs of integer slices",
 "Tests build two valid replacers.",
 ["replace.go"], [("argument validation and image construction", "replace.go:NewReplacer"), ("lookup", "replace.go:Replace")], observe=["NewReplacer", "Replacer.Replace"])
prop("C08", "Satcount is the exact number of satisfying assignments",
 "For every node n, Satcount(n) is the exact number of assignments to the Varnum variables that satisfy n, with no overflow and counting every variable that n does not mention. Computing it does not change any previously returned count.",
 ["inputs"], "all nodes, including constants, roots below level 0, edges that skip levels",
 "Checked on a handful of models whose counts are powers of two times small numbers.",
 ["operations.go"], [("memoized count with 2^(skipped levels) weights", "operations.go:satcount")], observe=["Satcount"])
prop("C09", "Allsat enumerates the satisfying assignments exactly and stops on error",
 "For every node n, the assignments that Allsat passes to its callback (0, 1, or -1 for don't care, one entry per variable) are pairwise disjoint and together cover exactly the satisfying assignments of n. As soon as the callback returns an error, Allsat makes no further call and returns that error.",
 ["inputs", "histories"], "all nodes, callbacks failing at any point",
 "The test that could compare discards its own result, and no test returns an error from the callback.",
 ["operations.go"], [("depth-first traversal with a shared profile", "operations.go:allsat")], observe=["Allsat"])
prop("C10", "Allnodes reports each reachable node exactly once, and stops on error",
 "Allnodes with roots calls its callback exactly once per non-constant node reachable from them, and without roots once per active node, each time with the node's own id, level and successors. As soon as the callback returns an error no further call is made and Allnodes returns that error; afterwards, on success or error, the BDD is as if the traversal had never happened.",
 ["inputs", "histories"], "all sets of roots, callbacks failing at any point, repeated traversals",
 "One example counts nodes of one BDD, with a callback that never fails.",
 BOTH + ["operations.go"], [("mark, visit, unmark", "hudd.go/buddy.go:allnodesfrom"), ("unmarking on early exit", "hkernel.go/bkernel.go:unmarkall")], observe=["Allnodes", "Print", "Dot"])
prop("C11", "Makeset, Makecube and Scanset build and read well-formed cubes",
 "Makeset returns the conjunction of the given variables, in whatever order they are listed, and Makecube the conjunction of the given literals; Scanset returns the levels of such a set in increasing order, so that Scanset(Makeset(a)) is a, sorted. A variable outside [0..Varnum), a length mismatch, or an unsorted list given to Makecube sets the error status, and the result is the documented failure value (False for Makeset, nil for Makecube).",
 ["inputs"], "all variable lists and polarities",
 "Tests use short sorted lists with valid variables.",
 ["operations.go"], [("bottom-up construction", "operations.go:Makeset/Makecube"), ("high-branch walk", "operations.go:Scanset")], observe=["Makeset", "Makecube", "Scanset"])
prop("C12", "Equal functions get the same node (no duplicate or redundant node)",
 "The BDD never contains two live nodes with the same level and successors, nor a node whose two successors are equal: asking for such a triple returns the existing node, respectively the successor itself. This holds in both implementations, so that equality of node ids decides equivalence of functions.",
 ["inputs", "histories"], "all (level, low, high) triples and all table states",
 "Tests compare a few results; a duplicate only appears for particular triples, hash values or table sizes.",
 BOTH, [("lookup before insertion", "hkernel.go/bkernel.go:makenode"), ("key / hash of a triple", "hudd.go:huddhash, buddy.go:nodehash")], observe=["Makenode", "Equal"])
prop("C13", "Variables are strictly ordered along every path",
 "Every node that the library's operations create has a level in [0..Varnum) that is strictly smaller than the level of each of its two successors.",
 ["inputs"], "all node-creating operations and all operands",
 "An ill-ordered node still prints and counts plausibly; tests only build from sorted input.",
 ["operations.go"], [("level argument of each node construction", "operations.go")], observe=["Allnodes"])
prop("C14", "Garbage collection never reclaims or alters a node in use",
 "When unused nodes are reclaimed, every node reachable from a node the user still holds, from a node protected on the internal reference stack, or from a variable or constant survives with its id, level and successors unchanged. Only unreachable nodes become available again.",
 ["histories", "schedules"], "all table contents and all sets of external and internal references at a collection",
 "When a collection happens depends on table size and on the Go runtime; tests hit a few collections of two models.",
 BOTH, [("marking from the reference stack and from positive reference counts", "hkernel.go/bkernel.go:gbc, markrec"), ("sweep", "hkernel.go/bkernel.go:gbc")], observe=["any node held across a collection"])
prop("C15", "Collection and resizing keep the node table consistent",
 "After a collection or a resize, every surviving node can still be found from its (level, low, high) triple, no reclaimed node can, every unused slot is on the free list exactly once, and the count of free nodes is exact. Existing nodes keep their contents when the table grows.",
 ["histories"], "all table contents at a collection or resize, all growth sizes",
 "Only a few resizes happen in the tests; a lost entry shows up as a duplicate node much later.",
 BOTH, [("sweep and rehash", "gbc"), ("growth and rehash", "noderesize"), ("insertion in a free slot", "makenode/setnode")], observe=["Allnodes", "Equal", "Stats"])
prop("C16", "Intermediate results are protected from collection while in use",
 "During any operation, every intermediate node that is used after a point where a collection can run is protected at that point, so that no operation ever uses a reclaimed node whatever the moment at which collections occur. Protection is released in step with acquisition on every path, including error paths.",
 ["schedules", "inputs", "histories"], "every possible collection point inside every operation",
 "Needs a collection exactly between two steps of a recursion; table sizes in the tests make this rare.",
 ["operations.go", "bdd.go"], [("reference stack", "bdd.go:Initref/Pushref/Popref")], observe=["results of all operations"])
prop("C17", "A node stays alive exactly as long as the user holds a reference",
 "Each node handed to the user counts as one reference for as long as the Go runtime considers it reachable, and is released at most once after that; a node with very many references (up to and beyond the counter's capacity) is never released early. Nodes that are passed to an operation, or being traversed while a user callback runs, stay alive until that operation returns.",
 ["schedules", "histories"], "any number of references to a node, any order of finalization",
 "Depends on the finalizer schedule, and on more than a thousand references to the same node.",
 BOTH + ["operations.go"], [("reference counting", "hkernel.go/bkernel.go:Retnode"), ("finalizer", "hudd.go/buddy.go:New")], observe=["nodes held by the user"])
prop("C18", "Cached results are discarded whenever nodes are reclaimed",
 "Whenever a collection may have reclaimed nodes, no result remembered before it, of any operation, is used after it: in particular also when the table was resized, and when the request that triggered the collection failed.",
 ["histories", "schedules"], "every collection, for every operation that remembers results",
 "A stale entry only matters if its node ids are reused and the same operands come back.",
 ["bdd.go", "cache.go"], [("reset/resize of the caches after a collection", "bdd.go:Makenode"), ("cachereset, cacheresize", "cache.go")], observe=["results of all operations"])
prop("C19", "A remembered result is only returned for the same request",
 "A cached result is returned only for a request with the same operation, the same operands and the same parameters (operator, variable set, replacer) as the one that produced it; results of different operations never answer for one another.",
 ["inputs", "histories"], "all pairs of requests that share a cache slot",
 "Requires two requests that collide in a cache and differ in just the parameter that is not compared.",
 ["cache.go", "operations.go"], [("match*/set* pairs", "cache.go"), ("cache ids", "operations.go:Exist, AppEx, Replace")], observe=["results of all operations"])
prop("C20", "Finalizers may run at any time, concurrently with operations",
 "The Go runtime may release nodes on its own goroutine at any moment, also in the middle of an operation, a collection or a resize, without a data race and without a reference count update being lost.",
 ["schedules"], "all interleavings of one user goroutine with the finalizer goroutine",
 "Needs the finalizer to run inside a window of a few instructions; tests are not run with the race detector.",
 BOTH, [("lock around reference counts and table replacement", "Retnode, gbc, noderesize, finalizer")], observe=["reference counts"])
prop("C21", "Locks are always released and never taken twice",
 "No operation returns, panics on valid input, or calls user code while holding an internal lock, and no operation acquires an internal lock that it already holds; so no sequence of calls can deadlock, whatever the callbacks do and whenever finalizers run.",
 ["schedules", "inputs"], "all paths of all operations, all callbacks",
 "A leaked or nested lock only blocks when the finalizer waits at the same time, or on a rare exit path.",
 ["hudd.go", "hkernel.go", "buddy.go", "bkernel.go"], [("RWMutex in the table", "hudd.go")], observe=["all operations"])
prop("C22", "Invalid nodes are refused with an error, never a panic",
 "Every operation given a nil node, a node whose id is out of range, or a node that was reclaimed, alone or in a list of nodes, reports it through the error status (or its error result) and returns its documented failure value; it does not panic and builds no node from it. In particular, calls can be chained on a nil result. (Equal, which only compares, does not panic.)",
 ["inputs"], "all operations, each operand position, each kind of invalid node",
 "No test passes an invalid node.",
 ["bdd.go", "operations.go", "stdio.go"], [("operand check", "bdd.go:checkptr")], observe=["all exported operations"])
prop("C23", "Every failure is visible: nil result means error status set, for good",
 "When an operation returns a nil node the error status is set, once set it is never cleared, and a failed internal step never leads to a non-nil result or to a node being created from it. In particular, when the table cannot grow, the operation returns nil with the error status set, and does not panic.",
 ["inputs", "histories", "fault_sequences"], "all operations, allocation failure at any node creation",
 "No test makes an allocation fail.",
 ["bdd.go", "errors.go", "operations.go"], [("error status", "errors.go:seterror"), ("allocation failure", "bdd.go:Makenode")], observe=["Error", "Errored", "results of operations"])
prop("C24", "Configuration options and size limits are honoured",
 "Each option given to New reaches the mechanism that it documents: initial size, maximal size, maximal increase, minimal free ratio, cache size and cache ratio. The node table never grows beyond the maximal size nor by more than the maximal increase at once, and New refuses a number of variables outside [1..2^21-1] with an error and a nil BDD.",
 ["configurations", "histories"], "all option values and all growth steps",
 "Tests set few options and check none of the limits.",
 ["config.go", "hudd.go", "buddy.go", "hkernel.go", "bkernel.go", "cache.go"], [("options", "config.go"), ("copy into the table", "New"), ("growth bound", "noderesize")], observe=["New", "Stats"])
prop("C25", "The debug build computes the same results",
 "Building with the tag debug only adds logging and statistics: every operation returns the same results, sets the same errors and leaves the same nodes and cached results as without it. The statistics counters have no influence on results. (Assertions of the debug build may panic on a misuse of the kernel functions, which the other build ignores.)",
 ["configurations", "inputs"], "all operations under both settings of the tag",
 "The test script never runs the debug build.",
 ["debug.go", "nodebug.go"] + BOTH + ["cache.go", "operations.go", "errors.go"], [("code guarded by the debug constant", "all files")], observe=["all operations"])
prop("C26", "Separate BDDs do not interfere",
 "Operations on one BDD never change the state or the results of another one, and distinct BDDs can be used from different goroutines at the same time without a data race.",
 ["schedules", "histories"], "all interleavings of operations on distinct BDDs",
 "Tests use one BDD at a time.",
 ["bdd.go", "replace.go", "operator.go", "stdio.go"], [("package-level variables", "all files")], observe=["all operations"])
prop("C27", "Variables and constants are permanent and correctly answered",
 "Ithvar(i) and NIthvar(i) return the i'th variable and its negation for each i in [0..Varnum), at any time and after any number of collections, and an error with nil for every other integer. Label, Low and High return the variable and the two branches of the node itself, True and False always have id 1 and 0.",
 ["inputs", "histories"], "all integers i, all nodes, after any history",
 "Tests never ask for an invalid variable, and do not check variables after a collection.",
 ["bdd.go", "hudd.go", "buddy.go"], [("variables with a sticky reference count", "New"), ("accessors", "bdd.go")], observe=["Ithvar", "NIthvar", "Label", "Low", "High", "True", "False"])
prop("C28", "Derived connectives agree with the basic operations",
 "And and Or of any number of nodes are their conjunction and disjunction (True and False for none), Imp and Equiv are implication and equivalence of their two arguments in order, From maps true to True and false to False, and Equal holds exactly between nodes that denote the same function.",
 ["inputs"], "all arities and operands",
 "The tests use short argument lists and never a wrong order of Imp.",
 ["bdd.go"], [("delegation to Apply", "bdd.go")], observe=["And", "Or", "Imp", "Equiv", "Equal", "From"])
prop("C29", "A live node's level and successors never change",
 "Once created and as long as it is in use, a node keeps its id, level and successors; queries (Satcount, Allsat, Allnodes, Scanset, Label, Low, High, Stats, Print, Dot, Equal) create no node and leave no trace in the node table.",
 ["histories"], "all operations and queries, any history",
 "Only observable as an unrelated node changing meaning.",
 BOTH + ["operations.go", "stdio.go"], [("who may write node contents", "makenode/setnode, gbc, noderesize")], observe=["Low", "High", "Label", "Allnodes"])
prop("C30", "Print and Dot describe the BDD faithfully",
 "Print writes one row per non-constant node visited by Allnodes with its id, level and both successors in increasing order of ids; Dot writes one vertex per such node, a dotted edge to its low successor and a filled one to its high successor, omitting only edges to False. Both report an invalid node or an errored BDD instead of output that looks valid.",
 ["inputs"], "all nodes and sets of roots",
 "No test looks at the output.",
 ["stdio.go"], [("visitor callbacks", "stdio.go:Print, Dot")], observe=["Print", "Dot"])
prop("C31", "Hash and cache lookups stay within their tables",
 "Whatever the operands, table size and cache settings (including zero or negative sizes and ratios), every lookup in the node table's hash chains and in the operation caches addresses an existing entry, also right after the tables were resized.",
 ["inputs", "configurations", "histories"], "all ids, levels, sizes and ratios",
 "Depends on overflow of the pairing function and on unusual sizes.",
 ["cache.go", "bkernel.go", "buddy.go", "primes.go"], [("reduction modulo the table length", "cache.go:_PAIR, match*, set*")], observe=["all operations"])
prop("C32", "Arguments are never modified",
 "No operation modifies the slices or nodes that the user passes to it, or keeps a reference to a slice after it returned.",
 ["inputs", "histories"], "all operations taking slices or nodes",
 "Only visible to a caller that reuses its slice.",
 ["operations.go", "replace.go", "bdd.go"], [("reads only", "Makeset, Makecube, NewReplacer, And, Or, Allnodes")], observe=["arguments of exported operations"])
prop("C33", "Both implementations offer the same interface in every build",
 "With or without the tags buddy and debug, the package compiles, exactly one implementation of the node table is selected, and the exported interface (functions, methods, types, constants) is the same.",
 ["configurations"], "the four tag combinations, on 32- and 64-bit targets",
 "Tests run two of the four tag combinations on one architecture and use part of the interface.",
 BOTH + ["debug.go", "nodebug.go"], [("build constraints", "first lines of the files")], observe=["exported API"])
prop("C34", "Operations terminate and remember what they computed",
 "Every operation terminates, whatever its operands, the tables and the caches. The operations that go through shared nodes do not compute the same result again and again: Not, Apply, Ite, Exist, AppEx and Replace look for each request in their operation cache before they go below it and record each result there, True and False included, where the same request will look for it; Satcount keeps the number found for each node during the call; a traversal of a BDD (Allnodes, Print, Dot, the marking of a collection) goes below each node once. An operation cache only loses a result when another one takes its place or when nodes are reclaimed. (No other bound on running time and memory is stated.)",
 ["inputs", "histories"], "all operands, tables and caches",
 "Tests run small models, on which a result that is computed again only costs time.",
 ["operations.go", "cache.go", "hkernel.go", "bkernel.go", "primes.go"], [("recursion on smaller levels", "operations.go:apply, not, ite, quant, appquant, replace"), ("memory of results", "cache.go:match*, set*"), ("one visit per node", "markrec")], observe=["all operations"])
prop("C35", "Table sizes are primes close to the requested size",
 "The length of each operation cache is the smallest prime not below the size requested (option Cachesize or its default; the ratio of the node table after a resize), and so is the initial length of the node table of the BuDDy variant (option Nodesize); when this table grows, its length is the largest prime not above the size computed from the limits. (For requested sizes of at least 3, smaller ones being rounded up to 3.)",
 ["inputs"], "all requested sizes",
 "Tests use a few sizes.",
 ["primes.go"], [("primeGte, primeLte", "primes.go")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
