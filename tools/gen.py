#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, tech, note, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, observe=observe, state=state))

MAP, SET, TRIE = "src/map.rs", "src/set.rs", "src/hash_trie.rs"
C, L, M, S = "src/node/cnode.rs", "src/node/lnode.rs", "src/node/mnode.rs", "src/node/snode.rs"
BIA, FLAG, TF, TR, EN, RES = "src/bit_indexed_array.rs", "src/flag.rs", "src/transformations.rs", "src/traits.rs", "src/enums.rs", "src/results.rs"
NODES = [C, L, M, S]
def m(*xs):
    return [dict(name=n, where=w) for n, w in xs]

EXPL = "Exploration: bounded random search, no proof. "

prop("P01", "A map behaves like a mathematical map under point operations",
  "Starting from an empty map, after any sequence of inserts (with or without replacement), removals and look-ups, find, visit and size show exactly the entries a reference map would hold, each entry visited once. An insert that must not replace refuses exactly when the key is present, with replacement it always takes effect, a removal succeeds exactly when the key is present, and a refused insert or failed removal changes nothing. An insert that is refused or replaces hands back the entry that was there, a removal the one it removed. All of this holds whatever the keys' hashes are, including equal hashes and hashes that differ only in their last bits.",
  ["histories", "inputs", "configurations"],
  "every sequence of point operations, every assignment of hashes to keys (all equal, equal prefixes of any length, differing in the last level only), every tried combination of flag width and hash width",
  "The tests insert a few hundred consecutive or random integers with one hasher and one configuration; equal hashes, deep common prefixes and removals that shrink nodes hardly occur.",
  [MAP, TRIE] + NODES + [BIA, FLAG],
  m(("descent by hash bits", "src/node/cnode.rs find, insert, remove"), ("hash collision lists", "src/node/lnode.rs insert, remove"), ("bit-indexed children", "src/bit_indexed_array.rs inserted, updated, removed"), ("next hash bits", "src/flag.rs new_at_depth, next")),
  "stateful model-based property-based testing against an ordered-map model, keys with chosen hashes",
  "Histories of up to some tens of steps (hundreds in the thorough tier) over 16 configurations of flag and hash words; keys carry any hash. The model is std's BTreeMap.",
  ["Map::find", "Map::visit", "Map::size", "Ok/Err of insert and remove"])
prop("P02", "A set behaves like a mathematical set under point operations",
  "Starting from an empty set, after any sequence of inserts (with or without replacement), removals and look-ups, find, visit and size show exactly the keys a reference set would hold, each key visited once. An insert that must not replace refuses exactly when the key is present and keeps the stored key, with replacement the stored key becomes the new one, and a removal succeeds exactly when the key is present; each hands back the key that was there. All of this holds whatever the keys' hashes are.",
  ["histories", "inputs", "configurations"],
  "every sequence of point operations, every assignment of hashes to keys, every tried combination of flag width and hash width",
  "The tests check a few hundred integers, one configuration, and cannot tell which of two equal keys is stored.",
  [SET, TRIE] + NODES + [BIA, FLAG],
  m(("set facade over the trie", "src/set.rs insert, remove, find, visit, size"), ("descent by hash bits", "src/node/cnode.rs find, insert, remove"), ("hash collision lists", "src/node/lnode.rs insert, remove")),
  "stateful model-based property-based testing against an ordered-map model, keys with chosen hashes and identity tags",
  "As P01; keys carry a tag that equality ignores, so that the stored key can be told from an equal one.",
  ["Set::find", "Set::visit", "Set::size", "Ok/Err of insert and remove"])
prop("P03", "Old versions never change",
  "Every version of a map or set keeps showing the entries it showed when it was made, at the same addresses, for as long as it is alive, whatever point and bulk operations are applied to it, to its ancestors and to its descendants and whichever of those are dropped.",
  ["histories", "inputs"],
  "every branching history of operations on any living version and every order of dropping versions",
  "The tests look at the newest version only; a shared node modified in place shows in an older one.",
  [MAP, SET, TRIE] + NODES + [BIA],
  m(("copy on write of nodes", "src/node/cnode.rs insert, remove; src/bit_indexed_array.rs inserted, updated, removed"), ("reference counted sharing", "src/node/mnode.rs, src/node/cnode.rs clone")),
  "stateful model-based property-based testing: every version re-verified after every few steps",
  "Histories branch from any earlier version; all versions are compared with their models, and entry addresses with those recorded when they were made.",
  ["find, visit and size of every living version", "addresses of entries"])
prop("P04", "References handed out lead to the right entries",
  "The reference find returns, the pointers a successful insert returns to the stored entry and to the entry it replaced, the references a refused insert returns to the entry already there, and the pointers a removal returns to what it removed all show exactly that entry: the right key instance and value, at the address where the container that holds it stores it.",
  ["histories", "inputs"],
  "every history of point operations and every placement of the key: alone, in a collision list at any position, next to a shared prefix",
  "The tests ignore most of what insert and remove hand back; a pointer to a stale or neighbouring entry passes them.",
  [MAP, SET, TRIE, RES] + NODES,
  m(("results with references", "src/results.rs"), ("references threaded through insert and remove", "src/node/cnode.rs insert, remove; src/node/lnode.rs insert, remove; src/node/mnode.rs; src/node/snode.rs")),
  "stateful model-based property-based testing with instances told apart by tags and addresses",
  "Whatever is handed out is compared with the model's instance and with the address that visit reports for it.",
  ["return values of find, insert and remove"])
prop("P05", "Behaviour does not depend on hashes or on configuration",
  "The same operations on the same keys give the same results and the same contents under any two hash functions and any two choices of flag and hash words; hashing affects speed and nothing else.",
  ["configurations", "histories", "inputs"],
  "every pair of configurations and of assignments of hashes to keys, over histories that mix point and bulk operations",
  "The tests run one configuration with one hasher.",
  [MAP, SET, TRIE, FLAG, TR, BIA] + NODES,
  m(("flag words", "src/flag.rs new_at_depth, next"), ("bit counting and shifting of words", "src/traits.rs"), ("array of one to 128 children", "src/bit_indexed_array.rs")),
  "metamorphic property-based testing: one history under two configurations and two hash assignments",
  "Sixteen configurations of u8 to u128 words for point operations, five for mixed histories; the two runs are compared step by step, ties broken by the model where either answer is right.",
  ["results and contents of every step in both runs"])
prop("P06", "Ordinary keys and ordinary hashers work at every hash width",
  "Maps and sets of ordinary keys (integers, strings, tuples, options) behave like the standard library's under ordinary hashers (Fnv, SipHash and hashers with poor low or high bits) at hash words of 8, 16, 32 and 64 bits and with the default aliases: any hasher result is accepted, and the contents are always those of the reference.",
  ["inputs", "configurations", "histories"],
  "every sequence of inserts, removals, transforms and joins, every key value, every hash width up to 64 bits",
  "The tests use integers with 64-bit words only.",
  [TR, MAP, SET, TRIE, FLAG] + NODES,
  m(("hash words from hasher results", "src/traits.rs hasher_bv_impl"), ("default aliases", "src/lib.rs")),
  "differential property-based testing against std's BTreeMap and BTreeSet",
  "Real key types and hashers rather than instrumented ones; up to some hundreds of keys.",
  ["contents and results"])
prop("P07", "Histories that mix point and bulk operations stay right",
  "Whatever sequence of inserts, removals, transforms and joins made it, a map or set shows exactly what a reference model shows, and it can go on being used like one that was built by inserts alone: every present key can be found and removed, every absent key inserted, down to the empty container.",
  ["histories", "inputs"],
  "every history mixing point operations, transforms and joins of any two living versions",
  "The tests apply one bulk operation to freshly built containers and look at the result's size or a few keys; malformed inner structure shows only under later operations.",
  [MAP, SET, TRIE] + NODES + [BIA],
  m(("normal form of results", "src/node/cnode.rs transform_impl, transform_with_transformed_cnode_impl; src/node/lnode.rs *_result"), ("counting entries", "src/node/cnode.rs size")),
  "stateful model-based property-based testing; results are taken apart key by key",
  "Results of bulk operations are drained by removals and refilled, each step compared with the model.",
  ["find, visit, size after each step", "drain to empty"])
prop("P08", "Transform applies its operation once to every entry",
  "Transforming a map or set calls the operation exactly once for every entry with that entry's key and value, and the result holds exactly the entries the operation kept (unchanged) or gave a new value; the returned reduction combines each call's contribution exactly once. The input stays as it was.",
  ["inputs", "configurations"],
  "every container and every outcome assigned to each of its entries, constants included, under either parallelism strategy",
  "The tests use one or two uniform closures; a wrong outcome for one position in a node or list, or a contribution lost in the reduction, goes unseen.",
  [MAP, SET, TRIE] + NODES,
  m(("transform of inner nodes", "src/node/cnode.rs transform, transform_impl"), ("transform of collision lists", "src/node/lnode.rs transform"), ("transform of single entries", "src/node/snode.rs transform")),
  "model-based property-based testing with logged operations and a reduction that counts contributions",
  "Outcome tables are random per key; the log of calls, the contents and a reduction that sums hashes of contributions are compared with the model.",
  ["log of calls", "result's contents", "reduction"])
prop("P09", "Transmute builds a container of another type entry by entry",
  "Transmuting a map or set calls the operation exactly once for every entry with that entry's key and value; the result, of another key or value type, holds exactly the entries the operation asked for, findable under their new keys, and the reduction combines each call's contribution exactly once.",
  ["inputs", "configurations"],
  "every container and every outcome assigned to each entry, including new keys of another type that hash alike",
  "The tests transmute one integer container with one closure.",
  [MAP, SET, TRIE] + NODES,
  m(("transmute of inner nodes", "src/node/cnode.rs transmute"), ("transmute of lists and single entries", "src/node/lnode.rs transmute, src/node/snode.rs transmute")),
  "model-based property-based testing with logged operations",
  "As P08, with a result of other key and value types; the result is drained afterwards.",
  ["log of calls", "result's contents", "reduction"])
JOIN_TEXT = "every pair of containers (independent, with a common ancestor, one empty, one inside the other, collision lists meeting lists, single entries and nodes), every outcome assigned to each entry, constants and closures, flips, either strategy"
JOIN_WHY = "The tests join integer ranges with one uniform operation; lists of equal hashes of different lengths, lists meeting nodes and entry-dependent outcomes do not occur."
prop("P10", "Joining two maps treats every key exactly once, on the right side",
  "Joining two maps calls the joint operation exactly once for each key in both, with the left and the right value in their order, and each side's own operation exactly once for each key only that side has. The result holds exactly the entries the outcomes say, keeping left's, right's or either stored entry or a new value, and the reduction combines every contribution exactly once; both inputs stay as they were.",
  ["inputs", "configurations"], JOIN_TEXT, JOIN_WHY,
  [MAP, TRIE, TF] + NODES,
  m(("join of nodes", "src/node/cnode.rs transform_with_transformed_cnode, _lnode, _snode"), ("join of lists", "src/node/lnode.rs transform_with_transformed_lnode, _snode"), ("flipped operations", "src/transformations.rs flip")),
  "model-based property-based testing with logged operations over generated pairs of maps",
  "Outcome tables per key for all three operations; log, contents and reduction compared with the model.",
  ["log of calls", "result's contents", "reduction"])
prop("P11", "Mixed joins follow the outcome of every entry",
  "The joins that build a result of another type or take a right container of another type call each operation exactly once per entry it is responsible for, with left and right arguments in their places; the result holds exactly what the outcomes say, and the reduction combines every contribution exactly once.",
  ["inputs", "configurations"], JOIN_TEXT, JOIN_WHY,
  [MAP, SET, TRIE, TF] + NODES,
  m(("mixed joins of nodes", "src/node/cnode.rs transform_with_transmuted_cnode, transmute_with_transformed_cnode"), ("mixed joins of lists", "src/node/lnode.rs transform_with_transmuted_lnode, transmute_with_transformed_lnode")),
  "model-based property-based testing with logged operations over generated pairs of containers",
  "Four joins of maps and two of sets: transform-with-transfuted/-transmuted and their mirrors.",
  ["log of calls", "result's contents", "reduction"])
prop("P12", "Joins into a third type follow the outcome of every entry",
  "Joining two containers of different types into a result of a third type calls each operation exactly once per entry it is responsible for, with left and right arguments in their places; the result holds exactly the entries the operations asked for and the reduction combines every contribution exactly once.",
  ["inputs", "configurations"], JOIN_TEXT, JOIN_WHY,
  [MAP, SET, TRIE, TF] + NODES,
  m(("joins of nodes", "src/node/cnode.rs transmute_with_transmuted_cnode, _lnode, _snode"), ("joins of lists", "src/node/lnode.rs transmute_with_transmuted_lnode, _snode")),
  "model-based property-based testing with logged operations over generated pairs of containers",
  "Maps and sets; results are drained afterwards.",
  ["log of calls", "result's contents", "reduction"])
prop("P13", "Joining two sets treats every key exactly once, on the right side",
  "Joining two sets calls the joint operation exactly once for each key in both, with left's and right's key in their order, and each side's own operation exactly once for each key only that side has; the result holds exactly the keys the outcomes keep, from the side they say, and the reduction combines every contribution exactly once.",
  ["inputs", "configurations"], JOIN_TEXT, JOIN_WHY,
  [SET, TRIE, TF] + NODES,
  m(("join of nodes", "src/node/cnode.rs transform_with_transformed_cnode, _lnode, _snode"), ("join of lists", "src/node/lnode.rs transform_with_transformed_lnode, _snode"), ("set operations", "src/transformations.rs SetJointTransform, SetTransform")),
  "model-based property-based testing with logged operations over generated pairs of sets",
  "Union, intersection, difference and symmetric difference are among the generated outcomes.",
  ["log of calls", "result's contents", "reduction"])
prop("P14", "Both parallelism strategies give the same result",
  "Every bulk operation gives the same contents, calls its operations on the same entries and reduces the same contributions of those calls under sequential and under parallel execution; the default strategy is sequential, and sequential execution stays on the caller's thread.",
  ["configurations", "inputs", "schedules"],
  "every bulk operation of maps and sets, every pair of containers, both strategies",
  "The tests never compare the two, and the parallel tests use uniform operations.",
  [EN, MAP, SET, TRIE, C],
  m(("strategy", "src/enums.rs ParallelismStrategy"), ("joined futures", "src/node/cnode.rs transform_impl and the other *_impl")),
  "differential property-based testing: each operation under both strategies",
  "Contents, sorted logs, reductions and, for the sequential run, the threads on which operations were called.",
  ["contents, logs and reductions under both strategies", "threads of the calls"])
prop("P15", "A constant operation equals the closure that always gives that outcome",
  "In every bulk operation, and in each of its operation slots, a constant outcome leads to the same contents as a closure that returns this outcome for every entry, and the other slots' closures are called on the same entries.",
  ["inputs", "configurations"],
  "every bulk operation, every subset of slots made constant, every pair of containers",
  "The shortcuts for constants apply to whole subtries at once; the tests do not compare them with the long way.",
  [MAP, SET, TRIE, TF] + NODES,
  m(("constant shortcuts", "src/node/cnode.rs transform, transform_with_transformed_cnode; src/node/lnode.rs; src/node/mnode.rs"), ("operation objects", "src/transformations.rs new_constant, call")),
  "differential property-based testing: constant operations against equivalent closures",
  "All bulk operations of maps and sets; where either stored entry is right, both are accepted.",
  ["contents and calls"])
prop("P16", "Equality of containers is an equivalence that implies equal contents",
  "Comparing maps (or sets) for equality is reflexive, symmetric and transitive; two that compare equal show the same entries, and a clone always compares equal to its original, as does the result of transforming a non-empty container with an operation that keeps every entry.",
  ["histories", "inputs"],
  "every collection of versions that arises from branching histories with transforms and joins",
  "The tests never compare containers for equality beyond one case.",
  [MAP, SET, TRIE] + NODES,
  m(("equality by storage", "src/node/cnode.rs, src/node/lnode.rs, src/node/snode.rs PartialEq"), ("reuse of unchanged nodes", "src/node/cnode.rs transform_impl")),
  "property-based testing of algebraic laws over versions of generated histories",
  "All pairs and triples of up to a few tens of versions. Unequal containers may have equal contents: equality is by storage.",
  ["== between versions"])
prop("P17", "Versions share the memory of entries they have in common",
  "An insert, replacement or removal leaves every other entry whose hash differs where it is in memory, shared with the old version, and copies at most the entries of the key's own hash; cloning copies no entry. Bulk operations that keep an entry's container type share the entries they keep instead of copying them, up to entries whose hashes collide.",
  ["histories", "inputs"],
  "every history of point operations and every transform and join of generated pairs",
  "Sharing is invisible in results; no test looks at addresses or counts clones.",
  [MAP, SET, TRIE] + NODES + [BIA],
  m(("copying the path to a key", "src/node/cnode.rs insert, remove"), ("reusing nodes of either side", "src/node/cnode.rs transform_impl, transform_with_transformed_cnode_impl; src/node/lnode.rs *_result")),
  "property-based testing with entry addresses and clone counters",
  "Addresses of entries before and after; clones of keys and values are counted by instrumented types.",
  ["addresses of entries", "number of clones"])
prop("P18", "Entries live exactly as long as a container that holds them",
  "Through any history of operations and drops, the key and value instances alive are exactly those that some living container shows: nothing is dropped twice or used after its drop, dropping one container leaves all others intact, and after the last one is gone nothing is left.",
  ["histories", "inputs"],
  "every history of point and bulk operations and every order in which versions are dropped",
  "The tests cannot see leaks, and see double drops only if they happen to crash.",
  [MAP, SET, TRIE] + NODES + [BIA],
  m(("uninitialised arrays filled by hand", "src/bit_indexed_array.rs new_bit_indexed_array, inserted, removed"), ("reference counts", "src/node/cnode.rs, src/node/lnode.rs, src/node/snode.rs")),
  "stateful property-based testing with instrumented keys and values that record their own life",
  "Counts of living instances and canaries in every instance; checked after drops in generated orders.",
  ["living instances", "uses of dead instances"])
prop("P19", "Word operations agree with their definitions for every width",
  "For every unsigned word type that flags and hashes may use, bit width, bit counting, single-bit selection, shifting, conversion and the reduction of a hasher's result to a word agree with plain arithmetic for all values and shift distances they are defined for.",
  ["inputs", "configurations"],
  "all values of u8, random and boundary values of the other widths, all shift distances",
  "The tests touch none of these directly and only 64-bit words through containers.",
  [TR, FLAG],
  m(("word traits", "src/traits.rs"), ("flags", "src/flag.rs")),
  "property-based testing against arithmetic on u128, exhaustive for narrow words",
  "u8, u16, u32, u64, u128, usize as far as the traits are implemented.",
  ["values of trait functions"])
prop("P20", "Operation objects mean what they were made from, also when flipped",
  "An operation object answers each call as the closure (or constant) it was made from does; a flipped one answers as the original with its two sides swapped, constants included; and flipping twice gives back the original's behaviour. This holds wherever the object is asked: by a direct call, or by a join of maps or sets it is handed to.",
  ["inputs", "programs"],
  "every kind of operation object and constructor, every outcome, every number of flips",
  "The tests never flip a constant operation and flip few closures.",
  [TF],
  m(("operation objects", "src/transformations.rs call, flip and constructors")),
  "property-based testing of laws against the original closures",
  "All operation objects of maps and sets, all constructors, zero to four flips, called directly and from joins (straight, flipped, flipped with the sides swapped).",
  ["answers of call"])
prop("P21", "Look-alike keys work as the stored keys they stand for",
  "Finding, inserting and removing with a value of another type that hashes and compares like a stored key does what the equivalent stored key would do: the same outcome, the same entry handed back, the same resulting contents; what an insert stores is the look-alike converted once.",
  ["histories", "inputs"],
  "every history of point operations with stored keys replaced by look-alikes, under any hashes",
  "The tests use look-alikes only through the key type itself.",
  [TR, MAP, SET, TRIE] + NODES,
  m(("look-alike keys", "src/traits.rs HashLike"), ("generic point operations", "src/map.rs, src/set.rs, src/node/cnode.rs find, insert, remove")),
  "differential property-based testing: one history with stored keys, one with look-alikes",
  "Outcomes, entries, addresses and contents are compared at every step.",
  ["results and contents in both runs"])
prop("P22", "Containers can be shared between threads",
  "Several threads that work on the same maps or sets at the same time each get exactly the results they would get alone, whatever the interleaving; what they make can be handed to other threads, the shared containers stay as they were, and in the end every entry has been dropped exactly once.",
  ["schedules", "histories", "inputs"],
  "every interleaving of two to four threads at the calls into keys, values and operations, and free-running threads",
  "The tests use one thread.",
  [MAP, SET, TRIE] + NODES + [BIA],
  m(("atomic reference counts", "src/node/*.rs Arc"), ("no interior mutability", "src/node/*.rs"), ("Send and Sync bounds", "src/traits.rs Key, Value")),
  "model-based property-based testing of concurrent histories under a generated scheduler script",
  "Switches happen at callbacks (hash, compare, clone, drop, operation); between callbacks only the free-running third of the cases interleaves.",
  ["results of every thread", "shared containers", "living instances"])
prop("P23", "A panic in user code leaves everything intact",
  "If hashing, comparing, cloning or an operation panics in the middle of any point or bulk operation, the panic reaches the caller, the containers involved stay exactly as they were and remain usable, nothing is dropped twice or leaked, and the operation repeated without the panic gives the right result.",
  ["fault_sequences", "histories", "inputs"],
  "every operation and every callback in it as the place of the panic",
  "The tests inject no faults.",
  [MAP, SET, TRIE] + NODES + [BIA],
  m(("unwinding through half-built arrays", "src/bit_indexed_array.rs new_bit_indexed_array"), ("inputs borrowed, results by value", "src/map.rs, src/set.rs")),
  "property-based testing with a panic injected at a generated callback",
  "The place of the panic is generated among all callbacks of the operation; afterwards inputs are re-verified, living instances counted and the operation repeated.",
  ["inputs after the panic", "living instances", "result of the repeated operation"])
prop("P24", "Work grows only with what an operation has to look at",
  "A find, insert or removal compares, hashes, clones and allocates in proportion to the depth of the trie and the number of entries with equal hashes, never to the size of the container; a failed look-up or removal allocates nothing. None of them takes time in proportion to the container's size, and neither does asking for the size, cloning, or comparing two containers. A bulk operation's work is proportional to the number of entries of its inputs and of pairs with equal hashes.",
  ["inputs", "histories"],
  "every container and operation; counts of comparisons, hashes, clones and allocations, and time on large containers against that of visiting all entries",
  "The tests do not count anything.",
  [MAP, SET, TRIE] + NODES + [BIA],
  m(("descent along one path", "src/node/cnode.rs find, insert, remove"), ("joins descend both tries together", "src/node/cnode.rs transform_with_transformed_cnode")),
  "property-based testing with counted callbacks and allocations against generous bounds",
  "Bounds are three to four times today's maximum; time is held against a quarter of that of a visit of 12,000 entries and more (today at most a twentieth), the shortest of twenty runs, best of four tries.",
  ["counts of comparisons, hashes, clones, allocations"])
prop("P25", "The laws of set algebra and of composition hold",
  "Union, intersection, difference and symmetric difference expressed as joins obey the laws of set algebra (commuting, associating, distributing, absorbing, De Morgan with differences), joining with flipped operations and swapped sides gives the mirrored join's contents, and two transforms in a row equal their composition.",
  ["inputs", "programs"],
  "every three containers and every law, operations written as constants or as closures, either strategy",
  "The tests compute single joins of ranges and never relate two computations.",
  [MAP, SET, TRIE, TF] + NODES,
  m(("joins", "src/node/cnode.rs transform_with_transformed_cnode; src/node/lnode.rs transform_with_transformed_lnode"), ("flip", "src/transformations.rs flip")),
  "metamorphic property-based testing of twelve laws",
  "Both sides of each law are computed through the library and compared, and the results are taken apart.",
  ["contents of both sides"])

prop("P26", "Bulk operations as futures: lazy, abandonable, complete by themselves",
  "The future of a bulk operation does nothing until it is polled; dropped before it is polled, or between two polls, it leaves the containers as they were and nothing alive; polled to its end it finishes without help from any particular executor, and other operations on the same containers that run between its polls neither disturb it nor are disturbed by it.",
  ["schedules", "inputs", "fault_sequences"],
  "every bulk operation that is a future, every poll at which it is dropped or another operation runs, every pair of containers",
  "The tests block on every future at once and never drop one.",
  [MAP, SET, TRIE] + NODES,
  m(("asynchronous bulk operations", "src/map.rs, src/set.rs transform, transform_with_*, transmute_with_*, transfute_with_*"), ("joined futures", "src/node/cnode.rs transform_impl and the other *_impl")),
  "property-based testing under a generated schedule of polls, with abandonment as the injected fault",
  "The results alone are the oracle, counters show that an unpolled future did nothing. A future that waits without a waker is a violation. Today's futures are ready at the first poll.",
  ["results and reductions", "counts of callbacks", "inputs and living instances"])
prop("P27", "Callbacks may use the containers they are called for",
  "While a map or set hashes, compares, clones, visits or calls an operation, that callback may look up, insert, remove, visit, clone or run bulk operations on the very same containers: it gets the right answers, and the interrupted operation gives what it would have given alone.",
  ["inputs", "programs", "schedules"],
  "every operation, every callback in it, every use of the containers from within",
  "The callbacks in the tests touch nothing but their arguments.",
  [MAP, SET, TRIE] + NODES + [BIA],
  m(("no interior mutability", "src/node/*.rs"), ("callbacks in the middle of operations", "src/node/cnode.rs, src/node/lnode.rs, src/node/snode.rs; src/transformations.rs call")),
  "model-based property-based testing with generated re-entrant uses at generated callbacks",
  "Inner uses are held against the model, the outer operation against its undisturbed result. One level of nesting.",
  ["results of inner and outer operations", "inputs and living instances"])
prop("P28", "A container keeps no more memory than its entries need",
  "Whatever a container comes from, the memory it keeps is that of its entries and of the nodes on the way to them: after dropping all other versions and inputs, a container without removals by key in its history takes at most what one built by inserting its entries takes, and one with removals in addition only nodes that kept apart hashes that were together in it or in a container it comes from.",
  ["histories", "inputs"],
  "every history of point and bulk operations and every version of it kept, every result of a bulk operation",
  "The tests never look at memory; empty nodes, single-child chains left by bulk operations or entries kept alive for nothing show in no result.",
  [MAP, SET, TRIE] + NODES + [BIA],
  m(("collapsing nodes that lose children", "src/node/cnode.rs remove, transform_impl, *_with_*_impl"), ("arrays as long as their contents", "src/bit_indexed_array.rs new_bit_indexed_array"), ("collapsing lists", "src/node/lnode.rs remove_from_lnode, *_result")),
  "model-based property-based testing with a counting allocator, priced by containers built from inserts",
  "The prices of nodes, entries and lists are measured on containers the library builds by inserts; fnv's containers are left out.",
  ["bytes given back when the last handle is dropped"])

prop("P29", "Any result serves any other operation",
  "The container any operation returns, point or bulk, of one entry type or across types, is as good as one built by inserts: every further operation on it, in any combination with other results and across any chain of entry types, gives the contents, calls and reduction its model demands, and every container made on the way keeps its contents.",
  ["histories", "inputs", "programs"],
  "every history over pools of containers of two or three entry types, in which every operation may take any earlier results",
  "The tests apply one bulk operation to freshly inserted ranges and look at the result once.",
  [MAP, SET, TRIE] + NODES + [BIA, TF],
  m(("normal form of results", "src/node/cnode.rs transform_impl, *_with_*_impl"), ("results of lists", "src/node/lnode.rs *_result"), ("crossing entry types", "src/node/cnode.rs transmute, *_with_transmuted_*, *_with_transformed_*; src/map.rs transfute")),
  "stateful model-based property-based testing over pools of containers of different types",
  "Histories of up to 16 steps (60 in the thorough tier); all 14 bulk operations, some with the types exchanged.",
  ["results, calls and reductions of every step", "every container at the end"])

prop("P30", "Safe use never leads to undefined behaviour",
  "No sequence of operations of the public API on maps and sets, with well-behaved keys, values and hashers, in one thread or in several that share containers, and with any panic of user code in between, makes the library read or drop memory that was never initialised, is freed or is not its own, free anything twice, race on memory, or break the language's aliasing rules.  Every reference handed out, and every pointer to a stored entry while the version that stores it lives, may be read.",
  ["histories", "inputs", "schedules", "faults"],
  "every history of operations on maps and sets, every assignment of hashes, every point at which user code panics, every interleaving of threads that share versions",
  "Undefined behaviour may pass any number of tests on one compiler and fail on the next; none of the tests runs under a sanitizer, none panics in user code, none shares a container between threads.",
  [BIA, MAP, SET, TRIE] + NODES,
  m(("arrays built in place", "src/bit_indexed_array.rs BitIndexedArrayImpl::new"), ("asserted thread safety", "src/node/mnode.rs, src/node/cnode.rs unsafe impl Send, Sync"), ("pointers to entries", "src/node/snode.rs, src/node/lnode.rs insert"), ("sharing by reference counts", "src/node/mnode.rs, src/node/lnode.rs")),
  "property-based testing with random scripts of operations, played under Miri and the address sanitizer as oracles",
  "Keys and values keep their contents on the heap. Scripts of up to 12 steps under Miri (24 in the thorough tier; Tree Borrows, data races, uninitialised memory), up to 40 (80) under the address sanitizer; 4 configurations. An end of another kind (stack overflow, time) is no violation. Trusts Miri and the sanitizer.",
  ["reports of Miri and of the address sanitizer", "every returned reference and pointer, by reading it"])

prop("P31", "Hash words and flag words of the program's own work",
  "Hash words and flag words are open traits: a program may bring its own.  With a hash word of any width from one bit up and a flag word of any power of two of at most 128 bits, however they are stored and whatever types their operators and conversions go through, as long as they keep to the definitions of the traits, maps and sets behave as they do with the built-in integers: like the mathematical map or set, in point operations, bulk operations and any mixture of them.",
  ["histories", "inputs", "configurations"],
  "every history of operations, every assignment of hashes, every hash word and flag word that keeps to the traits",
  "The tests use a few built-in integers only, whose size in memory, width and masks all follow from each other; what a program's own words need is in no test.",
  ["src/traits.rs", "src/flag.rs", BIA, MAP, SET, TRIE] + NODES,
  m(("choice of the child by depth", "src/flag.rs Flag::new, new_at_depth, next"), ("the traits of words", "src/traits.rs Hashword, Flagword and their parts"), ("loops over the children", "src/node/cnode.rs")),
  "property-based testing: model-based random histories over words defined by the harness",
  "Boxed hash words of 1, 7, 13, 24, 37, 40, 60, 200 and 256 bits with flag words of 2, 4, 8, 16, 32 and 128 bits of which at least one is not built in, with operator types of their own and asserted preconditions; bulk operations over five of the eleven combinations. Histories as in P01, P02 and P07.",
  ["results of every operation", "contents after every step", "preconditions of the words' operators"])

# ---- checks that were added later
exec(open(os.path.join(ROOT, "tools", "more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "more.py")) else None

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        a = dict(files=p["files"], mechanism=p["mech"], observe_at=p["observe"] or [], hook_needed=None)
        if p["state"]:
            a["state"] = p["state"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
man = dict(version=1, setup_cmd="./build.sh --bins",
  checks=[dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough", technique=p["tech"], level="exploration",
    level_note=EXPL + p["note"] + " Trusts the harness's reference model, its instrumented keys and values, proptest's generators and rustc.") for p in P],
  not_applicable=[],
  notes="No hooks: the checks use the public interface only. Six fix: commits in /repo, listed in known_findings.txt.")
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")

# DESIGN.md: the two generated tables
d = open(os.path.join(ROOT, "DESIGN.md")).read()
import re, glob
t = "| id | property | decided by | oracle, bounds, assumptions |\n|---|---|---|---|\n" + "".join(f"| {p['id']} | {p['title']} | {p['tech']} | {p['note']} |\n" for p in P)
def put(d, name, text):
    a, b = f"<!-- {name} -->", f"<!-- /{name} -->"
    block = a + "\n" + text.strip() + "\n" + b
    if "@" + name + "@" in d:
        return d.replace("@" + name + "@", block)
    return re.sub(re.escape(a) + ".*?" + re.escape(b), lambda _: block, d, flags=re.S)
d = put(d, "TABLE", t)
rows = []
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    j = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    caught = {}
    c = os.path.join(ROOT, "tools", "caught.json")
    if os.path.exists(c):
        caught = json.load(open(c))
    rows.append(f"| {n} | {j['property']} | {j['what_it_breaks']} | {j['needs']} | {', '.join(caught.get(n, [])) or '?'} |")
d = put(d, "BUGS", "| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n" + "\n".join(rows))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(d)
