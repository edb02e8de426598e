#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the wording stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],observe_at=observe or [],hook_needed=None)))
L="src/list/mod.rs";Q="src/queue/mod.rs";S="src/stack/mod.rs";V="src/vector/mod.rs"
H="src/map/hash_trie_map/mod.rs";HR="src/map/hash_trie_map/rayon.rs";SA="src/map/hash_trie_map/sparse_array_usize/mod.rs"
R="src/map/red_black_tree_map/mod.rs";HS="src/set/hash_trie_set/mod.rs";RS="src/set/red_black_tree_set/mod.rs";U="src/utils/mod.rs"
ALL=[L,Q,S,V,H,R,HS,RS,SA,U]

p("C01","Snapshot isolation: no operation on one version is visible in another",
 "A version of any collection (list, stack, queue, vector, both maps, both sets), once obtained, reports exactly the same content through every read path for as long as it is kept. Nothing another thread does to versions that share structure with it - deriving, mutating in place, iterating, releasing, panicking half-way - is ever visible through it, not even while that operation is still running.",
 ["schedules","histories"],
 "Every history of derive / in-place / read / release operations over any graph of versions sharing structure, every interleaving of the threads performing them, every pointer kind.",
 "Tests mutate one handle on one thread and look at it afterwards; whether an in-place update may touch a node depends on which other handles exist at that instant, which is a property of the schedule.",
 ALL,[("copy-on-write through make_mut at every level of every mutating operation",V+": Node::assoc/get_mut/drop_last; "+H+": Node::insert/remove/get_mut; "+R+": Node::insert/remove/balance*; "+L+": reverse_mut"),
      ("clone-then-mutate in non-mutating operations",ALL[0]+" and all other collections"),("replace() takes the source apart only when unshared",U)],
 [("reference counts","who else can see a node; decides copy or in-place","archery::SharedPointerKind")],["iterators, len/size, get/first/last/peek/contains on every retained version at every operation boundary of every thread"])
p("C02","List and Stack behave as a sequence under any sharing and interleaving",
 "Every list and stack operation, in both its deriving and its in-place form, returns what the same operation on a plain sequence would (first, last, length, push, drop first/pop, reverse, emptiness), and in particular failing operations on the empty collection report failure and change nothing. The answer never depends on how the version was reached, what else shares its structure, or what other threads do to relatives meanwhile.",
 ["histories","schedules"],"Every sequence of operations on every version reachable from any other, with every sharing pattern (unique handle, shared head, shared tail, shared only below some node) as produced by concurrent clone/release on other threads.",
 "Unit tests use unshared or freshly cloned lists of a few elements in one order; reverse in place takes a different path at every node depending on whether it is shared at that instant.",
 [L,S],[("cached last element kept in step with head and length",L+": push_front_ptr_mut, drop_first_mut, reverse, reverse_mut"),("stack delegates to list",S)],
 [("length / last","cached, must agree with the chain",L+": struct List")])
p("C03","Queue behaves as a FIFO sequence under any sharing and interleaving",
 "Every queue operation, deriving or in place, returns what the same operation on a plain first-in-first-out sequence would (peek, enqueue, dequeue, length, emptiness, iteration order), and dequeue of an empty queue reports failure and changes nothing. The answer never depends on how the elements are internally split by the history, what shares its structure, or what other threads do to relatives meanwhile.",
 ["histories","schedules"],"Every enqueue/dequeue/clone/release history, every split point between the incoming and outgoing part, every sharing of each part with versions held by other threads.",
 "Tests dequeue from a few hand-built queues; the lazily reversed part is rebuilt in place or by copying depending on who shares it at that moment.",
 [Q,L],[("two lists, incoming reversed on demand",Q+": dequeue_mut, peek, iter_ptr, LazilyReversedListIter")],[("in_list/out_list","the two halves of the sequence",Q+": struct Queue")])
p("C04","Vector behaves as an indexed sequence under any sharing and interleaving",
 "Every vector operation, deriving or in place, returns what the same operation on a plain growable array would (get, set, push back, drop last, mutable access, indexing, extension, first/last, length), for every size and every branching configuration the constructor accepts; out-of-range accesses fail (or panic, for indexing) and change nothing. The answer never depends on the history, on sharing, or on what other threads do to relatives meanwhile.",
 ["histories","schedules","configurations"],"Every history, all sizes including those where the depth grows or shrinks, all accepted branching factors, every sharing pattern produced by concurrent clone/release on other threads.",
 "Tests grow one unshared vector with default branching past one or two levels; the root growth/compression and copy-on-write paths interact with sharing per node.",
 [V],[("height computed from length and bits, root growth and compression",V+": height, push_back_mut, drop_last_mut, compress_root"),("path copying",V+": Node::assoc, get_mut, drop_last")],[("length, bits","determine the shape of the tree",V+": struct Vector")])
p("C05","Hash map and set refine a dictionary for any hash function and seed",
 "Every hash map and hash set operation, deriving or in place, returns what a dictionary or mathematical set would (get, insert, remove, contains, mutable access, indexing, size, subset/superset/disjointness), for every deterministic hash function (including constant and adversarially clustered ones), every random hasher seed and every branching degree the constructor accepts. The answer never depends on the history, on sharing, or on what other threads do to relatives meanwhile.",
 ["histories","schedules","configurations"],"Every operation history, every assignment of hash values to keys (full collisions, shared prefixes of any length, well mixed), every RandomState seed, degrees 2..64, every sharing pattern and interleaving.",
 "Tests use small integer keys with one well-behaved hasher and a handful of hand-made collisions, single threaded.",
 [H,HS,SA,U,L],[("trie descent by hash segments, buckets at maximum depth, compression on removal",H+": Node::insert/remove/compress, Bucket::*"),("bitmap-indexed sparse children",SA),("set operations by delegation",HS)],
 [("size","cached entry count",H+": struct HashTrieMap"),("collision bucket","list of entries with equal hash",H+": enum Bucket")])
p("C06","Red-black tree map and set refine an ordered dictionary",
 "Every ordered map and ordered set operation, deriving or in place, returns what an ordered dictionary or set would (get, insert, remove, contains, first/last, ranges with any bounds, mutable access, indexing, size, subset/superset/disjointness). The answer never depends on the history, on sharing, or on what other threads do to relatives meanwhile.",
 ["histories","schedules"],"Every operation history including long interleavings of insertion and removal, every sharing pattern of subtrees with versions held by other threads, all range bounds.",
 "The existing tests insert and remove in few fixed orders from an unshared tree; rebalancing copies or reuses each touched node depending on who shares it.",
 [R,RS,U],[("Okasaki insertion and Kahrs deletion with copy-on-write at every touched node",R+": insert, balance, remove_fuse, remove_balance*"),("range iteration",R+": iter_utils")],[("size","cached entry count",R+": struct RedBlackTreeMap")])
p("C07","Iteration yields each element exactly once, in order, with exact lengths",
 "Any iterator over any collection (including keys, values and ranges), driven by any interleaving of front and back steps where it is double ended, yields every element of its version exactly once in the documented order, reports exact remaining lengths, stays exhausted once exhausted, and keys and values pair up with entries. It keeps doing so when it is paused for any time while other threads derive from, mutate or release other versions sharing its structure, and when it is abandoned half-way.",
 ["schedules","histories","inputs"],"Every version, every script of next/next_back/size queries and pauses, any number of simultaneous iterators, every interleaving with other threads.",
 "Tests exhaust iterators in one or two fixed patterns over a quiescent collection.",
 [L,Q,V,H,R,HS,RS],[("double-ended index and stack bookkeeping",V+": IterPtr"),("size-counted range iteration",R+": IterPtr, RangeIterPtr"),("trie stack iterator",H+": IterPtr"),("lazily reversed half",Q+": LazilyReversedListIter")])
p("C08","Elements are conserved: released exactly once, promptly, never used after",
 "Every element handed to a collection is released exactly once, never used after release, and is alive exactly as long as some version that still contains it (or a reference to it) is alive. This holds for any interleaving of the threads dropping and deriving versions, and when operations are cut short by a panic in user code or by one element's destructor panicking.",
 ["schedules","histories","fault_sequences"],"Every history and interleaving, every injected panic in a callback, failed node allocation or panicking element destructor.",
 "Tests cannot enumerate who drops the last handle when, and do not inject panics.",
 ALL,[("reference-counted nodes, iterative list release",L+": Drop"),("replace() and take() in restructuring",U+", "+R+", "+H)])
p("C09","Stack use is bounded for long collections under any release schedule",
 "Building, reversing, iterating, comparing, hashing, cloning, printing and releasing a collection of any size uses an amount of stack that does not grow with the number of elements. This holds no matter which thread ends up releasing the last handle to which part, or whether an element's destructor panics during the release.",
 ["schedules","histories","fault_sequences"],"Collections of any length (tens of thousands here) with any sharing of tails, released by any number of threads in any interleaving, with at most one panicking destructor.",
 "Existing tests drop one long unshared list on one thread; which thread performs the last release, and whether it does so iteratively, is decided by the schedule.",
 [L,Q,S,H,V,R],[("iterative list destructor",L+": Drop"),("logarithmic depth of trees","vector, maps")])
p("C10","A failing derive or read leaves every existing version intact",
 "When a deriving or reading operation does not complete - because a node allocation fails or because a user callback (hash, equality, ordering, clone, display, iterator) panics at any point - every version that existed before, including its receiver, reports the same content as before and stays fully usable on every thread.",
 ["fault_sequences","schedules","histories"],"Every deriving or reading operation, every point at which an allocation or callback can fail inside it, every interleaving with other threads.",
 "Tests never inject failures.",
 ALL,[("clone first, then mutate the private clone","all deriving operations"),("copy-on-write clones before modifying","archery make_mut call sites")])
p("C11","An in-place operation whose callback panics is all-or-nothing",
 "When a single-element in-place operation is cut short by a panic in the user's hashing, equality, ordering or cloning code, its collection holds either exactly the old or exactly the new content, with a matching size, and stays usable; bulk extension stops at an element boundary. No other version changes.",
 ["fault_sequences","schedules","histories"],"Every in-place operation of every collection, every callback invocation inside it as failure point, every sharing pattern (including colliding hashes), every interleaving.",
 "Tests never inject failing callbacks.",
 [L,V,H,R,HS,RS],[("callbacks run before structure is taken apart",H+": Node::insert/remove, Bucket::*; "+R+": ins, del"),("size updated last",H+", "+R+": insert_mut/remove_mut")])
p("C12","Operations take the documented number of own steps, however others stall",
 "Every operation completes in a number of its own steps that respects its documented complexity - constant, logarithmic in the size, or linear; visiting part of a collection costs in proportion to that part - whatever the history of the collection and whatever other threads do, including stalling for ever in the middle of an operation on a relative.",
 ["schedules","histories","inputs"],"All operations, histories and sizes up to thousands of elements, adversarial key orders, well-mixed hashes for the hash collections, any set of stalled threads.",
 "Tests check results, not work, and never stall a thread.",
 [L,Q,S,V,H,R,HS,RS],[("no locks, only reference counts","archery"),("balanced or fixed-depth trees",R+": balance*; "+V+": height; "+H+": compress")])
p("C13","Writing out to a failing sink reports the failure and harms nothing",
 "Serializing or printing a collection into a sink that may fail, accept short writes or be interrupted at any point either succeeds with the complete, correctly delimited content in iteration order (announcing the exact length), or returns the sink's failure after having written a prefix of that content. Nothing is written after a failure, the collection is unchanged, and what was written successfully reads back as an equal collection.",
 ["fault_sequences","inputs","schedules"],"Every collection and content, every failure position and pattern of short/interrupted writes, concurrent derivations on other threads.",
 "Tests serialize to in-memory strings that never fail.",
 [L,Q,S,V,H,R,HS,RS],[("collect_seq/collect_map and Display with error propagation","each collection's serde module and Display impl")])
p("C14","Reading back corrupt, truncated or lying input fails cleanly or decodes right",
 "Deserializing a collection from any input - truncated, corrupted, failing or panicking at any point, with any announced length - returns an error exactly when the input is not a valid encoding, and otherwise yields the collection a plain array or dictionary would decode to (later duplicates winning). It never panics on its own account, never allocates out of proportion to the data actually received, and releases everything it had built when it fails.",
 ["fault_sequences","inputs"],"Every byte stream and element stream, every failure position, every announced length including absurd ones, every collection.",
 "Tests round-trip well-formed JSON only.",
 [L,Q,S,V,H,R,HS,RS],[("visitor loops with error propagation and bounded preallocation","each collection's serde module")])
p("C15","Parallel iteration visits every entry exactly once under any work stealing",
 "Parallel iteration over the shareable hash map processes each entry exactly once, whatever way the work is split, stolen and interleaved among any number of workers; early termination gives a correct answer, a panicking closure propagates once without entries being processed twice, and concurrent derivations by other threads do not affect it.",
 ["schedules","fault_sequences","inputs"],"Every map shape (any hash function, degree, collisions), every number of workers, every steal/split decision and interleaving, every panic point.",
 "Tests run a few maps on the real thread pool with whatever schedule happens.",
 [HR],[("splitting producer over trie children",HR+": HashTrieMapProducer::split, fold_with")])
p("C16","Equality, ordering and hashing depend on content only",
 "Whether two collections compare equal, how they order, and what they hash to is determined by their contents alone (given elements whose own equality, order and hash are lawful): it is independent of history, internal shape, branching configuration, hasher seed, pointer kind and sharing, and of concurrent activity; equal collections hash equal, every element takes part in the hash, consecutive collections hash differently when their boundaries differ; and elements that are only partially equal or ordered compare as they do in the standard collections.",
 ["histories","schedules","configurations"],"Every pair of versions reached by any histories on any threads, across pointer kinds, degrees, hasher seeds and branching factors.",
 "Tests compare small hand-made pairs.",
 [L,Q,S,V,H,R,HS,RS],[("element-wise comparison, length-prefixed hashing","PartialEq/Ord/Hash impls"),("identity shortcut",H+": ptr_eq; "+R+": ptr_eq")])
p("C17","Bulk building consumes any iterator correctly, honest or not",
 "Collecting from or extending with any iterator - whatever upper size bound it announces and however far its lower bound understates, however it interleaves with other threads, resuming after its end or panicking half-way - gives exactly the collection that adding the yielded elements one by one gives, consumes each element once, never fails because of an announced size, and on a panic releases everything taken so far.",
 ["inputs","fault_sequences","schedules"],"Every element sequence, every legal size announcement (unbounded, huge, loose), every panic position, every collection, any interleaving.",
 "Tests collect from vectors and ranges with exact sizes.",
 [L,Q,S,V,H,R,HS,RS],[("FromIterator / Extend impls","each collection")])
p("C18","Versions share structure: updates copy only a path, elements never",
 "Deriving a version allocates at most the documented path (constant for list-like collections, logarithmic for trees) and never copies elements; cloning allocates nothing; removing something absent yields a version that still is the same in memory; identity comparison is true for a fresh clone. Mutable access copies at most the accessed element, and only when it is shared.",
 ["histories","schedules","inputs"],"Every operation, size, sharing pattern and interleaving.",
 "Tests compare values, not allocations, and see at most a couple of sizes.",
 [L,Q,S,V,H,R,HS,RS,U],[("structural sharing by reference counting","all collections"),("replace() avoids cloning",U)])
p("C19","Only collections of thread-safe parts can cross threads",
 "A collection can be sent to or shared with another thread exactly when its pointer kind, elements and hasher allow it; the compiler rejects everything else.",
 ["programs"],"Every instantiation of every collection type.","A property of the type system: nothing executes.",
 ALL,[("auto traits gated by PhantomData in archery's SharedPointer","archery")])
p("C20","Literal macros build what the builder calls build",
 "The literal macros for every collection, in their plain and thread-safe forms, evaluate each argument exactly once and produce the collection the corresponding builder calls produce (later duplicates winning), whatever else runs meanwhile. When evaluating an argument panics, no later argument is evaluated after that panic and everything evaluated before is released.",
 ["inputs","fault_sequences"],"Every arity, every pattern of repeated keys and every argument at which evaluation can panic.","Tests write a few literals of distinct values, none of which panics.",
 [L,Q,S,V,H,R,HS,RS],[("macro_rules!","each collection module")])
p("C21","Behaviour is the same with and without the standard library",
 "Every history of operations, schedules and failures has the same outcome in the no_std build as in the standard build - same results, same contents, same order of callbacks - apart from what the default hasher decides.",
 ["histories","configurations"],"Every history, in both builds.","Tests only run the standard build, and no test compares two builds.",
 ["src/lib.rs",U],[("cfg(feature = \"std\")",U)])
p("C22","Memory held follows the content, not the history",
 "What a collection holds on to - tree nodes, list nodes and their buffers - is bounded by a function of what it contains now, never of what it once contained or how it got there: after growing and shrinking any number of times, emptied by removal, or derived from larger versions that are gone, releasing its last handle gives back no more than a collection of that content needs.",
 ["histories","schedules","configurations"],"Every history of insertions and removals on any threads, every hash function, degree and branching factor.","Tests look at the shape after a few removals; none observes memory, and none churns.",
 [L,Q,S,V,H,R,HS,RS],[("branches with a single leaf collapse",H+": compress"),("empty branches are pruned, the root lowered",V+": drop_last, compress_root")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
