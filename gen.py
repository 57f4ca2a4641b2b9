#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os
from props import PROPS
H = os.path.dirname(os.path.abspath(__file__))
RB = "immer/detail/rbts/"
HM = "immer/detail/hamts/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(),
         observe=(), technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c)
                                      for a, b, c in state],
                               mechanism=[dict(name=a, where=b)
                                          for a, b in mech],
                               observe_at=list(observe), hook_needed=None),
                  technique=technique, note=note))


prop("C01", "Sequences always hold what their history of operations says",
     "Whatever sequence of constructions, single-element updates, appends, slices, copies, moves and assignments produced a vector, flex_vector or array, its size (never above max_size()), every element by index (including the checked access and front/back), forward, backward and chunk-wise traversal agree with the plain sequence that the same operations define. This holds for every memory policy, node size, element type, depth of the tree and number of elements (including more than 32 bits can count), whatever was built from or shares structure with the value before.",
     ["histories", "inputs", "configurations"],
     "every finite history of operations over several values that share structure, every element type (trivial, large, throwing, owning) and every memory policy the library ships (free lists, plain heaps, sized heaps, no transient rvalues, garbage collected, thread unsafe)",
     "The tests exercise one operation at a time from freshly built values, mostly of ints; they do not reach trees whose shape results from long mixed histories of relaxed, shared and in-place updated nodes.",
     [RB + "rbtree.hpp", RB + "rrbtree.hpp", RB + "operations.hpp", RB + "node.hpp", "immer/detail/arrays/with_capacity.hpp", "immer/detail/arrays/no_capacity.hpp", "immer/vector.hpp", "immer/flex_vector.hpp", "immer/array.hpp"],
     [("tree of fixed branching with a tail, relaxed size tables", RB + "rrbtree.hpp"), ("positions and visitors", RB + "position.hpp, " + RB + "operations.hpp")],
     [("size, shift, root, tail", "the value", RB + "rrbtree.hpp")],
     ["immer::vector", "immer::flex_vector", "immer::array"])
prop("C02", "Concatenation, slicing, insertion and erasure of flex_vectors are exact",
     "For any flex_vectors however they were made, concatenating, taking, dropping, inserting (an element or another vector), pushing in front and erasing (an index or a range) yield exactly the sequence the operation defines, and the result keeps behaving so under any further operations, including after such an operation failed for want of memory or because an element threw. The operands are unchanged. Sizes beyond 32 bits and trees of many levels are no exception.",
     ["histories", "inputs", "fault_sequences"],
     "every tree shape reachable by histories of these operations (shapes and relaxed size tables depend on the whole history, not on the content), with failures injected at any allocation or element copy",
     "The tests concatenate a few shapes and check content once; the rebalancing, node reuse and size tables depend on all earlier operations, and errors often show only operations later.",
     [RB + "operations.hpp", RB + "rrbtree.hpp", RB + "position.hpp", RB + "node.hpp", "immer/flex_vector.hpp"],
     [("concat rebalancing plan and merger", RB + "operations.hpp"), ("slice visitors", RB + "operations.hpp"), ("relaxed size tables", RB + "node.hpp")],
     [("relaxed sizes", "cumulative sizes of children", RB + "node.hpp")],
     ["immer::flex_vector"])
prop("C03", "Sets, maps and tables always hold what their history says",
     "Whatever history of insertions, updates, conditional updates, erasures, copies and in-place variants produced a set, map or table, its size, lookups (by key and by equivalent key, checked and with defaults) and traversals (element-wise and chunk-wise, each element exactly once) agree with the finite set or map the operations define. This holds however the hashes of the keys collide, partially or completely.",
     ["histories", "inputs", "configurations"],
     "every finite history over several values that share structure; hash functions from injective to constant, colliding on the low, high or all bits; all memory policies and element types",
     "Tests use a few hand-picked collisions; collapsing, splitting and collision nodes in combination with in-place updates and sharing depend on the history.",
     [HM + "champ.hpp", HM + "node.hpp", HM + "champ_iterator.hpp", "immer/set.hpp", "immer/map.hpp", "immer/table.hpp"],
     [("compressed hash array mapped prefix tree with collision nodes", HM + "champ.hpp"), ("node rewriting", HM + "node.hpp")],
     [("root, size", "the value", HM + "champ.hpp")],
     ["immer::set", "immer::map", "immer::table"])
prop("C04", "Diff reports exactly the changes between two hash-based containers",
     "For any two sets, maps or tables, however they are related by history, diffing them calls back exactly once for every added, every removed and every changed element, with the right old and new values, and for nothing else. It stays so when the two share any part of their structure, when hashes collide, and when callbacks or comparisons fail and the diff is retried.",
     ["histories", "inputs"],
     "pairs of values from common and unrelated histories, with all degrees of structural sharing and of hash collisions",
     "Tests diff a few related maps; the traversal takes different branches for every combination of inline value, child node and collision node on the two sides.",
     [HM + "champ.hpp", "immer/algorithm.hpp"],
     [("parallel traversal with identity short cuts", HM + "champ.hpp")],
     [], ["immer::diff"])
prop("C05", "A value never changes once somebody holds it",
     "A container value that is held anywhere (in a variable, a copy, another container, a transient's source, or on another thread) keeps exactly the same elements at the same positions for as long as it is held. No operation on any other value or transient, in place or not, successful or failing, on this or any other thread, with any interleaving, is ever observable through it.",
     ["histories", "schedules", "fault_sequences"],
     "all histories of operations over sets of values that share nodes, with any interleaving of threads and any failure injected",
     "Tests compare the result of an operation with an expected value; very few look at all the other values that share nodes afterwards, and none under interleavings or failures.",
     [RB + "node.hpp", RB + "operations.hpp", HM + "champ.hpp", HM + "node.hpp", "immer/detail/arrays/with_capacity.hpp", "immer/refcount/refcount_policy.hpp", "immer/transience/gc_transience_policy.hpp"],
     [("reference counts decide who may write to a node", RB + "node.hpp, " + HM + "node.hpp"), ("owner tokens", "immer/transience/gc_transience_policy.hpp")],
     [("reference count", "holders of a node", "immer/refcount/refcount_policy.hpp")])
prop("C06", "Transients and rvalue operations equal their immutable counterparts",
     "Any sequence of in-place operations on a transient, or of operations on moved-from values, gives exactly the contents that the corresponding immutable operations give. The value a transient was made from, copies of the transient, and every value that persisting it produced are unaffected by what is done to the transient before or afterwards, and moved-from containers can be assigned and destroyed.",
     ["histories", "inputs", "configurations"],
     "all interleavings of in-place and immutable operations over sets of transients and values that share structure, under every memory policy",
     "Tests run transients against a fresh value; whether a node may be edited in place depends on all earlier copies, persists and moves.",
     ["immer/vector_transient.hpp", "immer/flex_vector_transient.hpp", "immer/array_transient.hpp", "immer/map_transient.hpp", "immer/set_transient.hpp", "immer/table_transient.hpp", RB + "operations.hpp", RB + "rrbtree.hpp", RB + "rbtree.hpp", HM + "champ.hpp"],
     [("edit tokens and uniqueness tests", RB + "node.hpp, " + HM + "node.hpp"), ("mutating visitors", RB + "operations.hpp")])
prop("C07", "Threads may freely share, copy, read and drop values",
     "Several threads may at the same time read the same container value, copy it, derive new values from it and drop their copies, without any synchronisation besides handing the values over, and each sees exactly the contents of the value it holds. No data race, use of released memory, double release or lost element is possible under any interleaving.",
     ["schedules", "histories"],
     "all interleavings of up to four threads at every atomic access, allocation and user callback, over values that share nodes",
     "The test suite is single threaded.",
     ["immer/refcount/refcount_policy.hpp", RB + "node.hpp", RB + "rbtree.hpp", RB + "rrbtree.hpp", HM + "node.hpp", HM + "champ.hpp", "immer/heap/free_list_heap.hpp", "immer/heap/thread_local_free_list_heap.hpp"],
     [("atomic reference counts and their memory orders", "immer/refcount/refcount_policy.hpp"), ("thread safe heaps", "immer/heap/free_list_heap.hpp")],
     [("reference count", "holders of a node", "immer/refcount/refcount_policy.hpp")])
prop("C08", "In-place updates are safe while other threads let go of shared nodes",
     "A thread that updates its own transient or moved-from value in place, while other threads copy, read and drop values that share nodes with it, produces the right result whatever the moment at which the others let go; nodes change hands without being read or written after release, leaked, or released twice. Nothing it writes is seen by a thread that still holds the shared value.",
     ["schedules", "histories"],
     "all interleavings of an in-place operation with the release of the last other reference to each of the nodes on its path",
     "Needs a reference to disappear between two steps of one operation: unreachable in single threaded tests.",
     [RB + "operations.hpp", RB + "node.hpp", HM + "champ.hpp", HM + "node.hpp", "immer/detail/arrays/with_capacity.hpp", "immer/refcount/refcount_policy.hpp"],
     [("uniqueness test followed by in-place write", RB + "operations.hpp, " + HM + "champ.hpp"), ("conditional release after the test", RB + "node.hpp")])
prop("C09", "An operation that fails leaves every value unchanged",
     "When an operation that makes a new value fails because memory runs out, or because an element's copy or comparison, a hash, or a given function throws, the exception reaches the caller, all existing values are exactly as before, and nothing is leaked or destroyed twice. The same operation can be retried and then succeeds with the right result.",
     ["fault_sequences", "histories", "inputs"],
     "every allocation and every call into user code inside every operation, over all histories that lead to the operands",
     "The upstream exception tests cover some operations with one kind of failure in simple shapes and assert little about leaks; they cannot place a failure at each step of each reachable shape.",
     [RB + "operations.hpp", RB + "node.hpp", RB + "rbtree.hpp", RB + "rrbtree.hpp", HM + "champ.hpp", HM + "node.hpp", "immer/detail/arrays/node.hpp", "immer/detail/util.hpp", "immer/box.hpp"],
     [("try/catch that undoes partial work", RB + "operations.hpp, " + HM + "node.hpp")])
prop("C10", "A failing in-place operation leaves everything valid and nothing leaked",
     "When an in-place operation (on a transient or on a moved-from value) fails for want of memory or because user code throws, every other value is unchanged, no element or memory is leaked or destroyed twice, and the container operated on stays valid; transients' element operations, taking, dropping and appending, and all in-place operations of sets, maps and tables leave it with the contents it had, provided its elements move without throwing. It can be used, assigned and destroyed normally afterwards.",
     ["fault_sequences", "histories", "inputs"],
     "every allocation and every call into user code inside every in-place operation, over all histories that lead to the operands, including nodes that are partly shared",
     "Upstream exception tests of in-place operations are few, and one of them had its failures switched off.",
     [RB + "operations.hpp", RB + "node.hpp", RB + "rbtree.hpp", RB + "rrbtree.hpp", HM + "champ.hpp", HM + "node.hpp", "immer/detail/arrays/with_capacity.hpp"],
     [("allocate before moving, undo on failure", RB + "operations.hpp, " + HM + "champ.hpp")])
prop("C11", "Every element and every block of memory is released exactly once",
     "With a reference counted memory policy, every element constructed by a container is destroyed exactly once, and every block of memory is given back to the heap it came from, with the size it was asked for, exactly once, as soon as no value refers to it. This holds over every history of operations, including failing ones and in-place ones.",
     ["histories", "fault_sequences", "schedules", "configurations"],
     "all histories, with and without injected failures and concurrent release, for all reference counted policies",
     "Tests count few objects; a leaked node or element does not fail them, and sanitizers see only the shapes the tests reach.",
     [RB + "node.hpp", RB + "operations.hpp", HM + "node.hpp", HM + "champ.hpp", "immer/detail/arrays/node.hpp", "immer/box.hpp", "immer/heap/debug_size_heap.hpp"],
     [("recursive release of nodes", RB + "operations.hpp, " + HM + "champ.hpp")],
     [("reference count", "holders of a node", "immer/refcount/refcount_policy.hpp")])
prop("C12", "Atoms are linearizable",
     "Every concurrent history of loads, stores, exchanges, updates and conversions on an atom is equivalent to some sequential order of these operations that respects real time: no update or store is lost or applied twice, exchange returns exactly what it replaced, and update returns exactly what it stored. An operation that fails (a throwing update function, no memory) has no effect. Operations that an update function, or the destructor of a value the atom lets go of, makes on the same atom count like any other.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings of up to four threads on one or two atoms, reference counted and garbage collected, with failures injected",
     "The atom test is single threaded.",
     ["immer/atom.hpp", "immer/box.hpp", "immer/lock/spinlock_policy.hpp", "immer/refcount/refcount_policy.hpp"],
     [("spinlock around pointer and count", "immer/atom.hpp"), ("compare and exchange", "immer/atom.hpp")],
     [("impl_", "the current box", "immer/atom.hpp")], ["immer::atom"])
prop("C13", "Boxes behave as immutable values",
     "A box holds the value it was made with until it is assigned: copies share it, compare equal and are never affected by updates of one another, whether the update is made on a moved-from box that happens to be the only holder or not, on this thread or another. Its value is constructed and destroyed exactly once, and a failed construction or update changes no other box and leaks nothing.",
     ["schedules", "histories", "fault_sequences"],
     "all histories of copies, moves, assignments, swaps and updates over boxes that share values, across threads, with failures injected",
     "Tests cover single threaded happy paths.",
     ["immer/box.hpp", "immer/detail/util.hpp", "immer/refcount/refcount_policy.hpp"],
     [("reference count and unique test", "immer/box.hpp")],
     [("impl_", "the holder of the value", "immer/box.hpp")], ["immer::box"])
prop("C14", "Heaps never hand out memory twice and keep within their limits",
     "Under any interleaving of threads, a block obtained from any of the library's heaps overlaps no other block in use, keeps what is written to it until it is released, and may be released by another thread; failing allocations change nothing. When threads are idle a free list keeps no more blocks than its limit, keeps released blocks for reuse while it is below it, and a finished thread's blocks return to the parent heap.",
     ["schedules", "fault_sequences", "configurations"],
     "all interleavings of up to four threads allocating, writing, handing over and releasing blocks through every composition of heap adaptors, with failing allocations and thread exits",
     "The heap tests are single threaded and look at one adaptor at a time.",
     ["immer/heap/free_list_heap.hpp", "immer/heap/thread_local_free_list_heap.hpp", "immer/heap/unsafe_free_list_heap.hpp", "immer/heap/split_heap.hpp", "immer/heap/with_data.hpp", "immer/heap/debug_size_heap.hpp", "immer/heap/heap_policy.hpp", "immer/heap/cpp_heap.hpp", "immer/heap/malloc_heap.hpp"],
     [("lock free list with a counter", "immer/heap/free_list_heap.hpp"), ("thread local list, cleared at thread exit", "immer/heap/thread_local_free_list_heap.hpp")],
     [("head, count", "the free list", "immer/heap/free_list_heap.hpp")])
prop("C15", "Garbage collection at any moment is unobservable",
     "With a garbage collected memory policy, containers, transients, boxes and atoms behave the same whenever the collector runs, however often, and however it reuses addresses: nothing reachable is reclaimed, and no transient ever edits a node that it does not own.",
     ["schedules", "histories", "configurations"],
     "a collection before any allocation, immediate reuse of reclaimed addresses (including those of owner tokens), one to four threads",
     "In tests collections are rare and addresses hardly ever reused at a critical moment.",
     ["immer/transience/gc_transience_policy.hpp", "immer/heap/gc_heap.hpp", "immer/atom.hpp", RB + "node.hpp", RB + "operations.hpp", HM + "node.hpp", HM + "champ.hpp"],
     [("owner tokens compared by address", "immer/transience/gc_transience_policy.hpp"), ("pointer-free allocation", "immer/heap/gc_heap.hpp")],
     [("token_", "identity of the transient that may edit a node", "immer/transience/gc_transience_policy.hpp")])
prop("C16", "Equality, ordering of traversal and algorithms depend only on contents",
     "Two containers compare equal exactly when they hold equal contents, whatever histories produced them and whatever they share; equal identities imply equal contents. Iterators and the library's algorithms (for_each, chunk-wise and early-stopping traversal, accumulate, all_of, equality) visit exactly the contents, in order for sequences, and stop where they are told to, even when comparisons fail in between.",
     ["histories", "inputs", "fault_sequences"],
     "pairs of equal and nearly equal values from independent and from common histories",
     "Comparison takes short cuts through shared nodes and treats relaxed, regular and tail parts differently; tests compare few shapes.",
     [RB + "operations.hpp", RB + "rrbtree.hpp", RB + "rbtree_iterator.hpp", RB + "rrbtree_iterator.hpp", HM + "champ.hpp", HM + "champ_iterator.hpp", "immer/algorithm.hpp"],
     [("equals visitors", RB + "operations.hpp"), ("iterators", RB + "rrbtree_iterator.hpp, " + HM + "champ_iterator.hpp")])
prop("C17", "Operations always finish: no deadlock and no livelock",
     "Every operation of containers, transients, boxes, atoms and heaps completes within a bounded number of steps once the threads involved are scheduled fairly, whatever the interleaving, stalls of other threads, retries, and failures before it, and also when user code that is called on the way (update functions, destructors of released values) uses the same atom. A thread that is stalled or whose operation failed never leaves a lock held or a structure that makes others wait for ever.",
     ["schedules", "fault_sequences"],
     "all interleavings with arbitrarily long stalls of one thread at any point, and failures inside critical sections",
     "Nothing in the test suite blocks or contends.",
     ["immer/lock/spinlock_policy.hpp", "immer/atom.hpp", "immer/heap/free_list_heap.hpp", "immer/refcount/refcount_policy.hpp"],
     [("test and set lock that yields", "immer/lock/spinlock_policy.hpp"), ("compare and exchange loops", "immer/heap/free_list_heap.hpp, immer/atom.hpp")],
     [("lock flag", "who may touch the atom", "immer/lock/spinlock_policy.hpp")])

prop("C18", "Operations share structure and copy no more than documented",
     "Whatever the size of the operands, the history they come from, failures on the way and what other threads hold: copying, moving, swapping, letting go of a shared value, opening and closing a transient (an array may be trimmed then), and comparing or diffing copies allocate nothing beyond an owner token and take constant work; an operation that makes a new value of a vector, flex_vector, set, map or table allocates and touches no more than the nodes on the paths it changes (concatenation: on the seam), and one of an array one block; replacing an element in place, in nodes that nobody else holds, or holds any more once another thread has let go, allocates nothing, and a sequence of in-place pushes no more than the nodes it fills; lookups allocate nothing and only go down one path; traversals take work proportional to what they visit, diff and equality of related values to what changed; trees keep a height logarithmic in the largest size in their history; and a value holds no more memory than its elements need.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "sequences of up to 2^40 elements and histories of joins and slices of any shape, hash collisions, all interleavings of other threads letting go, allocation failures at any point",
     "The tests compare contents; an operation that copies a whole value or leaves an ever taller tree gives the same contents.",
     ["immer/flex_vector.hpp", "immer/vector.hpp", "immer/array.hpp", "immer/set.hpp", "immer/map.hpp", "immer/table.hpp", "immer/box.hpp", RB + "operations.hpp", RB + "rrbtree.hpp", HM + "champ.hpp", HM + "node.hpp", "immer/detail/arrays/with_capacity.hpp"],
     [("path copying", RB + "operations.hpp, " + HM + "champ.hpp"), ("rebalancing of concatenations", RB + "operations.hpp"), ("mutation of what is unique or owned", HM + "node.hpp, " + RB + "node.hpp")],
     [("reference counts, owner tokens", "may this node change in place", "immer/refcount, immer/transience")],
     note="Bounds on allocations, bytes and memory accesses of each single operation, counted by the simulator (not time); calibrated so that the unchanged code stays within 90% and a second copy of a path or any linear cost exceeds them. Seeded sampling: evidence over the seeds explored, not proof. Equality of flex_vectors that are not identical is not bounded (linear, and undocumented).")

prop("C19", "Focused vectors (dvektor) behave as immutable sequences",
     "Whatever history of appends, assignments to an index and updates, from any of its earlier values and in any order of places, produced a dvektor, its size, every element by index, forward and backward iteration and iterators that jump, are copied and compared agree with the plain sequence the history defines, also for empty values and whole leaves. Values made before, and copies on other threads, keep their contents; a failing operation changes nothing and leaks nothing; every element and node is released exactly once; and an operation allocates no more nodes than twice the height of the tree.",
     ["histories", "schedules", "fault_sequences", "configurations"],
     "every finite history over values that share structure with their focus anywhere, node sizes of 2 to 32, element types and memory policies, with failures injected, and up to four threads reading and deriving",
     "The tests append in order and assign once in order; the focus, and what the nodes on the way to it are allowed to lack, depend on the order of all earlier operations.",
     ["immer/experimental/dvektor.hpp", "immer/experimental/detail/dvektor_impl.hpp", "immer/refcount/enable_intrusive_ptr.hpp", "immer/heap/heap_policy.hpp"],
     [("display of nodes on the path to the focus; slots below it are stale until stabilized", "immer/experimental/detail/dvektor_impl.hpp")],
     [("focus, dirty, display", "where the last change was made and its path", "immer/experimental/detail/dvektor_impl.hpp")],
     ["immer::dvektor"])

prop("C20", "Objects with intrusive counts live exactly as long as something points to them",
     "An object derived from enable_intrusive_ptr, shared through intrusive pointers that any threads copy, move, overwrite and drop, stays valid and unchanged while any pointer to it exists, also one inside another such object, and is destroyed exactly once, by whoever drops the last one, who then sees everything the other holders did with it. A copy of such an object has a count of its own. An allocation or constructor that fails leaves nothing behind and the counts of all other objects as they were.",
     ["histories", "schedules", "fault_sequences"],
     "every finite history of making, copying, linking, passing on and dropping such objects, on up to four threads, with failures of allocations and constructors, and both counting policies",
     "The tests do not use enable_intrusive_ptr; a lost count shows only under one interleaving, or as memory used after its release.",
     ["immer/refcount/enable_intrusive_ptr.hpp", "immer/refcount/refcount_policy.hpp", "immer/refcount/unsafe_refcount_policy.hpp"],
     [("count that starts at zero, released by the last pointer", "immer/refcount/enable_intrusive_ptr.hpp")],
     [("reference count", "number of pointers to the object", "immer/refcount/refcount_policy.hpp")],
     ["immer::enable_intrusive_ptr"])

NA = [
    dict(id="C91", title="Language bindings expose the same values",
         statement="The Python, Guile and JavaScript bindings expose containers that behave like the C++ ones and keep the garbage collectors of those languages sound.",
         quantifier=dict(over=["programs"], text="all programs using the bindings"),
         why_tests_cant="The bindings have no tests that run here.",
         anchors=dict(files=["extra/python/src/immer-pybind.cpp", "extra/guile/src/immer.cpp", "extra/js/immer.cpp"],
                      mechanism=[dict(name="wrappers", where="extra/")]),
         reason="The bindings cannot be built here (no pybind11, Guile or Emscripten, no network), so there is no real code to run under the simulator."),
    dict(id="C92", title="Unsupported combinations of types and policies are rejected at compile time",
         statement="Misuse that the library promises to detect statically (for example comparing containers of different policies, or an atom with an unsuitable policy) does not compile.",
         quantifier=dict(over=["programs"], text="all programs"),
         why_tests_cant="The test suite only contains programs that compile.",
         anchors=dict(files=["immer/atom.hpp", "immer/memory_policy.hpp"],
                      mechanism=[dict(name="static_assert", where="immer/atom.hpp")]),
         reason="A property of compilation, with no execution to simulate."),
]

TECH = "deterministic simulation: seeded schedules, allocation failures, throwing user code, stalls and collections; model check of every observation"
NOTE = ("Seeded sampling of simulated executions of the real headers: each run is checked step by step against a small model, and for races, invalid memory use, leaks and lifetime errors. "
        "A clean batch is evidence over the seeds explored, not proof. Trusts the simulator runtime (arena, happens-before tracking, fibers), clang's instrumentation of memory accesses, and the models.")


def main():
    with open(H + "/properties.jsonl", "w") as f:
        for p in P + NA:
            q = {k: p[k] for k in ("id", "title", "statement", "quantifier",
                                   "why_tests_cant", "anchors")}
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps(q) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3 check.py --setup",
        "checks": [dict(property=p["id"],
                        quick_cmd="python3 check.py " + p["id"],
                        thorough_cmd="python3 check.py " + p["id"],
                        evidence_file="evidence/%s.json" % p["id"],
                        technique=p["technique"] or TECH,
                        level="exploration",
                        level_note=p["note"] or NOTE) for p in P],
        "not_applicable": [dict(property=p["id"], reason=p["reason"])
                           for p in NA],
        "notes": "No hooks in /repo: the simulator interposes on compiler instrumentation (-fsanitize=thread callbacks), the allocator, TLS and libgc entry points at link time. Commits in /repo are fixes only. See DESIGN.md.",
    }
    assert [p["id"] for p in P] == sorted(PROPS)
    with open(H + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
