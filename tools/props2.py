CM = "include/indexes/btree/concurrent_map.h"
EP = "include/indexes/utils/EpochManager.h"
HELD = " held on the executions observed, not proved."
CT = "testBtreeConcurrentMap.cpp does not build here (its lock and threading libraries are absent) and samples one uncontrolled schedule of bulk inserts/deletes with 8 KiB nodes; "
prop("C01", "Concurrent B+Tree map is an exact dictionary when used by one thread",
     "Used by one thread at a time, the concurrent B+Tree answers exactly as a dictionary: Insert adds only an absent key and says whether it did; Upsert stores always and Update only over a present key, both returning the previous value; "
     "Search returns the current value; Delete removes the key and returns the value it had; size() and empty() always match; the same holds for keys ordered by a comparator passed with each call, and after the map was moved.",
     ["histories", "inputs", "configurations"], "every sequence of operations, key type (also dynamically compared), node size and merge threshold",
     CT + "small nodes, emptied subtrees, dynamic comparators and moves are never driven.", [CM],
     [("Insert/Upsert/Update/Search/Delete", CM), ("leaf insert, split, trim, merge", CM)],
     "Every call is compared online with a reference dictionary over randomized histories on nine configurations;" + HELD)
prop("C02", "Concurrent B+Tree iterators, bounds and ranges are exact when quiescent",
     "While nobody modifies it, the concurrent B+Tree iterates forward and backward over exactly the live entries in key order; lower_bound and upper_bound start at exactly the right entry, also for absent and partial keys; "
     "range_iter and rrange_iter visit exactly the keys between their bounds, for all four combinations of inclusive/exclusive bounds, for bounds of a type other than the key (partial compound keys), and for bounds given as temporaries.",
     ["histories", "inputs", "configurations"], "every map state reachable by inserts and deletes, every present/absent/partial bound, all inclusive/exclusive combinations, static and dynamic comparison",
     CT + "scans are only over densely filled maps; empty leaves, fences and bound kinds are not exercised.", [CM],
     [("iterators, lower_bound, upper_bound", CM), ("range_iter/rrange_iter", CM)],
     "Complete traversals, walks, bounds and all range forms are compared with the reference after randomized histories;" + HELD)
prop("C03", "Concurrent B+Tree map operations are linearizable",
     "Whatever threads do concurrently, every Insert, Upsert, Update, Search and Delete on the concurrent B+Tree appears to take effect atomically at one instant between its call and its return: no update is lost, duplicated, resurrected or invented, no present key is missed, "
     "and once all operations have returned, Search, iteration, size() and the leaf contents agree. Every operation finishes; no lock is left held.",
     ["schedules", "histories", "inputs"], "every interleaving of any number of threads, every operation mix, including concurrent splits, trims, merges and root changes",
     CT + "races between splits, merges and readers need particular preemption points that a bulk test does not hit or check.", [CM],
     [("optimistic traversal and snapshot validation", CM), ("leaf insert/update/delete under the leaf lock", CM), ("split/trim/merge and root replacement", CM)],
     "Recorded histories of thousands of small concurrent programs, preempted at every memory access by a seeded scheduler and also run on real threads, are checked by a per-key linearizability checker;" + HELD)
prop("C04", "Concurrent B+Tree scans are ordered, in bounds and miss no stable key",
     "A scan (forward, backward, from a bound or over a range) that runs while other threads insert, update and delete visits keys in strictly monotone order without duplicates, never leaves its bounds, terminates, "
     "visits every key that is present throughout the scan, visits no key that is absent throughout, and reports for each key a value it had at some time during the scan.",
     ["schedules", "histories"], "every interleaving of scans with concurrent splits, trims, merges and deletes",
     CT + "no test scans while other threads write.", [CM], [("iterator refill across leaves", CM), ("range bounds under concurrent splits/merges", CM)],
     "Each scan is recorded and checked for order and bounds, and, key by key, as a read that must linearize with the concurrent writes;" + HELD)
prop("C05", "Concurrent B+Tree map touches only live memory and leaks nothing",
     "Under any sequence or interleaving of operations the concurrent B+Tree never accesses memory that was freed (nodes being read by other threads stay valid until those readers leave), frees each node exactly once the way it was allocated, destroys stored keys with their node, "
     "releases locks only by their holder, and after its destruction no memory it allocated remains.",
     ["schedules", "histories", "configurations"], "every interleaving with aggressive reclamation, every operation history, key types with non-trivial destructors, iterators held across modifications",
     CT + "reclamation starts only after 1000 retired nodes and no sanitizer runs.", [CM, EP], [("retirement of replaced nodes", CM), ("discarded split results", CM), ("destructor", CM)],
     "ASan/UBSan, allocation balance per execution and lock monitors watch sequential and preempted concurrent executions with reclamation threshold 2;" + HELD)
prop("C06", "Concurrent B+Tree stays balanced and its statistics match its shape",
     "Once operations have returned, the concurrent B+Tree is one balanced tree: all leaves at the depth height() reports, separators bounding the keys below them, leaf contents exactly the live keys; "
     "split and merge statistics account exactly for the number of nodes (only changes that took effect count) and their printed report shows them; with one thread, a leaf left below the merge threshold is merged with its left sibling when both fit in one node; deleting most entries gives most of the memory back.",
     ["schedules", "histories", "configurations"], "every operation history and interleaving, node size and merge threshold",
     CT + "the shape is never inspected.", [CM, "include/indexes/btree/btree_dump.h", "include/indexes/btree/common.h"],
     [("split/merge/trim and root creation", CM), ("statistics", CM), ("dump", "include/indexes/btree/btree_dump.h")],
     "The dumped structure and statistics are checked after sequential histories and at the end of each preempted concurrent execution;" + HELD)
ET = "no test exercises EpochManager directly and its 1000-object threshold is rarely reached; "
prop("E01", "EpochManager never reclaims an object a thread may still use",
     "An object passed to retire_in_new_epoch or retire_in_current_epoch (singly or as a span) is reclaimed only after every thread that was inside enter_epoch/exit_epoch when the object was unlinked has left its outermost exit_epoch; nested sections protect until the outermost exit; "
     "an object is reclaimed at most once and only if it was retired. This also holds when threads unregister, others register and take over their ids, and when several managers are used by the same threads.",
     ["schedules", "histories", "configurations"], "every interleaving of readers, retirers and reclaimers (including hardware store/load reordering), nesting depth, reclamation threshold and epoch type",
     ET + "a premature reclaim needs a reader paused between publishing its epoch and reading, or while the minimum is computed.", [EP],
     [("enter_epoch/exit_epoch", EP), ("get_min_used_epoch", EP), ("reclaim_in_retire_list", EP)],
     "An oracle tracks who could still hold each reclaimed object, under a preemptive scheduler, in a real-thread litmus stress on x86-64 and under ThreadSanitizer;" + HELD)
prop("E02", "EpochManager loses no retired object and reclaims as promised",
     "Every retired object is reclaimed exactly once, no later than the manager's destruction; do_reclaim reclaims all of the calling thread's objects that no thread can reach any more and returns how many remain; reclaim_all does so for all threads; "
     "with no thread inside an epoch, retiring keeps fewer objects than the threshold (which set_reclamation_threshold changes, unless it is asked for one that is not positive, which it ignores); switch_epoch returns distinct, increasing epochs. What a thread retired before it unregistered is not lost, and managers do not affect each other.",
     ["histories", "schedules", "configurations"], "every history of enter/exit/retire/reclaim/switch over several threads, every threshold and span size",
     ET + "lost or late reclamation is invisible to functional tests.", [EP], [("retire", EP), ("reclaim_in_retire_list", EP), ("destructor", EP)],
     "Exact accounting of every retired object over randomized sequential and preempted histories;" + HELD)
