AM = "include/indexes/art/map.h"
AC = "include/indexes/art/concurrent_map.h"
AD = "include/indexes/art/art_dump.h"
AT = "No test of the repository includes the radix trees; "
prop("A01", "Adaptive radix trees behave as exact dictionaries",
     "Used by one thread at a time, art::map and art::concurrent_map answer every call exactly as a dictionary over their 8-byte keys: Insert succeeds if and only if the key is absent and changes nothing otherwise, Upsert, Update and Delete return the previous value if there was one (Update stores nothing for an absent key), "
     "Search returns the value stored last, size() and empty() always match; a tree moved from or into keeps working and holds exactly what it was given.",
     ["histories", "inputs"], "every sequence of calls over every set of keys (any shared prefix, any branching byte, any fan-out up to 256), every value type",
     AT + "a lost key needs keys whose prefixes diverge at a particular depth inside a particular node size.",
     [AM, AC], [("descent and prefix comparison", AM), ("prefix expansion and node growth", AM), ("the same, copy on write", AC), ("move construction and assignment", AC)],
     "Every call is compared online with a reference dictionary over randomized histories on key sets built from shared prefixes and fan-outs around every node size, under ASan+UBSan;" + HELD)
prop("A02", "Adaptive radix trees keep the canonical path-compressed structure",
     "The dumped structure of either radix tree is exactly the path-compressed trie of the live keys: every live key is one leaf reached along its own bytes with its own value, an inner node exists only where two keys diverge, its prefix is what the keys below it share, its size class (4, 16, 48, 256) fits the number of children, "
     "and no dead node is linked. Used sequentially, nodes shrink and paths merge again when keys are deleted, so the memory a tree occupies depends on its keys and not on its history. After concurrent use the structure still holds every live key once and no deleted one.",
     ["histories", "inputs"], "every history of inserts and deletes over every set of keys, and every concurrent history at its quiescence",
     AT + "a tree that answers correctly can still hold wrong prefixes, oversized nodes or leftover paths that only later operations trip over.",
     [AM, AC, AD], [("node growth and shrinking", AM), ("prefix compression", AM), ("copy-on-write shrinking", AC), ("dump", AD)],
     "The dump after and during randomized histories is parsed and compared with the trie computed from the live keys, and the bytes allocated with those of a fresh tree of the same keys; inner nodes with no or one child are tolerated after concurrent use only." )
prop("A03", "Concurrent radix tree is linearizable",
     "Insert, Upsert, Update, Search and Delete on one art::concurrent_map called from several threads at once take effect atomically, each at one instant between its call and its return: for every key the results are explained by some sequential order, "
     "no acknowledged write is lost, no value is returned that was never stored or only half stored, and the final content and size are those of that order.",
     ["schedules", "histories"], "every interleaving of threads at every memory access, over every mix of operations on the same and on neighbouring keys while nodes grow, shrink, split prefixes and are replaced",
     AT + "a lost or phantom key needs one thread to be suspended between two particular accesses while another replaces the node under it.",
     [AC], [("optimistic version locks", AC), ("copy-on-write node replacement", AC), ("root replacement and root mutex", AC), ("epoch-based reclamation", "include/indexes/utils/EpochManager.h")],
     "Recorded histories of seeded programs, run under a deterministic scheduler that preempts at every memory access and on real threads, are checked per key for linearizability;" + HELD)
prop("A04", "Radix trees neither leak, free twice, nor touch freed memory",
     "Under any sequential or concurrent use, including destruction and move, the radix trees access only memory they own, construct and destroy every stored value exactly once, return everything they allocated when they are destroyed (and their reclaimed nodes at the latest then), perform no unsynchronised conflicting access to nodes, leaves or values, and never wait for a lock they already hold.",
     ["histories", "schedules", "inputs"], "every history, every interleaving, every value type (trivial or owning memory)",
     AT + "a use after free needs a reader inside a node at the instant it is replaced and reclaimed.",
     [AM, AC], [("leaf and node destruction", AM), ("retiring replaced nodes and leaves", AC), ("retry paths", AC)],
     "AddressSanitizer, UBSan, ThreadSanitizer, object-lifetime and allocation-balance monitors watch randomized sequential histories and concurrent programs;" + HELD)
HM = "include/indexes/hashtable/concurrent_map.h"
HTT = "No test of the repository includes the hash map; "
prop("H01", "Concurrent hash map behaves as an exact dictionary under any hash function",
     "Used by one thread, hashtable::concurrent_map answers every call exactly as a dictionary: Insert succeeds if and only if the key is absent and changes nothing otherwise, Upsert, Update and Delete return the previous value if there was one (Update stores nothing for an absent key), Search returns the value stored last, "
     "size() and empty() always match and load_factor() is their share of a power-of-two capacity, which after reserve(n) is at least n. This holds for every hash function, including colliding, clustered and extreme hash values, through any number of migrations to larger tables, after reserve() of any amount (a request, even zero, never loses entries), and after the map was moved.",
     ["histories", "inputs"], "every sequence of calls, every key set, every hash function, every initial capacity and reservation",
     HTT + "a lost key or an insert that never returns needs a particular pattern of collisions, tombstones and migrations.",
     [HM], [("chained open addressing with tombstones", HM), ("bucket choice and overflow", HM), ("migration to a larger table", HM)],
     "Every call is compared online with a reference dictionary over randomized histories under eight families of hash functions, under ASan+UBSan and a step budget;" + HELD)
prop("H02", "Concurrent hash map is linearizable",
     "Insert, Upsert, Update, Search and Delete on one hashtable::concurrent_map called from several threads at once, also while the table migrates or is reserved, take effect atomically, each at one instant between its call and its return: for every key the results are explained by some sequential order, of two concurrent inserts of one key exactly one succeeds, "
     "no acknowledged write is lost, no value is returned that was never stored or only half stored, and the final content and size are those of that order. Every call terminates.",
     ["schedules", "histories"], "every interleaving of threads at every memory access, over every mix of operations on the same key, on colliding keys and across migrations",
     HTT + "a lost insert needs two threads extending one chain at once, or one of them suspended across a whole migration.",
     [HM], [("chain extension", HM), ("bucket locks", HM), ("migration protocol", HM), ("per-thread counts", HM)],
     "Recorded histories of seeded programs, run under a deterministic scheduler that preempts at every memory access and on real threads, are checked per key for linearizability;" + HELD)
prop("H03", "Concurrent hash map is memory-safe, leak-free and of bounded size",
     "Under any sequential or concurrent use the hash map accesses only memory it owns, constructs and destroys every stored key and value exactly once, performs no unsynchronised conflicting access, never waits for a lock it already holds, and returns everything it allocated when it is destroyed; "
     "its capacity stays within a small multiple of the most entries it held or was asked to reserve, however long it is used (when keys hash well).",
     ["histories", "schedules", "inputs"], "every history, every interleaving, every key and value type (trivial or owning memory)",
     HTT + "a use after free needs a reader inside a table at the instant it is replaced and reclaimed; unbounded growth needs long churn.",
     [HM], [("bucket and table destruction", HM), ("retiring a migrated table", HM), ("in-place value replacement", HM)],
     "AddressSanitizer, UBSan, ThreadSanitizer, object-lifetime, allocation-balance and space monitors watch randomized sequential histories and concurrent programs;" + HELD)
