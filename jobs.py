"""Which monitors decide which property, and how much they run per tier."""
COV = ["-fsanitize-coverage=trace-pc-guard"]
# fiber-scheduler build: every instrumented edge, load and store of the code under test is a preemption point
FIB = ["-DVH_SCHED", "-DINDEXES_VERIF_RECLAMATION_THRESHOLD=2", "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"]
RTF = ["-DVH_SCHED"]
SOURCES = {
    "btree_seq": {"src": "btree_seq.cpp", "flags": COV},
    "cmap_seq": {"src": "cmap_seq.cpp", "flags": COV},
    "cmap_fib": {"src": "cmap_conc.cpp", "flags": FIB, "rt": "rt_sched", "rtflags": RTF},
    "cmap_thr": {"src": "cmap_conc.cpp", "flags": COV},
    "epoch_mon": {"src": "epoch_mon.cpp", "flags": FIB, "rt": "rt_sched", "rtflags": RTF},
    "key_mon": {"src": "key_mon.cpp", "flags": COV},
    "gen_mon": {"src": "gen_mon.cpp", "flags": COV},
    "gen_tsan": {"src": "gen_mon.cpp", "flags": [], "flavor": "tsan"},
    "ycsb_mon": {"src": "ycsb_mon.cpp", "flags": COV, "libs": ["-lpthread", "-Wl,--wrap=main"]},
    "ycsb_tsan": {"src": "ycsb_mon.cpp", "flags": [], "flavor": "tsan", "libs": ["-lpthread", "-Wl,--wrap=main"]},
    "db_seq": {"src": "db_mon.cpp", "flags": COV},
    "db_fib": {"src": "db_mon.cpp", "flags": FIB, "rt": "rt_sched", "rtflags": RTF},
    "db_tsan": {"src": "db_mon.cpp", "flags": [], "flavor": "tsan"},
    "art_seq": {"src": "art_seq.cpp", "flags": COV},
    "art_fib": {"src": "art_conc.cpp", "flags": FIB, "rt": "rt_sched", "rtflags": RTF},
    "art_thr": {"src": "art_conc.cpp", "flags": COV},
    "art_tsan": {"src": "art_conc.cpp", "flags": ["-DVH_RACES"], "flavor": "tsan"},
    "ht_seq": {"src": "ht_seq.cpp", "flags": COV},
    "ht_fib": {"src": "ht_conc.cpp", "flags": FIB, "rt": "rt_sched", "rtflags": RTF},
    "ht_thr": {"src": "ht_conc.cpp", "flags": COV},
    "ht_tsan": {"src": "ht_conc.cpp", "flags": ["-DVH_RACES"], "flavor": "tsan"},
    "epoch_tsan": {"src": "epoch_litmus.cpp", "flags": ["-DVH_RACES"], "flavor": "tsan"},
    "epoch_litmus": {"src": "epoch_litmus.cpp", "flags": ["-O2"], "flavor": "plain"},
}
MODEL = "model monitor: every call on the real map replayed on std::map, under ASan+UBSan"
RULE_M = ("a case is one seeded operation history (fill orders, sliding windows, range drops, random mixes, erase-all) on one of 15 key/value/node-size "
          "configurations; distinct = distinct (size, splits, merges, trims) tree states the oracle was evaluated in")


def bseq(mode, q, t):
    return [{"src": "btree_seq", "parts": [0, 1, 2, 3], "args": {"mode": mode}, "quick": {"cases": q, "shards": 2}, "thorough": {"cases": t, "shards": 12}}]


def seq(src, parts, mode, q, t, qs=2, ts=12):
    return [{"src": src, "parts": list(range(parts)), "args": {"mode": mode}, "quick": {"cases": q, "shards": qs}, "thorough": {"cases": t, "shards": ts}}]


RULE_S = ("a case is one seeded operation history on one key/value/node-size configuration; distinct = distinct (size, splits, merges, trims) states the oracle was evaluated in")
RULE_C = ("a case is one seeded concurrent program (2-5 threads over 1-96 keys, prefilled and churned, or readers of the greatest keys against runs of deletes and inserts); fiber runs execute it under 4 seeded schedules with preemption at every memory access "
          "(random, priority-based with few change points, and with one thread held up inside an operation while the others go on), thread runs on real threads; distinct = distinct context-switch sequences (fibers) or call/return orders (threads)")
RULE_G = ("a case is one generator of a random kind and parameter set (range, theta, base, weights) drawn from 60-400 times (range) or 20k-200k times (distribution), with the library's random engine or an adversarial one "
          "that yields the extremes; distinct = distinct (kind, parameters, values) outcomes")
RULE_W = ("a case is one random workload configuration (distribution, proportions, record and field counts, field length law, insert order, zero padding, thread count ...) driven through the real workload, client or driver against a recording database; "
          "distinct = distinct (configuration, request log) outcomes")
RULE_D = ("a case is one seeded history of Read/Scan/Update/Insert/Delete with random field sets on a database made by DBFactory, or one concurrent program of 2-4 client threads on 1-12 records under 3 seeded schedules (fibers) or real threads (TSan); "
          "distinct = distinct end states (sequential) or call histories (concurrent)")
RULE_A = ("a case is one seeded history (fill, churn, delete, move) over key sets built from shared prefixes and fan-outs around the node sizes 4/16/48/256; distinct = distinct (size, key pool, phase) states the oracle was evaluated in")
RULE_H = ("a case is one seeded history (fill, churn, delete, reserve, move) over runs, strides, powers of two and random keys under one of eight hash families (identity, mixed, three values, high bits only, reserved values plain and as preimages of the mixing step, grouped, constant) and initial capacities; distinct = distinct (size, key pool, hash family, phase) states the oracle was evaluated in")
RULE_K = ("a case is 2-15 random keys of each length of one family of key types (lengths 1 to 5, numbers at their limits, strings, an own type, nested keys, both orders), all compared with each other, sorted and looked up; distinct = distinct sets of keys")
RULE_E = ("a case is one seeded program of enter/exit (nested), read, unlink+retire (new/current epoch, single/span), do_reclaim, reclaim_all, switch over 2-4 threads and 1-4 shared slots; "
          "distinct = distinct context-switch sequences or end states; litmus cases are real-thread reader/writer races at -O2 without sanitizers")
A_SHIM = "sync_prim (Mutex, ThreadRegistry), folly and gsl are absent from the repository; the monitors compile the headers against stand-ins with the interface the code uses"
A_SC = "fiber runs explore sequentially consistent interleavings; hardware reordering is observed only in the real-thread runs, on x86-64"


def conc(fib, thr, parts, mode, q, qt, t, tt, qs=2, ts=8):
    js = [{"src": fib, "parts": parts, "args": {"mode": mode}, "quick": {"cases": q, "shards": qs}, "thorough": {"cases": t, "shards": ts}}]
    if thr:
        js.append({"src": thr, "parts": parts, "args": {"mode": mode}, "quick": {"cases": qt, "shards": 1}, "thorough": {"cases": tt, "shards": 2}})
    return js


CHECKS = {
    "M01": {"jobs": bseq("dict", 600, 6000), "technique": MODEL, "rule": RULE_M, "floor": {"comparisons": 1000, "splits": 100, "merges": 100}},
    "M02": {"jobs": bseq("iter", 400, 4000), "technique": MODEL, "rule": RULE_M, "floor": {"full_traversals": 1000, "walk_steps": 1000}},
    "M03": {"jobs": bseq("bounds", 400, 4000), "technique": MODEL, "rule": RULE_M, "floor": {"bound_queries": 1000, "partial_key_queries": 100}},
    "M04": {"jobs": bseq("life", 600, 6000), "technique": "ASan+UBSan plus object-lifetime and allocation-balance monitors", "rule": RULE_M, "floor": {"heap_balance_checks": 100, "trims": 100}},
    "M05": {"jobs": bseq("shape", 400, 4000), "technique": "structure monitor over dump(), statistics and allocator byte counts", "rule": RULE_M, "floor": {"structure_dumps": 100, "merges_due": 100}},
    "K01": {"jobs": [{"src": "key_mon", "args": {}, "quick": {"cases": 3000, "shards": 2}, "thorough": {"cases": 60000, "shards": 8}}], "technique": "order monitor: every comparison the real keys make is checked against a reference order, under ASan+UBSan", "rule": RULE_K, "floor": {"comparisons": 1000000, "partial_comparisons": 100000, "equal_pairs": 10000, "sorted_sequences": 1000}},
    "C01": {"jobs": seq("cmap_seq", 4, "dict", 500, 6000), "technique": MODEL, "rule": RULE_S, "floor": {"comparisons": 1000, "splits": 100, "merges": 100}, "assumptions": [A_SHIM]},
    "C02": {"jobs": seq("cmap_seq", 4, "iter", 300, 4000, 1, 6) + seq("cmap_seq", 4, "range", 300, 4000, 1, 6), "technique": MODEL, "rule": RULE_S, "floor": {"full_traversals": 500, "range_scans": 500, "bound_queries": 500}, "assumptions": [A_SHIM]},
    "C03": {"jobs": conc("cmap_fib", "cmap_thr", [0, 1], "lin", 14000, 3000, 120000, 30000), "technique": "linearizability monitor over recorded call/return histories, under a deterministic preemptive scheduler and real threads, with ASan+UBSan", "rule": RULE_C, "floor": {"keys_checked": 1000, "overlapping_op_pairs": 1000, "context_switches": 1000}, "assumptions": [A_SHIM, A_SC], "evaluations": "executions"},
    "C04": {"jobs": conc("cmap_fib", "cmap_thr", [0, 1], "scan", 9000, 2000, 120000, 30000), "technique": "scan monitor: every scan checked for order, bounds and, per key, linearizability against the concurrent writes", "rule": RULE_C, "floor": {"scans_checked": 1000, "overlapping_op_pairs": 1000, "context_switches": 1000}, "assumptions": [A_SHIM, A_SC], "evaluations": "executions"},
    "C05": {"jobs": seq("cmap_seq", 4, "life", 400, 5000, 1, 8) + conc("cmap_fib", "cmap_thr", [0, 1], "mem", 9000, 2000, 100000, 20000), "technique": "ASan+UBSan, allocation-balance and lock-discipline monitors on sequential and concurrent histories", "rule": RULE_C, "floor": {"executions": 1000, "heap_balance_checks": 100}, "assumptions": [A_SHIM, A_SC], "evaluations": "executions"},
    "E01": {"jobs": [{"src": "epoch_mon", "args": {"mode": "conc"}, "quick": {"cases": 24000, "shards": 4}, "thorough": {"cases": 400000, "shards": 8}}, {"src": "epoch_mon", "args": {"mode": "seq"}, "quick": {"cases": 8000, "shards": 2}, "thorough": {"cases": 200000, "shards": 4}},
                     {"src": "epoch_litmus", "args": {}, "quick": {"cases": 60, "rounds": 200000, "shards": 2}, "thorough": {"cases": 800, "rounds": 300000, "shards": 2}},
                     {"src": "epoch_tsan", "args": {}, "quick": {"cases": 15, "rounds": 20000, "shards": 1}, "thorough": {"cases": 400, "rounds": 50000, "shards": 2}}],
            "technique": "reclamation-safety monitor (who could still hold a reclaimed object), under the deterministic scheduler, as a real-thread litmus stress and under ThreadSanitizer", "rule": RULE_E, "floor": {"reclaims_with_active_sections": 1000, "reader_sections": 10000}, "assumptions": [A_SHIM, A_SC]},
    "E02": {"jobs": [{"src": "epoch_mon", "args": {"mode": "seq"}, "quick": {"cases": 30000, "shards": 4}, "thorough": {"cases": 600000, "shards": 8}}, {"src": "epoch_mon", "args": {"mode": "conc"}, "quick": {"cases": 8000, "shards": 2}, "thorough": {"cases": 200000, "shards": 4}}],
            "technique": "reclamation-accounting monitor: exactly-once, no-loss and bounded deferral of every retired object", "rule": RULE_E, "floor": {"must_reclaim_checks": 1000}, "assumptions": [A_SHIM]},
    "C06": {"jobs": [{"src": "cmap_seq", "parts": [0, 1], "args": {"mode": "shape"}, "quick": {"cases": 500, "shards": 2}, "thorough": {"cases": 5000, "shards": 8}}] + conc("cmap_fib", "cmap_thr", [0, 1], "shape", 6000, 1500, 100000, 20000),
            "technique": "structure monitor over dump(), height() and statistics, after sequential histories and at quiescence of concurrent ones", "rule": RULE_C, "floor": {"structure_dumps": 500, "final_structures": 500}, "assumptions": [A_SHIM, A_SC], "evaluations": "executions"},
    "G01": {"jobs": seq("gen_mon", 2, "range", 2500, 60000, 2, 8), "technique": "range monitor on every value drawn from the real generators, under ASan+UBSan and an adversarial random engine", "rule": RULE_G, "floor": {"range_checks": 10000, "last_checks": 10000}},
    "G02": {"jobs": [{"src": "gen_mon", "parts": [0], "args": {"mode": "dist"}, "quick": {"cases": 250, "shards": 4}, "thorough": {"cases": 4000, "shards": 8}}], "technique": "statistical monitor: observed shares against the configured law, with tolerances far above sampling noise", "rule": RULE_G, "floor": {"distribution_checks": 300}},
    "G03": {"jobs": [{"src": "gen_tsan", "parts": [2], "args": {}, "quick": {"cases": 300, "shards": 3}, "thorough": {"cases": 4000, "shards": 6}}], "technique": "ThreadSanitizer plus exactly-once monitor over the numbers handed out to real threads", "rule": RULE_G, "floor": {"handed_out_numbers": 1000, "thread_alternations": 50}},
    "W01": {"jobs": [{"src": "ycsb_mon", "parts": [0], "args": {"mode": "workload"}, "quick": {"cases": 400, "shards": 4}, "thorough": {"cases": 8000, "shards": 8}}], "technique": "configuration monitor: everything the real workload generates is checked against its settings", "rule": RULE_W, "floor": {"keys_checked": 1000, "values_checked": 1000, "operations_checked": 1000, "distribution_checks": 50, "refusals_checked": 20}},
    "W02": {"jobs": [{"src": "ycsb_mon", "parts": [0], "args": {"mode": "client"}, "quick": {"cases": 400, "shards": 3}, "thorough": {"cases": 8000, "shards": 8}}, {"src": "ycsb_tsan", "parts": [1], "args": {}, "quick": {"cases": 60, "shards": 3}, "thorough": {"cases": 1500, "shards": 4}}],
            "technique": "request-log monitor behind the database interface, with ThreadSanitizer for client threads sharing a workload", "rule": RULE_W, "floor": {"operations_checked": 1000, "thread_alternations": 20}},
    "W03": {"jobs": [{"src": "ycsb_mon", "parts": [0], "args": {"mode": "driver"}, "quick": {"cases": 300, "shards": 4}, "thorough": {"cases": 4000, "shards": 8}}], "technique": "exactly-once monitor over all database calls of complete runs of the real driver program", "rule": RULE_W, "floor": {"keys_checked": 1000, "refusals_checked": 10, "client_threads_seen": 50}},
    "U01": {"jobs": [{"src": "ycsb_mon", "parts": [0], "args": {"mode": "props"}, "quick": {"cases": 1500, "shards": 2}, "thorough": {"cases": 60000, "shards": 4}}], "technique": "model monitor for the property files and helpers, under ASan+UBSan", "rule": RULE_W, "floor": {"property_lines": 1000, "property_lookups": 1000, "hash_checks": 1000}},
    "D01": {"jobs": [{"src": "db_seq", "parts": [0], "args": {}, "quick": {"cases": 200, "shards": 4}, "thorough": {"cases": 4000, "shards": 8}}], "technique": "model monitor: every database call replayed on a reference record store, with allocation balance, under ASan+UBSan", "rule": RULE_D, "floor": {"calls_checked": 10000, "records_checked": 10000, "scans_checked": 500, "heap_balance_checks": 50}},
    "D02": {"jobs": [{"src": "db_fib", "parts": [1], "args": {}, "quick": {"cases": 8000, "shards": 4}, "thorough": {"cases": 200000, "shards": 8}}, {"src": "db_seq", "parts": [2], "args": {}, "quick": {"cases": 1500, "shards": 2}, "thorough": {"cases": 30000, "shards": 2}}, {"src": "db_tsan", "parts": [3], "args": {}, "quick": {"cases": 2000, "shards": 2}, "thorough": {"cases": 40000, "shards": 2}}],
            "technique": "per-record linearizability monitor over recorded histories under the deterministic scheduler and real threads, with ASan and TSan", "rule": RULE_D, "floor": {"keys_checked": 1000, "overlapping_op_pairs": 1000, "context_switches": 1000}, "assumptions": [A_SHIM, A_SC], "evaluations": "executions"},
    "A01": {"jobs": seq("art_seq", 4, "dict", 1500, 30000), "technique": MODEL, "rule": RULE_A, "floor": {"comparisons": 10000, "moves": 100}, "assumptions": [A_SHIM]},
    "A02": {"jobs": [{"src": "art_seq", "parts": [0, 2], "args": {"mode": "shape"}, "quick": {"cases": 1500, "shards": 3}, "thorough": {"cases": 30000, "shards": 8}}] + conc("art_fib", None, [0], "lin", 6000, 0, 100000, 0), "technique": "structure monitor over dump() and allocator byte counts, against the trie computed from the live keys", "rule": RULE_A, "floor": {"structure_dumps": 500, "final_structures": 500, "space_checks": 500, "inner_49_256": 20}, "assumptions": [A_SHIM]},
    "A03": {"jobs": conc("art_fib", "art_thr", [0, 1], "lin", 16000, 3000, 200000, 30000), "technique": "linearizability monitor over recorded call/return histories, under a deterministic preemptive scheduler and real threads, with ASan+UBSan", "rule": RULE_C, "floor": {"keys_checked": 1000, "overlapping_op_pairs": 1000, "context_switches": 1000}, "assumptions": [A_SHIM, A_SC], "evaluations": "executions"},
    "A04": {"jobs": [{"src": "art_seq", "parts": [0, 1, 2, 3], "args": {"mode": "life"}, "quick": {"cases": 800, "shards": 1}, "thorough": {"cases": 20000, "shards": 6}}] + conc("art_fib", "art_thr", [0, 1], "mem", 12000, 2000, 150000, 20000) + [{"src": "art_tsan", "parts": [0, 1], "args": {"mode": "mem"}, "quick": {"cases": 800, "shards": 1}, "thorough": {"cases": 20000, "shards": 2}}], "technique": "ASan+UBSan, TSan, allocation-balance and lock-discipline monitors on sequential and concurrent histories", "rule": RULE_C, "floor": {"executions": 1000, "heap_balance_checks": 100}, "assumptions": [A_SHIM, A_SC], "evaluations": "executions"},
    "H01": {"jobs": seq("ht_seq", 2, "dict", 1200, 30000, 3), "technique": MODEL, "rule": RULE_H, "floor": {"comparisons": 10000, "moves": 100, "reserves": 100}, "assumptions": [A_SHIM]},
    "H02": {"jobs": conc("ht_fib", "ht_thr", [0, 1], "lin", 20000, 1000, 250000, 12000), "technique": "linearizability monitor over recorded call/return histories, under a deterministic preemptive scheduler and real threads, with ASan+UBSan", "rule": RULE_C, "floor": {"keys_checked": 1000, "overlapping_op_pairs": 1000, "context_switches": 1000, "concurrent_reserves": 100}, "assumptions": [A_SHIM, A_SC], "evaluations": "executions"},
    "H03": {"jobs": seq("ht_seq", 2, "space", 800, 20000, 1, 6) + conc("ht_fib", None, [0, 1], "mem", 14000, 0, 200000, 0) + [{"src": "ht_tsan", "parts": [0, 1], "args": {"mode": "mem"}, "quick": {"cases": 400, "shards": 1}, "thorough": {"cases": 10000, "shards": 3}}], "technique": "ASan+UBSan, TSan, allocation-balance, object-lifetime and space monitors on sequential and concurrent histories", "rule": RULE_C, "floor": {"executions": 1000, "heap_balance_checks": 100, "space_checks": 100}, "assumptions": [A_SHIM, A_SC], "evaluations": "executions"},
}
