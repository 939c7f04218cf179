#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run it after editing; both are committed)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from jobs import CHECKS
P = []
MAP = "include/indexes/btree/map.h"
KEY = "include/indexes/btree/key.h"


def prop(id, title, statement, over, text, why, files, mech, level_note=None, na=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), level_note, na))


BT = "testBtreeMap.cpp replays three fixed insert/lookup/delete sequences on one key layout with 8 KiB nodes; "
prop("M01", "B+Tree map behaves as an exact dictionary",
     "The single-threaded B+Tree map answers every call exactly as a sorted associative container: lookup finds a key if and only if it was inserted and not erased since, with the value last stored under it; "
     "operator[] on an absent key adds exactly that key with a default value and on a present key refers to its current value; erase (by key or by iterator) removes exactly that entry and reports truthfully whether it was there; size() and empty() always match.",
     ["histories", "inputs", "configurations"],
     "every sequence of inserts, updates, lookups and erases, every key and value type with a total order (also under a non-default comparator or descending compound key), every node size and merge threshold",
     BT + "they never erase a whole leaf or subtree, never vary node size or merge threshold, and never use non-trivial keys under churn.",
     [MAP, KEY], [("find / operator[] / erase", MAP), ("node split, trim and merge", MAP), ("descent by separators", MAP)],
     "Every call on the real map is compared online with a reference dictionary over randomized histories that force splits, merges and trims on many configurations; held on the executions observed, not proved.")
prop("M02", "B+Tree map iteration is complete, ordered and duplicate-free",
     "Iterating the single-threaded B+Tree map from begin to end visits every live entry exactly once in ascending key order, and from rbegin to rend in descending order, through mutable, const and reverse iterators alike; "
     "from any entry, stepping an iterator forward or backward reaches exactly the next or previous live key, and stepping past either extreme gives end()/rend(). Two iterators compare equal exactly when they are at the same entry.",
     ["histories", "inputs", "configurations"],
     "every map state reachable by inserts and erases (including maps that were never used or have been emptied), every entry as a starting point",
     BT + "they traverse only densely filled maps, so leaves that erases have drained are never crossed.",
     [MAP], [("iterator increment/decrement across leaves", MAP), ("begin/rbegin/cbegin/crbegin", MAP)],
     "Complete traversals with all six iterator pairs and random walks are compared with the reference after randomized histories; held on the executions observed.")
prop("M03", "B+Tree map bounds are exact, also for partial compound keys",
     "On the single-threaded B+Tree map lower_bound(k) returns the first entry whose key is not less than k and upper_bound(k) the first entry whose key is greater, or end() when there is none; "
     "k need not be present, and may be a compound key giving only the leading columns, which sorts before all of its extensions.",
     ["histories", "inputs", "configurations"],
     "every map state reachable by inserts and erases, every present, absent, smallest, largest or partial probe key",
     BT + "bounds are asked only for present keys and one partial-key shape in a dense map, never beside drained leaves or node fences.",
     [MAP, KEY], [("lower_bound/upper_bound", MAP), ("ordering of compound keys of different lengths", KEY)],
     "Bound queries at present keys, gaps, extremes and partial keys are compared with a linear scan of the reference; held on the executions observed.")
prop("K01", "Compound keys are totally ordered and all their comparisons agree",
     "Compound keys compare column by column, ascending for compound_key and descending for compound_key_greater, and the first differing column decides; a key that gives only the leading columns of another sorts before it and is not equal to it, in both orders. "
     "For any two keys of one order, of equal or different length, exactly one of <, == and > holds, and <=, >= and != agree with it, so keys sort and are found in sorted containers. Copying and assigning a key preserves its value.",
     ["inputs"], "every pair of keys of every length and element type (with a total order), nested keys included",
     "The tests use a single compound key type with one kind of comparison and look only at what the maps return.",
     [KEY], [("less<Index> recursion over the columns, partial keys", KEY), ("== != > <= >=", KEY)],
     "Every comparison between random keys is checked against an element-wise reference, across lengths, orders, limits and nesting; held on the executions observed, not proved.")
prop("M04", "B+Tree map touches only live memory and destroys every entry once",
     "Whatever is done with it, the single-threaded B+Tree map never reads or writes memory outside live, correctly aligned objects; "
     "each stored key and value is constructed exactly once and destroyed exactly once, an erased value no later than the erase, the rest no later than the map; and after the map is destroyed none of its memory remains allocated.",
     ["histories", "inputs", "configurations"],
     "every operation history on key and value types with non-trivial construction and destruction, every node size",
     BT + "the tests run without sanitizers or allocation accounting, so leaks, double destruction and stale reads go unseen.",
     [MAP], [("entry construction/destruction in nodes", MAP), ("node free on split, trim and merge", MAP), ("destructor", MAP)],
     "ASan and UBSan watch every access, lifetime-checked objects watch construction/destruction, allocator byte counts watch leaks; as strong as those tools on the executions observed.")
prop("M05", "B+Tree map stays balanced and its statistics and space match its shape",
     "All leaves of the single-threaded B+Tree are at one depth, height() is that depth, it grows only logarithmically with the number of inserted entries, separators bound the keys below them, and the dump shows exactly the live keys; "
     "the split and merge statistics account exactly for the number of nodes and their printed report shows them; a leaf left below the merge threshold is merged with its left sibling when both fit in one node, so erasing most entries gives most of the memory back.",
     ["histories", "inputs", "configurations"],
     "every operation history, node size and merge threshold",
     BT + "the shape is never inspected: a degenerate, unmerged or mis-separated tree still answers the sampled lookups.",
     [MAP, "include/indexes/btree/btree_dump.h", "include/indexes/btree/common.h"], [("split/merge/trim decisions", MAP), ("statistics", "include/indexes/btree/common.h"), ("dump", "include/indexes/btree/btree_dump.h")],
     "The dumped structure, statistics and allocator byte counts are checked for consistency at many points of randomized histories; held on the executions observed.")

here = os.path.dirname(os.path.abspath(__file__))
for extra in ("props2.py", "props3.py", "props4.py"):
    p = os.path.join(here, extra)
    if os.path.exists(p):
        exec(open(p).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d, _, _ in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
man = {"version": 1, "setup_cmd": "python3 check.py setup",
       "hooks": {"guard": "INDEXES_VERIF_RECLAMATION_THRESHOLD", "enable": "-DINDEXES_VERIF_RECLAMATION_THRESHOLD=2 (set by check.py for the fiber-scheduler builds)", "source_commits": ["27c2b67"]},
       "checks": [], "not_applicable": [], "notes": "see DESIGN.md; known and fixed findings are in known_findings.txt"}
SUSPENDED = set()
for d, ln, na in P:
    if d['id'] in SUSPENDED:
        na = 'the check is being adapted to the unrepaired benchmark sources (their defects are known findings)'
    if na:
        man["not_applicable"].append({"property": d["id"], "reason": na})
        continue
    c = CHECKS[d["id"]]
    man["checks"].append({"property": d["id"], "quick_cmd": "python3 check.py %s quick" % d["id"], "thorough_cmd": "python3 check.py %s thorough" % d["id"],
                          "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": ln})
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
