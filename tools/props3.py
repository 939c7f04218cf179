GEN = "src/benchmark/utils/"
YC = "src/benchmark/ycsb/"
UT = "No test of the repository touches the benchmark code; "
prop("G01", "Request generators never leave their range and report the last value drawn",
     "Whatever its parameters and the random numbers underneath, a benchmark request generator yields only values of its range: uniform, zipfian and scrambled zipfian values lie within [min, max], also when the item count changes between draws; skewed-latest values lie between 0 and the newest item, "
     "whichever that is at the moment; counters count up by one from their start; a discrete generator yields only values added with a positive weight. Last() returns exactly the value drawn last, however often it is called. "
     "RandomDouble stays within the bounds of each call, RandomPrintChar is a visible character, and generateRandomValues stays within its bounds.",
     ["inputs", "histories"], "every parameter set (range, theta in (0,1), weights), every sequence of random numbers including the ends of the unit interval, every growth history of the item count",
     UT + "a value outside the range needs a random number near the end of the unit interval or a particular sequence of item counts.",
     [GEN + "zipfian_generator.h", GEN + "uniform_generator.h", GEN + "utils.h"],
     [("zipfian formula and incremental zeta", GEN + "zipfian_generator.h"), ("latest item to zipfian range", GEN + "skewed_latest_generator.h"), ("weighted choice", GEN + "discrete_generator.h"), ("counter", GEN + "counter_generator.h")],
     "Every value drawn over thousands of random and extreme parameter sets is checked, with the library's random engine and with one that forces the extremes;" + HELD)
prop("G02", "Request generators follow the distribution they are named for",
     "Over many draws each request generator yields its values in the proportions of its law: uniform spreads evenly over its range; zipfian gives the item of rank i a share close to 1/(i+1)^theta of the zeta sum, including after items were added; scrambled zipfian spreads the popular items over the whole range; "
     "skewed-latest favours the newest items in zipfian proportion; discrete choices occur in proportion to their weights; random characters, doubles and generated keys are spread over their whole range.",
     ["inputs", "histories"], "every parameter set (range, theta, weights), every growth history of the item count",
     UT + "a skewed or degenerate distribution still yields plausible single values; it only shows against the law over many draws.",
     [GEN + "zipfian_generator.h", GEN + "scrambled_zipfian_generator.h", GEN + "discrete_generator.h"],
     [("zeta and eta", GEN + "zipfian_generator.h"), ("scrambling hash", GEN + "scrambled_zipfian_generator.h"), ("weights", GEN + "discrete_generator.h")],
     "Observed shares over 10^4-10^5 draws per case are compared with the law within tolerances of several standard deviations plus the approximation's own error; a subtle distortion below that tolerance is not seen.")
prop("G03", "Generators shared by threads lose, repeat and tear nothing",
     "A request generator shared by client threads stays correct: no data race, every value in range, and a counter hands out each number exactly once with none skipped, each thread seeing its own numbers increase and Last() ending at the highest.",
     ["schedules"], "every interleaving of threads drawing from one generator, and every mix of Next and Last",
     UT + "a lost or doubled number needs two threads inside the generator at once.",
     [GEN + "counter_generator.h", GEN + "zipfian_generator.h", GEN + "discrete_generator.h"],
     [("atomic counter", GEN + "counter_generator.h"), ("zipfian mutex", GEN + "zipfian_generator.h"), ("atomic last value", GEN + "uniform_generator.h")],
     "ThreadSanitizer watches real threads and the numbers handed out are checked for exactly-once;" + HELD)
prop("W01", "The YCSB workload generates exactly what its properties configure",
     "A workload initialised from properties (recordcount at least 1) generates only what they configure: table name, field count and read/write-all settings; field names field0..fieldN-1 and visible-character values whose lengths follow the configured law and never exceed the configured length; "
     "sequence keys from insertstart on, one per record, in ordered or hashed form; transaction keys only of loaded or already inserted records, from insertstart on, under the uniform, zipfian or latest law; operations in the configured proportions and never one of proportion 0; "
     "scan lengths between 1 and the configured maximum. Unknown distributions and incomplete settings are refused with an exception, and every request terminates.",
     ["configurations", "inputs"], "every combination of the workload properties and their defaults",
     UT + "the number of configurations is large and most errors show only in some of them.",
     [YC + "core/core_workload.h", YC + "core/core_workload.cpp"],
     [("Init from properties", YC + "core/core_workload.cpp"), ("NextTransactionKey / BuildKeyName / BuildValues", YC + "core/core_workload.h")],
     "Random configurations are drawn and everything the real workload generates is checked against them;" + HELD)
prop("W02", "YCSB clients ask the database for exactly what the workload asked for",
     "Each load step of a YCSB client inserts exactly one new record, in key order, with all configured fields; each transaction makes exactly the database call of its operation (read-modify-write: a read, then an update of the same key) on the configured table, on a key already inserted, with all fields or exactly one valid field name as configured and valid values; "
     "the client returns success exactly if the database did. Client threads sharing a workload never insert the same key twice, skip none, and race on nothing.",
     ["configurations", "histories", "schedules"], "every configuration, every sequence of transactions, every answer of the database, every interleaving of client threads",
     UT + "what reaches the database is visible only to a database that records it.",
     [YC + "core/client.h", YC + "core/core_workload.h"],
     [("DoInsert and transactions", YC + "core/client.h"), ("key sequence shared by threads", YC + "core/core_workload.h")],
     "A recording database logs every call of the real client over random configurations, with scripted failures and under ThreadSanitizer with several threads;" + HELD)
prop("W03", "The YCSB driver runs every record and operation exactly once",
     "A run of the YCSB driver loads each configured record exactly once before the first transaction and then runs exactly the configured number of operations, whatever the number of threads, also if it does not divide them; each thread opens and closes the database once per phase; "
     "the report states the counts loaded, the database, the workload file and the threads. Invalid command lines and unreadable workload files are reported, not run and not crashed on.",
     ["configurations", "inputs"], "every thread count, record and operation count, command line and workload file",
     UT + "the driver is a main program whose effect is only visible at the database.",
     [YC + "ycsb.cpp"], [("DelegateClient, phase split", YC + "ycsb.cpp"), ("command line", YC + "ycsb.cpp")],
     "The real main() runs in-process with a recording database over random counts, threads and command lines;" + HELD)
prop("U01", "Property files and helper functions are exact",
     "Loading a property file yields exactly the key/value pairs its lines define, the last one winning, with surrounding white space removed and comments and lines without '=' ignored; lookups return them, the given default otherwise, and never add anything; "
     "Trim removes exactly surrounding white space; StrToBool accepts exactly the documented truth values; Hash is the 64-bit FNV-1a hash of the number's bytes.",
     ["inputs"], "every property file, string and 64-bit number", UT + "text handling and hashing fail on unusual inputs only.",
     [GEN + "properties.h", GEN + "utils.h"], [("Load", GEN + "properties.h"), ("Hash, Trim, StrToBool", GEN + "utils.h")],
     "Random and hostile inputs are compared with independent reference implementations under ASan/UBSan;" + HELD)
prop("D01", "YCSB databases store, update, scan and delete records exactly",
     "Each database made by DBFactory (stl_map, stl_umap, robinmap, btree, concurrent_btree) behaves as a store of records: Insert makes the record readable with exactly its fields (the concurrent tree refuses an existing key, the locked maps replace it); Update replaces exactly the named fields, adds missing ones and creates a missing record; "
     "Read returns exactly the requested fields or reports no data; Scan returns, in key order from the given key, exactly as many records as asked for and available; Delete removes the record and reports truthfully. "
     "No access leaves live memory whatever the number of fields written, and a destroyed database leaves nothing allocated. Unknown names give no database.",
     ["histories", "inputs", "configurations"], "every sequence of operations on one table, every field set, every number of fields written",
     UT + "the databases are only ever driven by the benchmark, which checks no answer.",
     [YC + "db/locked_map_db.h", YC + "db/concurrent_map_db.h", YC + "db/db_factory.cpp"],
     [("LockedMapDB", YC + "db/locked_map_db.h"), ("ConcurrentMapDB", YC + "db/concurrent_map_db.h"), ("CreateDB", YC + "db/db_factory.cpp")],
     "Every call on the real databases is compared with a reference store over random histories, with ASan/UBSan and allocation balance;" + HELD)
prop("D02", "YCSB databases serve concurrent clients atomically and safely",
     "With any number of client threads (each having called Init, and Close at the end), every Read, Insert, Update and Delete on a record of a YCSB database takes effect atomically: a reader sees all fields of one version, no update is lost, and for each record some order of the calls explains all results; "
     "a scan sees each record so, in key order and within its bounds. Records replaced or deleted while others read them stay valid until those readers are done, are then freed exactly once, and the lock-based databases have no data race.",
     ["schedules", "histories"], "every interleaving of client threads, every operation mix",
     UT + "lost updates and use after free need two clients on one record at once.",
     [YC + "db/concurrent_map_db.h", YC + "db/locked_map_db.h", EP],
     [("Update and Delete of a shared record", YC + "db/concurrent_map_db.h"), ("reclamation of replaced records", YC + "db/concurrent_map_db.h"), ("lock", YC + "db/locked_map_db.h")],
     "Recorded histories under a scheduler that preempts at every memory access, on real threads under ASan and, for the locked databases, under TSan, are checked per record for linearizability;" + HELD)
