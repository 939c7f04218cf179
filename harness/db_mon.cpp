// Monitors for the YCSB databases (src/benchmark/ycsb/db), made by name through DBFactory.
// PART 0: one thread, against a reference store.  PART 1: fibers under the preemptive scheduler.
// PART 2: real threads, ASan.  PART 3: real threads, TSan (the mutex-protected databases).
#include "common.h"
#include "indexes/btree/concurrent_map.h"
#include "indexes/btree/map.h"
#include "core/db.h"
#include "utils/properties.h"
#include <algorithm>
#include <array>
#include <cassert>
#include <functional>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <thread>
#include <unordered_map>
#include <tsl/robin_map.h>
#if PART == 1
#include "vh_sched.h"
// a fiber that blocks must yield to the scheduler instead of stopping the only OS thread
namespace std {
struct vh_mutex : vh::SchedMutex {
  void lock_shared() { lock(); }
  void unlock_shared() { unlock(); }
  bool try_lock_shared() { return try_lock(); }
};
}
#define mutex vh_mutex
#define shared_mutex vh_mutex
#endif
#include "db/db_factory.cpp"
#if PART == 1
#undef mutex
#undef shared_mutex
#else
namespace vh { struct OpScope {}; }
#endif
#undef CHECK
#define CHECK(cond, sig, ...) do { if (!(cond)) ::vh::fail(sig, __VA_ARGS__); } while (0)
using namespace vh;
using KV = DB::KVPair;
using Rec = std::vector<KV>;
struct Kind { const char *name; bool scan, replaces; };
static const Kind KINDS[] = {{"stl_map", true, true}, {"stl_umap", false, true}, {"robinmap", false, true}, {"btree", true, true}, {"concurrent_btree", true, false}};
static std::unique_ptr<DB> make(const Kind &k) {
  utils::Properties p;
  p.SetProperty("dbname", k.name);
  return std::unique_ptr<DB>(ycsbc::DBFactory::CreateDB(p));
}
// Known defects of the databases (known_findings.txt), each found by a probe before it is allowed for;
// an allowed one is modelled exactly, or the calls that would corrupt memory are left out.
struct Quirks { bool del, update, shrt, leak; };
static Rec rec2(const char *a) { return {{"a", a}, {"b", a}}; }
static Quirks quirks(const Kind &k) {
  static std::map<std::string, Quirks> memo;
  auto it = memo.find(k.name);
  if (it != memo.end()) return it->second;
  Quirks q{};
  q.del = dies([&] { auto d = make(k); Rec v = rec2("1"); d->Insert("t", "x", v); Rec g; _exit(d->Delete("t", "x") != DB::kOK && d->Read("t", "x", nullptr, 2, g) == DB::kOK && g == rec2("1")); }) && known("delete-ignored");
  q.update = !k.replaces && dies([&] { auto d = make(k); Rec v = rec2("1"); d->Insert("t", "x", v); DB::FieldMap u; u["a"] = "2"; u["b"] = "2"; d->Update("t", "x", 2, u); Rec g; _exit(d->Read("t", "x", nullptr, 2, g) == DB::kOK && g == rec2("1")); }) && known("update-lost");
  q.shrt = dies([&] { auto d = make(k); Rec v(1, {"a", "1"}); d->Insert("t", "x", v); Rec g; d->Read("t", "x", nullptr, 8, g); _exit(g.size() != 1); }) && known("short-record");
  q.leak = dies([&] { size_t b = 0; for (int i = 0; i < 2; i++) { b = heap_bytes(); auto d = make(k); Rec v = rec2("1"); d->Insert("t", "x", v); v = rec2("2"); d->Insert("t", "x", v); } _exit(heap_bytes() > b); }) && known("leak");
  return memo[k.name] = q;
}
static Rec sorted(Rec r) { std::sort(r.begin(), r.end()); return r; }
static Ctr calls("calls_checked"), scans("scans_checked"), recs("records_checked"), balance("heap_balance_checks");

#if PART == 0
static std::string fname(uint64_t i) { return "field" + std::to_string(i); }
static std::string vtext(Rng &r) { return std::string(r.below(40), (char)('a' + r.below(26))) + std::to_string(r.below(1000)); }
static void seq_ops(Rng &r, const Kind &K, DB &db) {
  std::map<std::string, Rec> model;
  std::string table = r.chance(1, 2) ? "usertable" : r.chance(1, 2) ? "t" : "";
  int fc = 1 + (int)r.below(8);
  uint32_t D = r.chance(1, 3) ? 4 : r.chance(1, 2) ? 60 : 700;
  int N = D > 100 ? 2500 : 200;
  int bias = (int)r.below(4);
  db.Init();
  const Quirks Q = quirks(K);
  bool nodel = Q.del && !table.empty();
  for (int i = 0; i < N; i++) {
    std::string key = "user" + std::to_string(r.below(D));
    int what = (int)r.below(10);
    if (bias == 0 && what > 6) what = 0;           // insert heavy
    if (bias == 1 && what < 3 && i > N / 2) what = 9; // delete heavy
    auto it = model.find(key);
    bool has = it != model.end();
    calls++;
    switch (what) {
    case 0: case 1: case 2: {
      Rec v;
      int n = r.chance(1, 8) && !Q.shrt ? (int)r.below(fc + 1) : fc;
      for (int f = 0; f < n; f++) v.push_back({fname(f), vtext(r)});
      op("Insert(%s, %d fields)", key.c_str(), n);
      Rec arg = v;
      int s = db.Insert(table, key, arg);
      if (has && !K.replaces) CHECK(s != DB::kOK, "insert-status", "%s: Insert over a present record returned kOK", K.name);
      else { CHECK(s == DB::kOK, "insert-status", "%s: Insert returned %d", K.name, s); model[key] = v; }
      break;
    }
    case 3: case 4: {
      DB::FieldMap v;
      if (r.chance(1, 3) || (Q.shrt && !has)) for (int f = 0; f < fc; f++) v[fname(f)] = vtext(r);
      else for (uint64_t n = 1 + r.below(2); n--;) v[fname(r.below(fc + !Q.shrt))] = vtext(r);
      op("Update(%s, %zu fields)%s", key.c_str(), (size_t)v.size(), has ? "" : " absent");
      auto copy = v;
      int s = db.Update(table, key, fc, copy);
      CHECK(s == DB::kOK, "update-status", "%s: Update returned %d", K.name, s);
      if (has && Q.update) break;
      Rec &m = model[key];
      for (auto &kv : v) {
        auto f = std::find_if(m.begin(), m.end(), [&](const KV &x) { return x.first == kv.first; });
        if (f != m.end()) f->second = kv.second; else m.push_back({kv.first, kv.second});
      }
      break;
    }
    case 5: case 6: case 7: {
      Rec got{{"stale", "stale"}};
      bool all = r.chance(1, 2);
      DB::FieldSet fs;
      for (uint64_t n = 1 + r.below(3); n--;) fs.insert(fname(r.below(fc + 1)));
      int cnt = r.chance(1, 6) ? (int)r.below(fc + 1) : Q.shrt ? fc : fc + 2;
      op("Read(%s, %s, %d)", key.c_str(), all ? "all" : "some", cnt);
      int s = db.Read(table, key, all ? nullptr : &fs, cnt, got);
      CHECK((s == DB::kOK) == has, "read-status", "%s: Read of %s record returned %d", K.name, has ? "a present" : "an absent", s);
      if (!has) { CHECK(s == DB::kErrorNoData, "read-status", "%s: Read of an absent record returned %d", K.name, s); break; }
      Rec want;
      for (auto &kv : it->second) if (all || fs.count(kv.first)) want.push_back(kv);
      recs++;
      if (cnt >= fc) CHECK(sorted(got) == sorted(want), "read-fields", "%s: Read returned %zu fields that differ from the %zu stored", K.name, got.size(), want.size());
      else {
        CHECK(got.size() <= (size_t)cnt && (!all || got.size() == std::min<size_t>(cnt, want.size())), "read-fields", "%s: Read of %d fields returned %zu", K.name, cnt, got.size());
        for (auto &kv : got) CHECK(std::find(want.begin(), want.end(), kv) != want.end(), "read-fields", "%s: Read returned field %s with a value that is not stored", K.name, kv.first.c_str());
      }
      break;
    }
    case 8: {
      std::vector<Rec> got(2);
      int n = r.chance(1, 5) ? 0 : (int)r.below(30);
      op("Scan(%s, %d)", key.c_str(), n);
      bool all = r.chance(1, 2);
      DB::FieldSet fs;
      fs.insert(fname(r.below(fc)));
      if (!K.scan) {
        bool t = false;
        try { db.Scan(table, key, n, nullptr, fc, got); } catch (const char *) { t = true; } catch (const std::exception &) { t = true; }
        CHECK(t, "scan-unsupported", "%s: Scan is not supported but did not throw", K.name);
        break;
      }
      int s = db.Scan(table, key, n, all ? nullptr : &fs, Q.shrt ? fc : fc + 2, got);
      CHECK(s == DB::kOK, "scan-status", "%s: Scan returned %d", K.name, s);
      std::vector<Rec> want;
      for (auto j = model.lower_bound(key); j != model.end() && (int)want.size() < n; ++j) {
        Rec x;
        for (auto &kv : j->second) if (all || fs.count(kv.first)) x.push_back(kv);
        want.push_back(sorted(x));
      }
      for (auto &x : got) x = sorted(x);
      scans++;
      CHECK(got == want, "scan-records", "%s: Scan of %d records from %s returned %zu records that differ from the %zu expected", K.name, n, key.c_str(), got.size(), want.size());
      break;
    }
    default: {
      op("Delete(%s)%s", key.c_str(), has ? "" : " absent");
      int s = db.Delete(table, key);
      if (nodel) { CHECK(s == DB::kErrorNoData, "delete-status", "%s: Delete returned %d", K.name, s); break; }
      CHECK(s == (has ? DB::kOK : DB::kErrorNoData), "delete-status", "%s: Delete of %s record returned %d", K.name, has ? "a present" : "an absent", s);
      if (has) model.erase(it);
    }
    }
  }
  for (uint32_t k = 0; k < D; k++) {
    std::string key = "user" + std::to_string(k);
    Rec got;
    bool has = model.count(key);
    CHECK((db.Read(table, key, nullptr, Q.shrt ? fc : 100, got) == DB::kOK) == has, "read-status", "%s: at the end, key %s is %s", K.name, key.c_str(), has ? "missing" : "still there");
    if (has) CHECK(sorted(got) == sorted(model[key]), "read-fields", "%s: at the end, record %s differs", K.name, key.c_str());
    recs++;
  }
  db.Close();
  indexes::utils::ThreadRegistry::RegisterThread();
  seen(mix64(model.size() * 31 + D + N + mix64(r.s)));
}
static void run_case(Rng &r) {
  const Kind &K = KINDS[r.below(5)];
  G().config = K.name;
  G().phase = "run";
  quirks(K);
  size_t before = heap_bytes();
  {
    Rng q = r;
    auto db = make(K);
    CHECK(db.get(), "factory", "DBFactory does not know the database %s", K.name);
    seq_ops(q, K, *db);
  }
  G().phase = "destroy";
  size_t after = heap_bytes();
  balance++;
  // a second pass tells real leaks from one-time allocations of the runtime
  if (after > before && !quirks(K).leak) {
    size_t b2 = heap_bytes();
    { Rng q = r; auto db = make(K); seq_ops(q, K, *db); }
    size_t a2 = heap_bytes();
    CHECK(a2 <= b2, "leak", "%s: %zu bytes are still allocated after the database was destroyed", K.name, a2 - b2);
  }
  utils::Properties p;
  p.SetProperty("dbname", "no_such_db");
  CHECK(ycsbc::DBFactory::CreateDB(p) == nullptr, "factory", "DBFactory made a database with an unknown name");
}
#else
// ---------------------------------------------------------------- concurrent
// A record has two fields; every written value names its key and a unique number.
struct DOp { uint8_t kind, tid; uint32_t key; uint64_t a = 0, b = 0; bool ok = false; uint64_t ra = 0, rb = 0, call = 0, ret = 0; };
enum : uint8_t { D_INS, D_UPA, D_UPB, D_UPAB, D_GET, D_DEL, D_SCAN };
struct Lin {
  const std::vector<DOp> *h;
  bool replaces;
  Quirks q;
  std::unordered_set<uint64_t> memo;
  uint64_t work = 0;
  static uint64_t pack(uint64_t a, uint64_t b) { return 1ull << 63 | a << 30 | b; }
  bool apply(const DOp &o, uint64_t &s) const {
    bool has = s >> 63;
    uint64_t a = s >> 30 & 0x3fffffff, b = s & 0x3fffffff;
    switch (o.kind) {
    case D_INS: if (has && !replaces) return !o.ok; if (!o.ok) return false; s = pack(o.a, o.b); return true;
    case D_UPA: case D_UPB: case D_UPAB:
      if (q.update && has) return true;
      if (!o.ok) return false;
      s = pack(o.kind == D_UPB ? has ? a : 0 : o.a, o.kind == D_UPA ? has ? b : 0 : o.b);
      return true;
    case D_GET: return o.ok == has && (!has || (o.ra == a && o.rb == b));
    default: if (q.del) return !o.ok; if (o.ok != has) return false; s = 0; return true;
    }
  }
  bool rec(uint64_t mask, uint64_t s) {
    size_t n = h->size();
    if (mask == (n == 64 ? ~0ull : (1ull << n) - 1)) return true;
    if (!memo.insert(mix64(mask * 0x9e3779b97f4a7c15ull ^ mix64(s))).second) return false;
    if (++work > 500000) return true;
    uint64_t minret = ~0ull;
    for (size_t i = 0; i < n; i++) if (!(mask >> i & 1)) minret = std::min(minret, (*h)[i].ret);
    for (size_t i = 0; i < n; i++) {
      if (mask >> i & 1 || (*h)[i].call > minret) continue;
      uint64_t t = s;
      if (apply((*h)[i], t) && rec(mask | 1ull << i, t)) return true;
    }
    return false;
  }
};
static std::string kname(uint32_t k) { return "user" + std::to_string(k); }
static std::string val(uint32_t k, char f, uint64_t n) { return std::to_string(k) + f + std::to_string(n) + "#" + std::string(20 + n % 30, 'x'); }
static uint64_t decode(const std::string &s, uint32_t k, char f) {
  std::string p = std::to_string(k) + f;
  CHECK(s.compare(0, p.size(), p) == 0, "foreign-value", "record %u holds in field %c the value %.20s", k, f, s.c_str());
  uint64_t n = strtoull(s.c_str() + p.size(), nullptr, 10);
  CHECK(s == val(k, f, n), "torn-value", "record %u holds in field %c a value nobody wrote: %.40s", k, f, s.c_str());
  return n;
}
static void decode_rec(const Rec &r, uint32_t k, uint64_t &a, uint64_t &b) {
  a = b = 0;
  for (auto &kv : r) {
    CHECK(kv.first == "a" || kv.first == "b", "foreign-field", "record %u holds a field named %.20s", k, kv.first.c_str());
    (kv.first == "a" ? a : b) = decode(kv.second, k, kv.first[0]);
  }
  CHECK(r.size() == (size_t)(a != 0) + (b != 0), "torn-record", "record %u was read with %zu fields", k, r.size());
}
#if PART == 1
static uint64_t tick() { return sched_now(); }
#else
static std::atomic<uint64_t> g_tick{0};
#if PART == 3 // the clock must not order the threads for the race detector
static uint64_t tick() { return g_tick.fetch_add(1, std::memory_order_relaxed); }
#else
static uint64_t tick() { return g_tick.fetch_add(1); }
#endif
#endif
static Ctr kc("keys_checked"), ku("keys_undecided"), ov("overlapping_op_pairs"), ex("executions"), swc("context_switches"), wt("lock_waits");
static void exec(DB &db, std::vector<DOp> &prog, std::vector<DOp> &hist, uint32_t D, uint64_t &ncalls, uint64_t &nscans) {
  const std::string table = "t";
  for (auto o : prog) {
    std::string key = kname(o.key);
    Rec v;
    DB::FieldMap fm;
    if (o.kind == D_INS) v = {{"a", val(o.key, 'a', o.a)}, {"b", val(o.key, 'b', o.b)}};
    if (o.kind == D_UPA || o.kind == D_UPAB) fm["a"] = val(o.key, 'a', o.a);
    if (o.kind == D_UPB || o.kind == D_UPAB) fm["b"] = val(o.key, 'b', o.b);
    std::vector<Rec> out;
    o.call = tick();
    int s = 0;
    {
      OpScope scope;
      switch (o.kind) {
      case D_INS: s = db.Insert(table, key, v); break;
      case D_UPA: case D_UPB: case D_UPAB: s = db.Update(table, key, 2, fm); break;
      case D_GET: s = db.Read(table, key, nullptr, 2, v); break;
      case D_DEL: s = db.Delete(table, key); break;
      default: s = db.Scan(table, key, 1000, nullptr, 2, out);
      }
    }
    o.ret = tick();
    o.ok = s == DB::kOK;
    ncalls++;
    if (o.kind == D_GET && o.ok) decode_rec(v, o.key, o.ra, o.rb);
    if (o.kind == D_SCAN) {
      CHECK(o.ok, "scan-status", "Scan returned %d", s);
      nscans++;
      std::string last;
      std::vector<char> got(D, 0);
      for (auto &rec : out) {
        CHECK(!rec.empty(), "torn-record", "a scan returned a record without fields");
        uint32_t k = (uint32_t)atoi(rec[0].second.c_str());
        CHECK(k < D && kname(k) >= key, "scan-range", "a scan from %s returned record %u", key.c_str(), k);
        CHECK(last.empty() || last < kname(k), "scan-order", "a scan returned record %u after %s", k, last.c_str());
        last = kname(k);
        DOp g = o;
        g.kind = D_GET; g.key = k; g.ok = true;
        decode_rec(rec, k, g.ra, g.rb);
        got[k] = 1;
        hist.push_back(g);
      }
      for (uint32_t k = 0; k < D; k++) if (!got[k] && kname(k) >= key) { DOp g = o; g.kind = D_GET; g.key = k; g.ok = false; hist.push_back(g); }
      continue;
    }
    hist.push_back(o);
  }
}
static void run_case(Rng &r) {
#if PART == 3
  const Kind &K = KINDS[r.below(4)];
#else
  const Kind &K = r.chance(3, 4) ? KINDS[4] : KINDS[r.below(4)];
#endif
  G().config = K.name;
  const Quirks Q = quirks(K);
  int T = 2 + (int)r.below(3);
  static const uint32_t ds[] = {1, 2, 3, 6, 12};
  uint32_t D = ds[r.below(5)];
  uint64_t seq = 1;
  std::vector<std::vector<DOp>> prog(T);
  static const int ws[4][7] = {{3, 2, 2, 1, 4, 3, 1}, {1, 5, 5, 2, 4, 1, 0}, {4, 0, 0, 1, 3, 5, 1}, {2, 3, 3, 0, 6, 2, 2}};
  const int *w = ws[r.below(4)];
  for (int t = 0; t < T; t++) {
    int n = 2 + (int)r.below(D <= 2 ? 7 : 14);
    for (int i = 0; i < n; i++) {
      DOp o{};
      int x = (int)r.below(17), k = 0;
      int tot = 0;
      for (int j = 0; j < 7; j++) tot += w[j];
      x = (int)r.below(tot);
      while (x >= w[k]) x -= w[k++];
      o.kind = (uint8_t)k;
      if (k == D_SCAN && !K.scan) o.kind = D_GET;
      o.tid = (uint8_t)t;
      o.key = (uint32_t)r.below(D);
      // without deletes the records loaded at the start stay; only their updates may leave out fields
      if (Q.shrt && (o.kind == D_UPA || o.kind == D_UPB) && !(Q.del && o.key % 3 != 2)) o.kind = D_UPAB;
      o.a = seq++;
      o.b = seq++;
      prog[t].push_back(o);
    }
  }
  std::vector<uint64_t> init(D, 0);
  int rounds = PART == 1 ? 3 : 1;
  for (int rd = 0; rd < rounds; rd++) {
    op("program db=%s threads=%d D=%u round=%d", K.name, T, D, rd);
    std::vector<std::vector<DOp>> hist(T);
    for (auto &h : hist) h.reserve(400);
    // real threads leave per-thread runtime state behind: start them once before the heap is read
    size_t before;
    {
#if PART == 2
      std::vector<std::thread> ts;
      std::atomic<int> ready{0};
      for (int t = 0; t < T; t++) ts.emplace_back([&] { indexes::utils::ThreadRegistry::RegisterThread(); ready++; while (ready < T) std::this_thread::yield(); indexes::utils::ThreadRegistry::UnregisterThread(); });
      for (auto &t : ts) t.join();
#endif
    }
    before = heap_bytes();
    uint64_t h = 0;
    {
      auto db = make(K);
      for (uint32_t k = 0; k < D; k++) {
        init[k] = 0;
        if (k % 3 != 2) { Rec v{{"a", val(k, 'a', 900000 + k)}, {"b", val(k, 'b', 910000 + k)}}; db->Insert("t", kname(k), v); init[k] = Lin::pack(900000 + k, 910000 + k); }
      }
      std::vector<uint64_t> nc(T, 0), ns(T, 0);
#if PART == 1
      SchedCfg c;
      c.seed = mix64(G().seed * 7919 + G().case_no * 131 + rd);
      if (r.chance(1, 3)) { c.kind = SchedCfg::PRIO; c.changes = 1 + (int)r.below(8); c.est_len = 3000; }
      else { static const uint64_t ms[] = {2, 5, 12, 30, 80, 200, 600}; c.mean = ms[r.below(7)]; }
      c.max_points = 6000000;
      std::vector<std::function<void()>> bodies;
      for (int t = 0; t < T; t++) bodies.push_back([&, t] { db->Init(); exec(*db, prog[t], hist[t], D, nc[t], ns[t]); db->Close(); indexes::utils::ThreadRegistry::UnregisterThread(); });
      SchedStats st = sched_run(c, bodies.data(), T);
      swc += st.switches; wt += st.blocks; h = st.hash;
#else
      std::vector<std::thread> ts;
      std::atomic<int> ready{0};
      for (int t = 0; t < T; t++) ts.emplace_back([&, t] { db->Init(); ready++; while (ready < T) std::this_thread::yield(); exec(*db, prog[t], hist[t], D, nc[t], ns[t]); db->Close(); indexes::utils::ThreadRegistry::UnregisterThread(); });
      for (auto &t : ts) t.join();
#endif
      for (int t = 0; t < T; t++) { calls += nc[t]; scans += ns[t]; }
      std::vector<std::vector<DOp>> per(D);
      for (auto &v : hist) for (auto &o : v) per[o.key].push_back(o);
      for (uint32_t k = 0; k < D; k++) {
        DOp g{};
        g.kind = D_GET; g.key = k; g.call = tick();
        Rec v;
        g.ok = db->Read("t", kname(k), nullptr, 2, v) == DB::kOK;
        g.ret = tick();
        if (g.ok) decode_rec(v, k, g.ra, g.rb);
        per[k].push_back(g);
        auto &o = per[k];
        for (size_t i = 0; i + 1 < o.size(); i++) for (size_t j = i + 1; j < o.size(); j++) if (o[i].call < o[j].ret && o[j].call < o[i].ret) ov++;
        std::sort(o.begin(), o.end(), [](const DOp &x, const DOp &y) { return x.call < y.call; });
        for (auto &x : o) h = mix64(h ^ (x.kind * 7 + x.ok + x.ra * 31 + x.tid * 1000003));
        if (o.size() > 64) { ku++; continue; }
        Lin l;
        l.h = &o;
        l.replaces = K.replaces;
        l.q = Q;
        bool ok = l.rec(0, init[k]);
        if (l.work > 500000) { ku++; continue; }
        if (!ok) {
          static const char *nm[] = {"Insert", "Update(a)", "Update(b)", "Update(a,b)", "Read", "Delete"};
          printf("-- history of record %u (initially %s) --\n", k, init[k] ? "present" : "absent");
          for (auto &x : o) printf("  [%6" PRIu64 ",%6" PRIu64 "] T%d %s a=%" PRIu64 " b=%" PRIu64 " -> %s a=%" PRIu64 " b=%" PRIu64 "\n", x.call, x.ret, x.tid, nm[x.kind], x.a, x.b, x.ok ? "ok" : "no", x.ra, x.rb);
          fail("not-linearizable", "%s: no order of the %zu calls on record %u explains their results", K.name, o.size(), k);
        }
        kc++;
      }
      ex++;
    }
    for (auto &h : hist) { std::vector<DOp>().swap(h); }
    (void)before;
#if PART != 3
    size_t after = heap_bytes();
    seen(h);
    static uint64_t grew = 0;
    // thread start-up may cache a little once; a leak grows with every execution
    if (!Q.leak && after > before + (PART == 1 ? 64 : 4096)) { if (++grew > 3) fail("leak", "%s: %zu bytes are still allocated after the database was destroyed", K.name, after - before); }
    else { balance++; }
#else
    seen(h);
#endif
  }
}
#endif

int main(int argc, char **argv) {
  Args a = parse(argc, argv, "db_mon");
  indexes::utils::ThreadRegistry::RegisterThread();
  uint64_t cases = a.num("cases", 100), only = a.num("only", ~0ull);
  static Ctr cc("cases");
  for (uint64_t i = 0; i < cases; i++) {
    if (only != ~0ull && i != only) continue;
    G().case_no = i;
    Rng r(mix64(G().seed) ^ mix64(i + 77));
#if PART != 1
    budget(4000000000ull);
#endif
    run_case(r);
    cc++;
  }
  finish();
}
