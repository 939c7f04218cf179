// Monitors for the YCSB workload, client and driver (src/benchmark/ycsb), observed at the DB interface
// through a recording database.  PART 0: one thread, ASan+UBSan.  PART 1: client threads, TSan.
#include "common.h"
#include <algorithm>
#include <cassert>
#include <cmath>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <mutex>
#include <sstream>
#include <sys/wait.h>
#include <thread>
#include "core/core_workload.cpp"
#include "ycsb.cpp" // its main() is reached as __real_main (linked with --wrap=main)
extern "C" int __real_main(int, const char **);
extern "C" int __wrap_main(int, char **);
#define ycsb_main __real_main
#undef CHECK
#define CHECK(cond, sig, ...) do { if (!(cond)) ::vh::fail(sig, __VA_ARGS__); } while (0)
using namespace vh;
using ycsbc::CoreWorkload;
using ycsbc::DB;

static uint64_t fnv(uint64_t v) {
  uint64_t h = 0xCBF29CE484222325ull;
  for (int i = 0; i < 8; i++, v >>= 8) { h ^= v & 0xff; h *= 0x100000001B3ull; }
  return h;
}
struct Call { char kind; std::string table, key; bool all; std::vector<std::string> fields; int fc, count; DB::FieldVec vals; std::thread::id tid; };
struct RecDB : DB {
  std::mutex m;
  std::vector<Call> calls;
  std::vector<int> script; // results to return
  size_t at = 0;
  int last = kOK;                    // the latest answer
  int inits = 0, closes = 0;
  bool live = false;                 // behave like a database instead of following the script
  std::set<std::string> have;
  int res(char k, const std::string &key) {
    if (!live) return script.empty() ? kOK : script[at++ % script.size()];
    if (k == 'I') { return have.insert(key).second ? kOK : kErrorConflict; }
    return have.count(key) ? kOK : kErrorNoData;
  }
  int put(Call c) {
    std::lock_guard<std::mutex> g(m);
    c.tid = std::this_thread::get_id();
    int r = res(c.kind, c.key);
    calls.push_back(std::move(c));
    return last = r;
  }
  static std::vector<std::string> fl(const FieldSet *f) { std::vector<std::string> v; if (f) for (auto &s : *f) v.push_back(s); return v; }
  void Init() override { std::lock_guard<std::mutex> g(m); inits++; }
  void Close() override { std::lock_guard<std::mutex> g(m); closes++; }
  int Read(const std::string &t, const std::string &k, const FieldSet *f, int fc, std::vector<KVPair> &) override { return put({'R', t, k, !f, fl(f), fc, 0, {}}); }
  int Scan(const std::string &t, const std::string &k, int n, const FieldSet *f, int fc, std::vector<std::vector<KVPair>> &) override { return put({'S', t, k, !f, fl(f), fc, n, {}}); }
  int Update(const std::string &t, const std::string &k, int fc, FieldMap &v) override { FieldVec x(v.begin(), v.end()); std::sort(x.begin(), x.end()); return put({'U', t, k, false, {}, fc, 0, x}); }
  int Insert(const std::string &t, const std::string &k, std::vector<KVPair> &v) override { return put({'I', t, k, false, {}, 0, 0, v}); }
  int Delete(const std::string &t, const std::string &k) override { return put({'D', t, k, false, {}, 0, 0, {}}); }
};
static DB *g_made;
DB *ycsbc::DBFactory::CreateDB(utils::Properties &p) { return p["dbname"] == "nodb" ? nullptr : g_made; }

// ---------------------------------------------------------------- configurations
struct Cfg {
  std::string table = "usertable", rdist = "uniform", ldist = "uniform", fdist = "constant";
  int fields = 10, flen = 100, rc = 10, ops = 0, maxscan = 1000, start = 0;
  double p[5] = {0.95, 0.05, 0, 0, 0}; // read update insert scan rmw
  bool rall = true, wall = false, ordered = false;
  utils::Properties props;
};
// Known defects of the benchmark sources (known_findings.txt): a listed one is tolerated only in the
// exact form described there, and territory where it would end the process is left out only while a
// probe in a child process still shows it.
static bool few_items_fail() {
  static int v = -1;
  if (v < 0) {
    v = listed("zipf-few-items") && dies([] { ycsbc::CounterGenerator b(0); b.Set(1); ycsbc::SkewedLatestGenerator g(b); for (int i = 0; i < 1000; i++) g.Next(); });
    if (v) known("zipf-few-items");
  }
  return v;
}
// the scrambled chooser over n items never draws one of the first rc
static bool never_loaded(uint64_t n, uint64_t rc) { for (uint64_t i = 0; i <= n; i++) if (fnv(i) % n < rc) return false; return true; }
static bool endless_requests() {
  static int v = -1;
  if (v < 0) {
    uint64_t n = 4, rc = 3;
    for (rc = 1; rc < 30; rc++) { for (n = rc + 4; n < 400 && !never_loaded(n, rc); n++) ; if (n < 400) break; }
    v = rc < 30 && listed("endless-request") && dies([&] {
      utils::Properties p;
      p.SetProperty("recordcount", std::to_string(rc)); p.SetProperty("operationcount", std::to_string(n - rc));
      p.SetProperty("insertproportion", "0.5"); p.SetProperty("requestdistribution", "zipfian");
      CoreWorkload w;
      w.Init(p);
      for (int i = 0; i < 10; i++) w.NextTransactionKey();
    }, 4);
    if (v) known("endless-request");
  }
  return v;
}
static std::string num(double d) { std::ostringstream o; o << d; return o.str(); }
static Cfg gen_cfg(Rng &r, bool big = false) {
  Cfg c;
  auto set = [&](const char *k, const std::string &v) { c.props.SetProperty(k, v); };
  if (r.chance(1, 2)) { static const char *t[] = {"t", "users", ""}; c.table = t[r.below(3)]; set("table", c.table); }
  if (r.chance(3, 4)) { c.fields = 1 + (int)r.below(12); set("fieldcount", std::to_string(c.fields)); }
  if (r.chance(3, 4)) { c.flen = r.chance(1, 5) ? 1 : 1 + (int)r.below(40); set("fieldlength", std::to_string(c.flen)); }
  if (r.chance(2, 3)) { static const char *t[] = {"constant", "uniform", "zipfian"}; c.fdist = t[r.below(3)]; set("field_len_dist", c.fdist); }
  c.rc = r.chance(1, 6) ? 1 + (int)r.below(3) : 1 + (int)r.below(big ? 300 : 60);
  set("recordcount", std::to_string(c.rc));
  c.ops = (int)r.below(200);
  set("operationcount", std::to_string(c.ops));
  if (r.chance(5, 6)) {
    static const char *k[] = {"readproportion", "updateproportion", "insertproportion", "scanproportion", "readmodifywriteproportion"};
    double sum = 0;
    for (int i = 0; i < 5; i++) { c.p[i] = r.chance(1, 3) ? 0 : 0.05 * (double)(1 + r.below(19)); sum += c.p[i]; }
    if (sum == 0) c.p[r.below(5)] = 1;
    for (int i = 0; i < 5; i++) set(k[i], num(c.p[i]));
  }
  if (r.chance(4, 5)) { static const char *t[] = {"uniform", "zipfian", "latest"}; c.rdist = t[r.below(3)]; set("requestdistribution", c.rdist); }
  if (r.chance(3, 4)) { c.maxscan = r.chance(1, 6) ? 1 : 1 + (int)r.below(100); set("maxscanlength", std::to_string(c.maxscan)); }
  if (r.chance(1, 2)) { c.ldist = r.chance(1, 2) ? "uniform" : "zipfian"; set("scanlengthdistribution", c.ldist); }
  // left out: see few_items_fail() and endless_requests()
  bool few = (c.rc < 3 && c.rdist != "uniform") || (c.maxscan < 3 && c.ldist == "zipfian") || (c.flen < 3 && c.fdist == "zipfian");
  if (few && few_items_fail()) {
    if (c.rc < 3) set("recordcount", std::to_string(c.rc += 3));
    if (c.maxscan < 3) set("maxscanlength", std::to_string(c.maxscan += 3));
    if (c.flen < 3) set("fieldlength", std::to_string(c.flen += 3));
  }
  uint64_t space = c.rc + (uint64_t)(int)(c.ops * c.p[2] * 2);
  if (c.rdist == "zipfian" && never_loaded(space, c.rc) && endless_requests()) set("operationcount", std::to_string(c.ops = 0));
  static const char *bt[] = {"true", "True", "1", "TRUE"}, *bf[] = {"false", "FALSE", "0", "False"};
  if (r.chance(2, 3)) { c.rall = r.chance(1, 2); set("readallfields", c.rall ? bt[r.below(4)] : bf[r.below(4)]); }
  if (r.chance(2, 3)) { c.wall = r.chance(1, 2); set("writeallfields", c.wall ? bt[r.below(4)] : bf[r.below(4)]); }
  if (r.chance(1, 2)) { c.ordered = r.chance(1, 2); set("insertorder", c.ordered ? "ordered" : "hashed"); }
  if (r.chance(1, 2)) { c.start = (int)r.below(r.chance(1, 2) ? 10 : 5000); set("insertstart", std::to_string(c.start)); }
  for (auto &kv : c.props.properties()) op("%s=%s", kv.first.c_str(), kv.second.c_str());
  G().config = c.rdist + "/" + (c.ordered ? "ordered" : "hashed");
  return c;
}
static std::string key_of(const Cfg &c, uint64_t i) { return "user" + std::to_string(c.ordered ? i : fnv(i)); }
static bool is_field(const Cfg &c, const std::string &f) {
  if (f.compare(0, 5, "field") || f.size() == 5 || f.size() > 9) return false;
  for (size_t i = 5; i < f.size(); i++) if (!isdigit((unsigned char)f[i])) return false;
  return f == "field" + std::to_string(atoi(f.c_str() + 5)) && atoi(f.c_str() + 5) < c.fields;
}
static Ctr values("values_checked"), keys("keys_checked"), opsn("operations_checked"), shares("distribution_checks");
static void check_value(const Cfg &c, const std::string &v) {
  values++;
  if (c.fdist == "zipfian" && v.empty() && known("zipf-base")) return;
  CHECK(v.size() >= 1 && v.size() <= (size_t)c.flen, "field-length", "a field value has %zu bytes, configured %s up to %d", v.size(), c.fdist.c_str(), c.flen);
  if (c.fdist == "constant") CHECK(v.size() == (size_t)c.flen, "field-length", "a field value has %zu bytes, configured constant %d", v.size(), c.flen);
  for (unsigned char ch : v) CHECK(ch > ' ' && ch <= '~', "field-text", "a field value holds the unprintable code %d", ch);
}
static void check_all_fields(const Cfg &c, const DB::FieldVec &v) {
  CHECK(v.size() == (size_t)c.fields, "record-fields", "a record was built with %zu fields, configured %d", v.size(), c.fields);
  std::set<std::string> s;
  for (auto &kv : v) { CHECK(is_field(c, kv.first) && s.insert(kv.first).second, "record-fields", "a record was built with field %s (twice or unknown)", kv.first.c_str()); check_value(c, kv.second); }
}
static bool near(double got, double want, double n, double slack = 0) { return std::fabs(got - want) <= slack + 7 * std::sqrt(std::max(want * (1 - want), 1.0 / n) / n) + 2e-4; }
static void share(const char *what, double got, double want, double n, double slack = 0) {
  shares++;
  CHECK(near(got, want, n, slack), "distribution", "%s: share %.4f, expected %.4f (%.0f draws)", what, got, want, n);
}
static double zeta(uint64_t n, double th = 0.99) { double z = 0; for (uint64_t i = 1; i <= n; i++) z += 1 / std::pow((double)i, th); return z; }

// shares of the lengths 0 and 1 under the zipfian law over 1..n (known: the two most popular come as 0 and 1)
static void length_share(const char *what, double zeros, double ones, int n, double draws) {
  double z = zeta(n);
  if (zeros > 0 && near(zeros, 1 / z, draws) && near(ones, std::pow(0.5, 0.99) / z, draws) && known("zipf-base")) { shares++; return; }
  share(what, ones, 1 / z, draws);
}

// ---------------------------------------------------------------- W01: what the workload generates
static void workload_case(Rng &r) {
  Cfg c = gen_cfg(r, true);
  CoreWorkload w;
  if (r.chance(1, 8)) { // configurations that must be refused
    static const char *bad[][2] = {{"requestdistribution", "gaussian"}, {"scanlengthdistribution", "constant"}, {"field_len_dist", "latest"}, {"readallfields", "maybe"}, {"writeallfields", "2"}, {"requestdistribution", ""}};
    auto &b = bad[r.below(6)];
    c.props.SetProperty(b[0], b[1]);
    op("bad %s=%s", b[0], b[1]);
    bool thrown = false;
    try { w.Init(c.props); } catch (const utils::Exception &e) { thrown = std::strlen(e.what()) > 0; }
    CHECK(thrown, "refusal", "%s=%s was accepted", b[0], b[1]);
    static Ctr rf("refusals_checked");
    rf++;
    return;
  }
  w.Init(c.props);
  CHECK(w.field_count() == c.fields && w.read_all_fields() == c.rall && w.write_all_fields() == c.wall, "settings",
        "fieldcount=%d readall=%d writeall=%d differ from the configured %d %d %d", w.field_count(), w.read_all_fields(), w.write_all_fields(), c.fields, c.rall, c.wall);
  CHECK(w.NextTable() == c.table, "settings", "table is %s, configured %s", w.NextTable().c_str(), c.table.c_str());
  std::set<std::string> have;
  for (int i = 0; i < c.rc; i++) {
    std::string k = w.NextSequenceKey();
    keys++;
    CHECK(k == key_of(c, c.start + i), "sequence-key", "sequence key %d is %s, expected %s", i, k.c_str(), key_of(c, c.start + i).c_str());
    have.insert(k);
  }
  std::set<std::string> from0; // known: requests ignore insertstart
  bool shifted = false;
  if (c.start > 0) for (int i = 0; i < c.rc; i++) from0.insert(key_of(c, i));
  std::map<std::string, uint64_t> cnt;
  int N = r.chance(1, 4) ? 20000 : 500;
  std::string newest = key_of(c, c.start + c.rc - 1), oldest = key_of(c, c.start);
  op("%d transaction keys", N);
  for (int i = 0; i < N; i++) {
    std::string k = w.NextTransactionKey();
    keys++;
    if (!have.count(k) && from0.count(k) && known("insertstart")) shifted = true;
    else CHECK(have.count(k), "transaction-key", "transaction key %s was never loaded (recordcount=%d insertstart=%d)", k.c_str(), c.rc, c.start);
    cnt[k]++;
  }
  if (N > 1000) {
    if (c.rdist == "uniform") for (auto &k : shifted ? from0 : have) share("uniform key", (double)cnt[k] / N, 1.0 / c.rc, N);
    if (c.rdist == "latest" && c.start == 0) {
      double got = (double)cnt[newest] / N;
      if (!near(got, 1 / zeta(c.rc), N) && near(got, 1 / zeta(c.rc - 1), N) && known("latest-oldest")) shares++;
      else share("latest key", got, 1 / zeta(c.rc), N);
    }
    if (c.rdist == "zipfian" && c.rc > 20) {
      uint64_t mx = 0;
      for (auto &kv : cnt) mx = std::max(mx, kv.second);
      shares++;
      CHECK((double)mx / N > 2.0 / c.rc, "distribution", "zipfian requests: the most popular of %d keys got only %.4f of them", c.rc, (double)mx / N);
    }
  }
  uint64_t on[8] = {0};
  for (int i = 0; i < N; i++) on[w.NextOperation() & 7]++;
  double sum = 0;
  for (double p : c.p) sum += p;
  static const ycsbc::Operation o[5] = {ycsbc::READ, ycsbc::UPDATE, ycsbc::INSERT, ycsbc::SCAN, ycsbc::READMODIFYWRITE};
  for (int i = 0; i < 5; i++) {
    opsn++;
    if (c.p[i] == 0) CHECK(on[o[i]] == 0, "operation-mix", "operation %d has proportion 0 but was requested %" PRIu64 " times", i, on[o[i]]);
    share("operation", (double)on[o[i]] / N, c.p[i] / sum, N);
  }
  std::map<std::string, uint64_t> fc;
  for (int i = 0; i < N; i++) {
    std::string f = w.NextFieldName();
    CHECK(is_field(c, f), "field-name", "field name %s, with %d fields", f.c_str(), c.fields);
    fc[f]++;
  }
  for (int i = 0; i < c.fields; i++) share("field name", (double)fc["field" + std::to_string(i)] / N, 1.0 / c.fields, N);
  uint64_t ones = 0, zeros = 0;
  for (int i = 0; i < N; i++) {
    size_t l = w.NextScanLength();
    ones += l == 1; zeros += l == 0;
    if (c.ldist == "zipfian" && l == 0 && known("zipf-base")) continue;
    CHECK(l >= 1 && l <= (size_t)c.maxscan, "scan-length", "scan length %zu, configured up to %d", l, c.maxscan);
  }
  if (c.ldist == "uniform") share("scan length 1", (double)ones / N, 1.0 / c.maxscan, N);
  else length_share("scan length 1", (double)zeros / N, (double)ones / N, c.maxscan, N);
  uint64_t short0 = 0, short1 = 0, vals = 0;
  for (int i = 0; i < 60; i++) {
    DB::FieldVec v;
    w.BuildValues(v);
    check_all_fields(c, v);
    for (auto &x : v) { short0 += x.second.empty(); short1 += x.second.size() == 1; vals++; }
    DB::FieldMap m, u;
    w.BuildValues(m);
    check_all_fields(c, DB::FieldVec(m.begin(), m.end()));
    w.BuildUpdate(u);
    CHECK(u.size() == 1 && is_field(c, u.begin()->first), "update-fields", "an update was built with %zu fields", u.size());
    check_value(c, u.begin()->second);
  }
  if (c.fdist == "uniform") share("field length 1", (double)short1 / vals, 1.0 / c.flen, (double)vals);
  if (c.fdist == "zipfian") length_share("field length 1", (double)short0 / vals, (double)short1 / vals, c.flen, (double)vals);
  seen(mix64(c.rc * 31 + c.fields + c.flen * 7919 + (uint64_t)c.start * 1000003));
}

// ---------------------------------------------------------------- W02: what the client asks the database
struct ClientOracle {
  const Cfg &c;
  std::set<std::string> present;
  uint64_t next;
  explicit ClientOracle(const Cfg &cc) : c(cc), next(cc.start) {}
  void insert(const Call &k) {
    keys++;
    CHECK(k.kind == 'I' && k.table == c.table, "insert-call", "an insert reached the database as call %c on table %s", k.kind, k.table.c_str());
    CHECK(present.insert(k.key).second, "insert-key", "key %s was inserted twice", k.key.c_str());
    CHECK(k.key == key_of(c, next), "insert-key", "insert of key %s, expected the next key %s", k.key.c_str(), key_of(c, next).c_str());
    next++;
    check_all_fields(c, k.vals);
  }
  void target(const Call &k) {
    keys++;
    CHECK(k.table == c.table, "table", "call on table %s, configured %s", k.table.c_str(), c.table.c_str());
    bool loaded = present.count(k.key);
    for (int i = 0; !loaded && c.start > 0 && i < c.rc; i++) loaded = k.key == key_of(c, i) && known("insertstart");
    CHECK(loaded, "transaction-key", "call %c on key %s, which was never inserted", k.kind, k.key.c_str());
    CHECK(k.fc == c.fields, "field-count", "call %c with field_count %d, configured %d", k.kind, k.fc, c.fields);
  }
  void reads(const Call &k) {
    target(k);
    CHECK(k.all == c.rall, "read-fields", "read of %s fields, configured readallfields=%d", k.all ? "all" : "some", c.rall);
    if (!k.all && k.fields.size() == 1 && k.fields[0].compare(0, 5, "field") == 0 && is_field(c, k.fields[0].substr(5)) && known("field-name")) return;
    if (!k.all) CHECK(k.fields.size() == 1 && is_field(c, k.fields[0]), "read-fields", "read of %zu fields, the first named %s", k.fields.size(), k.fields.empty() ? "" : k.fields[0].c_str());
  }
  void update(const Call &k) {
    target(k);
    if (c.wall) check_all_fields(c, k.vals);
    else { CHECK(k.vals.size() == 1 && is_field(c, k.vals[0].first), "update-fields", "update of %zu fields, the first named %s", k.vals.size(), k.vals.empty() ? "" : k.vals[0].first.c_str()); check_value(c, k.vals[0].second); }
  }
};
static void client_case(Rng &r) {
  Cfg c = gen_cfg(r);
  CoreWorkload w;
  w.Init(c.props);
  RecDB db;
  ycsbc::Client cl(db, w);
  ClientOracle o(c);
  db.live = r.chance(1, 2);
  if (!db.live) for (int i = 0; i < 7; i++) db.script.push_back((int)r.below(3));
  for (int i = 0; i < c.rc; i++) {
    bool ok = cl.DoInsert();
    CHECK(db.calls.size() == 1, "insert-call", "DoInsert made %zu database calls", db.calls.size());
    o.insert(db.calls[0]);
    CHECK(ok == (db.last == DB::kOK), "status", "DoInsert returned %d against the database's answer", ok);
    db.calls.clear();
  }
  uint64_t latest_hits = 0, loaded_hits = 0, latest_n = 0, fresh_hits = 0, targets = 0;
  int N = r.chance(1, 4) ? 1500 : 300;
  for (int i = 0; i < N; i++) {
    db.calls.clear();
    bool ok = cl.DoTransaction();
    opsn++;
    auto &k = db.calls;
    CHECK(k.size() == 1 || (k.size() == 2 && k[0].kind == 'R' && k[1].kind == 'U'), "calls", "a transaction made %zu database calls, the first %c", k.size(), k.empty() ? '-' : k[0].kind);
    char kind = k.size() == 2 ? 'M' : k[0].kind;
    int pi = kind == 'R' ? 0 : kind == 'U' ? 1 : kind == 'I' ? 2 : kind == 'S' ? 3 : 4;
    CHECK(c.p[pi] > 0, "operation-mix", "a transaction of kind %c ran although its proportion is 0", kind);
    switch (kind) {
    case 'R': o.reads(k[0]); break;
    case 'U': o.update(k[0]); break;
    case 'I': o.insert(k[0]); break;
    case 'S': o.reads(k[0]); if (c.ldist == "zipfian" && k[0].count == 0 && known("zipf-base")) break; CHECK(k[0].count >= 1 && k[0].count <= c.maxscan, "scan-length", "scan of %d records, configured up to %d", k[0].count, c.maxscan); break;
    default: o.reads(k[0]); o.update(k[1]); CHECK(k[0].key == k[1].key, "rmw-key", "read-modify-write read %s but wrote %s", k[0].key.c_str(), k[1].key.c_str());
    }
    CHECK(ok == (db.last == DB::kOK), "status", "a transaction of kind %c returned %d against the database's answer", kind, ok);
    if (kind != 'I') {
      targets++;
      if (k[0].key == key_of(c, o.next - 1)) latest_hits++;
      if (k[0].key == key_of(c, c.rc - 1)) loaded_hits++;
      if (o.next > (uint64_t)(c.start + c.rc)) { latest_n++; for (uint64_t j = c.start + c.rc; j < o.next; j++) if (k[0].key == key_of(c, j)) { fresh_hits++; break; } }
    }
  }
  static Ctr fr("requests_for_keys_inserted_by_transactions");
  fr += fresh_hits;
  // under "latest" the newest record is by far the most requested, also once transactions insert
  if (c.rdist == "latest" && c.start == 0 && targets >= 200) {
    shares++;
    double want = 1 / zeta(o.next); // lower bound for its share at any time
    double least = want / 2 - 3 * std::sqrt(want / targets);
    if ((double)latest_hits / targets <= least && o.next > (uint64_t)c.rc && (double)loaded_hits / targets > least && fresh_hits == 0 && known("latest-not-advanced")) ;
    else CHECK((double)latest_hits / targets > least, "distribution", "latest: the newest record got %" PRIu64 " of %" PRIu64 " requests", latest_hits, targets);
  }
  seen(mix64(c.rc * 31 + c.fields * 977 + N + o.next * 7919));
}

// ---------------------------------------------------------------- W03: the driver
static std::string slurp(const std::string &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void write_spec(Rng &r, Cfg &c, const std::string &f) {
  std::ofstream o(f);
  auto pad = [&] { return std::string(r.chance(1, 3) ? r.below(3) : 0, r.chance(1, 2) ? ' ' : '\t'); };
  size_t n = c.props.properties().size(), i = 0;
  for (auto &kv : c.props.properties()) {
    if (r.chance(1, 4)) o << "# a comment = with an equals sign\n";
    if (r.chance(1, 4)) o << "\n";
    if (r.chance(1, 8)) o << "no assignment here\n";
    o << pad() << kv.first << pad() << "=" << pad() << kv.second << pad();
    if (++i < n || r.chance(1, 2)) o << (r.chance(1, 6) ? "\r\n" : "\n");
  }
}
static void driver_case(Rng &r, const std::string &dir) {
  Cfg c = gen_cfg(r);
  int threads = r.chance(1, 3) ? 1 : 1 + (int)r.below(6);
  double sum = c.p[0] + c.p[1] + c.p[2] + c.p[3];
  if (sum == 0) { c.props.SetProperty("readproportion", "1"); c.p[0] = 1; }
  c.props.SetProperty("readmodifywriteproportion", "0");
  std::string spec = dir + "/spec", cap = dir + "/out";
  write_spec(r, c, spec);
  RecDB db;
  db.live = true;
  g_made = &db;
  std::vector<std::string> args{"ycsb"};
  std::string ts = std::to_string(threads);
  bool explicit_threads = threads > 1 || r.chance(1, 2);
  if (r.chance(1, 2)) { args.insert(args.end(), {"-db", "rec"}); if (explicit_threads) args.insert(args.end(), {"-threads", ts}); args.insert(args.end(), {"-P", spec}); }
  else { args.insert(args.end(), {"-P", spec}); if (explicit_threads) args.insert(args.end(), {"-threads", ts}); args.insert(args.end(), {"-db", "rec"}); }
  op("driver threads=%d recordcount=%d operationcount=%d", threads, c.rc, c.ops);
  std::vector<const char *> av;
  for (auto &s : args) av.push_back(s.c_str());
  std::ostringstream err, out;
  auto *oe = std::cerr.rdbuf(err.rdbuf());
  auto *oo = std::cout.rdbuf(out.rdbuf());
  ycsb_main((int)av.size(), av.data());
  std::cerr.rdbuf(oe);
  std::cout.rdbuf(oo);
  // known: every thread runs its share rounded down
  int rc = c.rc, ops = c.ops;
  size_t ins = 0;
  for (auto &k : db.calls) ins += k.kind == 'I';
  int floor_rc = rc / threads * threads, floor_ops = ops / threads * threads;
  if ((floor_rc != rc || floor_ops != ops) && (int)db.calls.size() == floor_rc + floor_ops && known("thread-share")) { rc = floor_rc; ops = floor_ops; }
  std::set<std::string> want;
  for (int i = 0; i < rc; i++) want.insert(key_of(c, c.start + i));
  CHECK(db.calls.size() >= (size_t)rc, "driver-load", "%zu database calls for %d records and %d operations", db.calls.size(), rc, ops);
  for (int i = 0; i < rc; i++) {
    CHECK(db.calls[i].kind == 'I' && want.erase(db.calls[i].key), "driver-load", "call %d of the load phase is %c on %s", i, db.calls[i].kind, db.calls[i].key.c_str());
    check_all_fields(c, db.calls[i].vals);
  }
  keys += rc;
  CHECK((int)db.calls.size() == rc + ops, "driver-operations", "%zu operations ran after loading, operationcount=%d threads=%d", db.calls.size() - rc, ops, threads);
  opsn += ops;
  CHECK(db.inits == db.closes && db.inits == 2 * threads, "driver-threads", "%d Init and %d Close calls with %d threads and two phases", db.inits, db.closes, threads);
  std::string e = err.str();
  std::string line = "# Loading records:\t" + std::to_string(rc) + "\n";
  CHECK(e.find(line) != std::string::npos, "driver-report", "the report does not say %d records were loaded: %s", rc, e.c_str());
  CHECK(e.find("rec\t" + spec + "\t" + ts + "\t") != std::string::npos, "driver-report", "the report does not name database, workload file and threads: %s", e.c_str());
  std::set<std::thread::id> tids;
  for (auto &k : db.calls) tids.insert(k.tid);
  static Ctr tc("client_threads_seen");
  tc += tids.size();
  seen(mix64(c.rc * 1000 + c.ops * 31 + threads));
}
// command lines that must be refused politely (run in a child: the driver exits)
static void refusal_case(Rng &r, const std::string &dir) {
  std::vector<std::vector<std::string>> cl{{}, {"-P", dir + "/missing"}, {"-db"}, {"-threads"}, {"-P"}, {"-frob"}, {"-db", "rec", "stray"}, {"-P", dir + "/spec2", "-db", "nodb"}};
  std::ofstream(dir + "/spec2") << "recordcount=3\noperationcount=1\n";
  auto &a = cl[r.below(cl.size())];
  std::vector<const char *> av{"ycsb"};
  for (auto &s : a) { av.push_back(s.c_str()); op("arg %s", s.c_str()); }
  std::string cap = dir + "/cap";
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    int fd = open(cap.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 1);
    dup2(fd, 2);
    ycsb_main((int)av.size(), av.data());
    std::cout.flush();
    _exit(9);
  }
  int st = 0;
  waitpid(p, &st, 0);
  std::string o = slurp(cap);
  static Ctr rf("refusals_checked");
  if (a.size() == 2 && a[1] == dir + "/missing" && WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && known("bad-file")) { rf++; return; }
  CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "driver-refusal", "the driver died (status %x) on a bad command line (%s ...)", st, a.empty() ? "" : a[0].c_str());
  CHECK(!o.empty(), "driver-refusal", "the driver said nothing about a bad command line");
  rf++;
}

// ---------------------------------------------------------------- U01: properties and helpers
static std::string rnd_text(Rng &r, int n) { static const char a[] = "abcXYZ019._-/:#"; std::string s; for (int i = 0; i < n; i++) s += a[r.below(sizeof a - 1)]; return s; }
static std::string spaces(Rng &r) { static const char a[] = " \t\v\f\r"; std::string s; for (uint64_t i = r.below(4); i--;) s += a[r.below(5)]; return s; }
static void props_case(Rng &r, const std::string &dir) {
  std::map<std::string, std::string> model;
  utils::Properties p;
  std::string f = dir + "/p";
  static Ctr pl("property_lines"), lk("property_lookups"), hs("hash_checks");
  for (int round = 0; round < 2; round++) {
    std::ofstream o(f);
    int n = (int)r.below(20);
    for (int i = 0; i < n; i++) {
      bool last = i == n - 1;
      std::string nl = last && r.chance(1, 2) ? "" : "\n";
      pl++;
      switch (r.below(8)) {
      case 0: o << nl; op("empty line"); break;
      case 1: { std::string t = "#" + rnd_text(r, (int)r.below(6)) + "=" + rnd_text(r, 3); o << t << nl; op("[%s]", t.c_str()); break; }
      case 2: { std::string t = "x" + rnd_text(r, (int)r.below(6)); o << t << nl; op("[%s]", t.c_str()); break; }
      default: {
        std::string k = "k" + rnd_text(r, (int)r.below(3)), v = rnd_text(r, (int)r.below(8));
        if (r.chance(1, 4)) v += "=" + rnd_text(r, 2);
        if (r.chance(1, 4)) v = "a" + v + " " + rnd_text(r, 2);
        if (r.chance(1, 3)) k = r.pick(std::vector<std::string>{} = {"k1", "k2", "kk"});
        o << (r.chance(1, 2) ? spaces(r) : "") << k << spaces(r) << "=" << spaces(r) << v << spaces(r) << nl;
        op("[%s]=[%s]", k.c_str(), v.c_str());
        model[k] = v;
      }
      }
    }
    o.close();
    std::ifstream in(f);
    CHECK(p.Load(in), "properties", "Load failed on a readable file");
    for (int i = 0; i < 4; i++) { std::string k = "k" + rnd_text(r, 1), v = rnd_text(r, 4); if (r.chance(1, 2)) { p.SetProperty(k, v); model[k] = v; op("set %s=%s", k.c_str(), v.c_str()); } }
    CHECK(p.properties() == model, "properties", "the properties (%zu) differ from those written (%zu)", p.properties().size(), model.size());
    for (auto &kv : model) { lk++; CHECK(p.GetProperty(kv.first) == kv.second && p.GetProperty(kv.first, "d") == kv.second && p[kv.first] == kv.second, "properties", "lookup of %s gives another value", kv.first.c_str()); }
    CHECK(p.GetProperty("absent", "dflt") == "dflt" && p.GetProperty("absent").empty(), "properties", "lookup of an absent property ignores the default");
    bool t = false;
    try { p["absent"]; } catch (const std::out_of_range &) { t = true; }
    CHECK(t && !p.properties().count("absent"), "properties", "operator[] on an absent property did not throw or added it");
  }
  {
    bool t = false;
    std::ifstream in(dir + "/missing");
    try { p.Load(in); } catch (const utils::Exception &) { t = true; }
    CHECK(t, "properties", "loading an unopened file did not throw");
  }
  for (int i = 0; i < 20; i++) {
    std::string a = spaces(r) + (r.chance(1, 5) ? "\n" : ""), b = r.chance(1, 5) ? "" : "x" + rnd_text(r, (int)r.below(4)) + (r.chance(1, 3) ? " \xe9 y" : "z"), z = spaces(r);
    CHECK(utils::Trim(a + b + z) == b, "trim", "Trim did not remove exactly the surrounding white space");
    uint64_t v = r.chance(1, 4) ? r.below(300) : r.next();
    hs++;
    CHECK(utils::Hash(v) == fnv(v) && utils::FNVHash64(v) == fnv(v), "hash", "Hash(%" PRIu64 ") is not the 64-bit FNV-1a hash", v);
    static const char *tf[] = {"true", "false", "1", "0", "TRUE", "False", "tRuE"};
    int k = (int)r.below(7);
    CHECK(utils::StrToBool(tf[k]) == (k != 1 && k != 3 && k != 5), "bool", "StrToBool(%s) is wrong", tf[k]);
    static const char *bad[] = {"", "yes", "2", "truee", " true", "01", "no"};
    bool th = false;
    try { utils::StrToBool(bad[r.below(7)]); } catch (const utils::Exception &) { th = true; }
    CHECK(th, "bool", "StrToBool accepted a string that is no truth value");
  }
  seen(mix64(model.size() * 7919 + r.next() % 1000));
}

// ---------------------------------------------------------------- client threads
static void conc_case(Rng &r) {
  Cfg c = gen_cfg(r);
  int T = 2 + (int)r.below(4);
  CoreWorkload w;
  w.Init(c.props);
  RecDB db;
  db.live = true;
  std::atomic<int> ready{0}, phase{0}, notok{0};
  int per = 40;
  auto run = [&](bool load) {
    std::vector<std::thread> ts;
    ready = 0;
    for (int t = 0; t < T; t++)
      ts.emplace_back([&, t] {
        ycsbc::Client cl(db, w);
        ready++;
        while (ready < T) ;
        if (load) { for (int i = t; i < c.rc; i += T) notok += !cl.DoInsert(); }
        else for (int i = 0; i < per; i++) cl.DoTransaction();
      });
    for (auto &t : ts) t.join();
  };
  run(true);
  CHECK(notok == 0, "insert-key", "%d of %d records could not be loaded: keys were handed out twice", notok.load(), c.rc);
  CHECK(db.have.size() == (size_t)c.rc, "insert-key", "%d threads loaded %zu distinct keys instead of %d", T, db.have.size(), c.rc);
  run(false);
  std::set<std::string> ins;
  size_t n = 0;
  uint64_t h = 0;
  static Ctr alt("thread_alternations");
  for (auto &k : db.calls) if (k.kind == 'I') { CHECK(ins.insert(k.key).second, "insert-key", "key %s was inserted twice by %d client threads", k.key.c_str(), T); }
  // keys handed out for insertion are gapless
  for (size_t i = 0; i < ins.size(); i++) CHECK(ins.count(key_of(c, c.start + i)), "insert-key", "%zu keys were inserted but not number %zu", ins.size(), i);
  for (size_t i = 0; i < db.calls.size(); i++) {
    auto &k = db.calls[i];
    keys++;
    if (k.kind == 'I') check_all_fields(c, k.vals);
    if (i && db.calls[i].tid != db.calls[i - 1].tid) { alt++; h = mix64(h ^ (i * 131)); }
    // a key may be requested once it is handed out for insertion, even if its insert is still under way
    // (then it is one of at most T keys beyond those inserted)
    if (k.kind != 'I') {
      bool ok = ins.count(k.key);
      for (size_t j = ins.size(); !ok && j < ins.size() + T; j++) ok = k.key == key_of(c, c.start + j);
      for (int j = 0; !ok && c.start > 0 && j < c.rc; j++) ok = k.key == key_of(c, j) && known("insertstart");
      CHECK(ok, "transaction-key", "call %c on key %s, which was never handed out for insertion", k.kind, k.key.c_str());
    }
    n += k.kind != 'I';
  }
  opsn += n;
  seen(h);
}

extern "C" int __wrap_main(int argc, char **argv) {
  Args a = parse(argc, argv, "ycsb_mon");
  std::string mode = a.str("mode", "workload");
  uint64_t cases = a.num("cases", 100), only = a.num("only", ~0ull);
  char dir[] = "/tmp/ycsbmonXXXXXX";
  if (!mkdtemp(dir)) { printf("no scratch directory\n"); return 3; }
  static Ctr cc("cases");
  if (mode == "workload" || mode == "client" || mode == "driver") { few_items_fail(); endless_requests(); }
  for (uint64_t i = 0; i < cases; i++) {
    if (only != ~0ull && i != only) continue;
    G().case_no = i;
    G().phase = mode.c_str();
    Rng r(mix64(G().seed) ^ mix64(i + 77));
    budget(3000000000ull);
#if PART == 1
    conc_case(r);
#else
    if (mode == "workload") workload_case(r);
    else if (mode == "client") client_case(r);
    else if (mode == "driver") { if (r.chance(1, 8)) refusal_case(r, dir); else driver_case(r, dir); }
    else props_case(r, dir);
#endif
    cc++;
  }
  for (const char *f : {"/spec", "/spec2", "/out", "/cap", "/p"}) unlink((std::string(dir) + f).c_str());
  rmdir(dir);
  finish();
  return 0;
}
