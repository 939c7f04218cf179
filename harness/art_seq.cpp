// Sequential monitors for the adaptive radix trees (art::map and art::concurrent_map): every call is
// replayed on a reference dictionary, stored objects are lifetime-checked, and the dumped tree must be
// exactly the path-compressed byte trie of the live keys.  PART 0/1: art::map, 2/3: art::concurrent_map.
#define ART_DUMP_ENABLED
#include <deque>
#include <iostream>
#include <memory>
#include <sstream>
#include <unordered_map>
#include <functional>
#if PART < 2
#include "indexes/art/map.h"
#else
#include "indexes/art/concurrent_map.h"
#endif
#include "art_common.h"
using namespace vh;
namespace art = indexes::art;
enum Mode { DICT, LIFE, SHAPE };
static Mode g_mode;
static Ctr cmp("comparisons"), shp("structure_dumps"), inn("inner_nodes_checked"), bal("heap_balance_checks"), spc("space_checks"), mv("moves"), k4("inner_2_4"), k16("inner_5_16"), k48("inner_17_48"), k256("inner_49_256");
// ---------------------------------------------------------------- values
static int mkv(int *, u64 n) { return (int)(n & 0x7fffffff); }
static u64 mkv(u64 *, u64 n) { return n * 0x9e3779b97f4a7c15ull; }
static Tracked mkv(Tracked *, u64 n) { return Tracked((int64_t)n); }
static std::string mkv(std::string *, u64 n) { return std::string(n % 40, 'a' + n % 26) + std::to_string(n); }
template <class Map, class V> struct Seq {
  Rng r;
  std::unique_ptr<Map> m;
  std::unordered_map<u64, u64> model;
  std::vector<u64> pool;
  u64 vseq = 1;
  static constexpr bool CONC = PART >= 2;
  explicit Seq(Rng q) : r(q) {}
  V V_(u64 n) { return mkv((V *)nullptr, n); }
  void same(const std::optional<V> &got, bool has, u64 want, const char *what, u64 key) {
    cmp++;
    CHECK(got.has_value() == has, "dict", "%s(%#" PRIx64 ") %s although the key is %s", what, key, got ? "returned a value" : "returned nothing", has ? "present" : "absent");
    if (has) CHECK(*got == V_(want), "dict", "%s(%#" PRIx64 ") returned another value than the one stored", what, key);
  }
  void step(u64 k, int kind) {
    auto it = model.find(k);
    bool has = it != model.end();
    u64 old = has ? it->second : 0, v = vseq++;
    static const char *nm[] = {"Insert", "Upsert", "Update", "Search", "Delete"};
    op("%s(%#" PRIx64 ")", nm[kind], k);
    switch (kind) {
    case 0: { bool b = m->Insert(k, V_(v)); cmp++; CHECK(b == !has, "dict", "Insert(%#" PRIx64 ") returned %d although the key is %s", k, b, has ? "present" : "absent"); if (!has) model[k] = v; break; }
    case 1: same(m->Upsert(k, V_(v)), has, old, "Upsert", k); model[k] = v; break;
    case 2: same(m->Update(k, V_(v)), has, old, "Update", k); if (has) it->second = v; break;
    case 3: same(m->Search(k), has, old, "Search", k); break;
    case 4: same(m->Delete(k), has, old, "Delete", k); if (has) model.erase(it); break;
    }
    CHECK(m->size() == model.size(), "size", "size() is %zu with %zu keys present (after %s)", (size_t)m->size(), model.size(), nm[kind]);
    cmp++;
    if (r.chance(1, 4)) { // the neighbours of a change are where a wrong prefix shows
      u64 q = r.chance(1, 2) ? k ^ (1ull << r.below(64)) : pool[r.below(pool.size())];
      auto j = model.find(q);
      same(m->Search(q), j != model.end(), j != model.end() ? j->second : 0, "Search", q);
    }
  }
  // what was moved from is an empty dictionary
  void moved_from() {
    if constexpr (!CONC) {
      u64 q = pool[r.below(pool.size())];
      same(m->Search(q), false, 0, "Search on a moved-from map", q);
      CHECK(m->size() == 0, "size", "a map that was moved from has size %zu", (size_t)m->size());
      if (r.chance(1, 2)) {
        CHECK(m->Insert(q, V_(1)), "dict", "Insert into a moved-from map failed");
        CHECK(m->size() == 1, "size", "a moved-from map into which one key was inserted has size %zu", (size_t)m->size());
        same(m->Search(q), true, 1, "Search on a moved-from map", q);
        if (r.chance(1, 2)) same(m->Delete(q), true, 1, "Delete on a moved-from map", q);
      }
    }
  }
  void audit() {
    for (u64 k : pool) { auto j = model.find(k); same(m->Search(k), j != model.end(), j != model.end() ? j->second : 0, "Search", k); }
    if (g_mode == SHAPE) { shape(); space(); }
  }
  // ---- structure
  void shape() {
    if constexpr (std::is_integral_v<V>) {
      std::ostringstream os;
      m->dump(os);
      std::string t = os.str();
      shp++;
      ArtShape st = art_shape(t, model, true, [&](u64 raw, u64 want) { return (V)raw == V_(want); });
      inn += st.inner; k4 += st.k[0]; k16 += st.k[1]; k48 += st.k[2]; k256 += st.k[3];
    }
  }
  // the memory of a tree depends on its keys, not on their history
  void space() {
    if constexpr (std::is_integral_v<V>) {
      // what the reclamation machinery of the concurrent tree keeps for itself
      const size_t slack = CONC ? 2500 : 0;
      if constexpr (CONC) m->reclaim_all();
      auto build = [&](bool desc) {
        std::vector<u64> ks;
        for (u64 k : pool) if (model.count(k)) ks.push_back(k);
        if (desc) std::reverse(ks.begin(), ks.end());
        size_t b = heap_bytes();
        auto x = std::make_unique<Map>();
        for (u64 k : ks) x->Insert(k, V_(model[k]));
        if constexpr (CONC) x->reclaim_all();
        size_t used = heap_bytes() - b;
        x.reset();
        return used;
      };
      size_t fresh = build(r.chance(1, 2));
      std::vector<std::pair<u64, u64>> keep(model.begin(), model.end());
      size_t b = heap_bytes();
      m.reset();
      size_t mine = b - heap_bytes();
      spc++;
      CHECK(mine <= fresh + slack && fresh <= mine + slack, "space", "a tree of %zu keys occupies %zu bytes after its history, %zu when built afresh", model.size(), mine, fresh);
      m = std::make_unique<Map>();
      for (auto &kv : keep) m->Insert(kv.first, V_(kv.second));
    }
  }
  void run() {
    u64 hs[16];
    int nh = 0;
    size_t before = heap_bytes();
    int64_t alive = live().alive;
    {
      m = std::make_unique<Map>();
      size_t want = 2 + r.below(r.chance(1, 4) ? 900 : 120);
      while (pool.size() < want) { size_t n = pool.size(); add_keys(r, pool, std::min(want, n + 1 + r.below(want))); if (pool.size() == n) break; }
      if (pool.empty()) pool.push_back(0);
      int phases = 2 + (int)r.below(6);
      for (int ph = 0; ph < phases; ph++) {
        int kind = (int)r.below(8);
        op("phase %d kind %d pool %zu live %zu", ph, kind, pool.size(), model.size());
        std::vector<u64> o = pool;
        if (r.chance(2, 3)) for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[r.below(i)]);
        switch (kind) {
        case 0: for (u64 k : o) step(k, (int)r.below(2)); break;                                  // fill
        case 1: { size_t n = r.below(o.size() + 1); for (size_t i = 0; i < n; i++) step(o[i], 0); break; }
        case 2: for (u64 k : o) step(k, 4); break;                                                // drain
        case 3: { size_t n = o.size() - r.below(std::min<size_t>(o.size(), 6)); for (size_t i = 0; i < n; i++) step(o[i], 4); break; }
        case 4: { // sawtooth around a node-size threshold
          static const int th[] = {2, 4, 5, 16, 17, 48, 49};
          size_t n = std::min<size_t>(o.size(), th[r.below(7)] + r.below(3));
          int rounds = 2 + (int)r.below(5);
          for (int q = 0; q < rounds; q++) { for (size_t i = 0; i < n; i++) step(o[i], 1); size_t d = 1 + r.below(n); for (size_t i = 0; i < d; i++) step(o[r.below(n)], 4); }
          break; }
        case 7: { // many nodes that are exactly full lose a child and get another
          static const int full[] = {4, 4, 16, 48};
          u64 n = full[r.below(4)], groups = 20 + r.below(n > 4 ? 20 : 80), base = r.next() & ~0xffffffull;
          if (model.size() + pool.size() > 3000) break;
          for (u64 g = 0; g < groups; g++) for (u64 i = 0; i <= n; i++) pool.push_back(base | g | i << 8);
          for (u64 g = 0; g < groups; g++) for (u64 i = 0; i < n; i++) step(base | g | i << 8, (int)r.below(2));
          for (u64 g = 0; g < groups; g++) { step(base | g | r.below(n) << 8, 4); step(base | g | n << 8, 0); }
          break; }
        default: { size_t n = 50 + r.below(600); static const int w[3][5] = {{3, 2, 2, 3, 3}, {1, 1, 1, 1, 6}, {5, 1, 0, 1, 2}}; const int *ww = w[r.below(3)]; int tot = 0; for (int i = 0; i < 5; i++) tot += ww[i];
          for (size_t i = 0; i < n; i++) { int x = (int)r.below(tot), k = 0; while (x >= ww[k]) x -= ww[k++]; u64 key = r.chance(9, 10) ? pool[r.below(pool.size())] : pool[r.below(pool.size())] ^ (1ull << r.below(64)); if (!model.count(key) && k < 2 && std::find(pool.begin(), pool.end(), key) == pool.end()) { if (pool.size() >= 6000) continue; pool.push_back(key); } step(key, k); } }
        }
        if (r.chance(1, 5)) { auto n = std::make_unique<Map>(std::move(*m)); moved_from(); m = std::move(n); mv++; }
        if constexpr (CONC) if (r.chance(1, 4)) m->reclaim_all();
        audit();
        hs[nh++] = mix64(model.size() * 7919 + pool.size() * 31 + kind) ^ mix64(pool[0]);
      }
      G().phase = "destroy";
      if (r.chance(1, 3)) m.reset();
    }
    m.reset();
    model.clear(); std::unordered_map<u64, u64>().swap(model);
    std::vector<u64>().swap(pool);
    size_t after = heap_bytes();
    bal++;
    CHECK(live().alive == alive, "leak-object", "%" PRId64 " values were never destroyed", live().alive - alive);
    CHECK(after <= before, "leak", "%zu bytes are still allocated after the tree was destroyed", after - before);
    G().phase = "run";
    for (int i = 0; i < nh; i++) seen(hs[i]);
  }
};
template <class Map, class V> static void go(const char *n, Rng r) {
  G().config = n;
  Seq<Map, V> s(r);
  s.run();
}
int main(int argc, char **argv) {
  Args a = parse(argc, argv, "art_seq");
  indexes::utils::ThreadRegistry::RegisterThread();
  std::string md = a.str("mode", "dict");
  g_mode = md == "dict" ? DICT : md == "life" ? LIFE : SHAPE;
  u64 cases = a.num("cases", 100), from = a.num("from", 0);
  static Ctr cc("cases");
  G().phase = "run";
  for (u64 c = from; c < from + cases; c++) {
    G().case_no = c;
    Rng r(mix64(G().seed * 1000003 + c));
    budget(2000000000ull);
#if PART == 0
    if (c % 2) go<art::map<int, art::art_traits_debug>, int>("map-int-debug", r); else go<art::map<u64>, u64>("map-u64", r);
#elif PART == 1
    if (c % 2) go<art::map<Tracked>, Tracked>("map-tracked", r); else go<art::map<std::string>, std::string>("map-string", r);
#elif PART == 2
    if (c % 2) go<art::concurrent_map<int, art::art_traits_debug>, int>("cmap-int-debug", r); else go<art::concurrent_map<u64>, u64>("cmap-u64", r);
#else
    if (c % 2) go<art::concurrent_map<Tracked>, Tracked>("cmap-tracked", r); else go<art::concurrent_map<std::string>, std::string>("cmap-string", r);
#endif
    cc++;
  }
  finish();
}
