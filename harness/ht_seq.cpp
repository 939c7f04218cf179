// Sequential monitors for indexes::hashtable::concurrent_map: every call replayed on a reference
// dictionary, stored objects lifetime-checked, memory balanced and bounded.
#include <memory>
#include <unordered_map>
#include <functional>
#include "indexes/hashtable/concurrent_map.h"
#include "ht_common.h"
using namespace vh;
using u64 = uint64_t;
namespace h = indexes::hashtable;
enum Mode { DICT, LIFE, SPACE };
static Mode g_mode;
static Ctr cmp("comparisons"), bal("heap_balance_checks"), spc("space_checks"), mv("moves"), res("reserves"), lfc("load_factor_checks"), rsv("reserved_room_checks");
static u64 mk(u64 *, u64 n) { return n; }
static int mk(int *, u64 n) { return (int)n; }
static Tracked mk(Tracked *, u64 n) { return Tracked((int64_t)n); }
static std::string mk(std::string *, u64 n) { return std::string(n % 40, 'a' + n % 26) + std::to_string(n); }
// fixed-width decimal tail, so that the hash functor can read the number back
static std::string mkkey(std::string *, u64 n) { char b[32]; snprintf(b, sizeof b, "%020" PRIu64, n); return std::string(n % 30, 'k') + b; }
template <class K> static K mkkey(K *, u64 n) { return mk((K *)nullptr, n); }
struct short_links : h::hashtable_traits_debug { static constexpr uint8_t LINEAR_SEARCH_LIMIT = 60; };
template <class K, class V, class T> struct Seq {
  using Map = h::concurrent_map<K, V, ht::Hash, T>;
  Rng r;
  std::unique_ptr<Map> m;
  std::unordered_map<u64, u64> model;
  std::vector<u64> pool;
  u64 vseq = 1;
  size_t peak = 0, cap = Map::MINIMUM_CAPACITY;
  explicit Seq(Rng q) : r(q) {}
  K K_(u64 n) { return mkkey((K *)nullptr, n); }
  V V_(u64 n) { return mk((V *)nullptr, n); }
  void same(const std::optional<V> &got, bool has, u64 want, const char *what, u64 key) {
    cmp++;
    CHECK(got.has_value() == has, "dict", "%s(%#" PRIx64 ") %s although the key is %s", what, key, got ? "returned a value" : "returned nothing", has ? "present" : "absent");
    if (has) CHECK(*got == V_(want), "dict", "%s(%#" PRIx64 ") returned another value than the one stored", what, key);
  }
  void sizes(const char *after) {
    CHECK(m->size() == model.size(), "size", "size() is %zu with %zu keys present (after %s)", (size_t)m->size(), model.size(), after);
    CHECK(m->empty() == model.empty(), "size", "empty() is %d with %zu keys present (after %s)", (int)m->empty(), model.size(), after);
    cmp++;
    int lf = m->load_factor();
    bool ok = false;
    for (int b = 0; b < 40 && !ok; b++) ok = model.size() <= (1ull << b) && lf == (int)((model.size() * 100) >> b);
    CHECK(ok, "load-factor", "load_factor() is %d%% with %zu keys present, which no capacity explains (after %s)", lf, model.size(), after);
    lfc++;
  }
  void room(size_t n) {
    int lf = m->load_factor();
    CHECK(!n || (u64)lf * n <= 100 * model.size(), "reserve", "load_factor() is %d%% with %zu keys present after reserve(%zu), so the table has not the room asked for", lf, model.size(), n);
    rsv++;
  }
  void step(u64 k, int kind) {
    auto it = model.find(k);
    bool has = it != model.end();
    u64 old = has ? it->second : 0, v = vseq++;
    static const char *nm[] = {"Insert", "Upsert", "Update", "Search", "Delete"};
    op("%s(%#" PRIx64 ")", nm[kind], k);
    switch (kind) {
    case 0: { bool b = m->Insert(K_(k), V_(v)); cmp++; CHECK(b == !has, "dict", "Insert(%#" PRIx64 ") returned %d although the key is %s", k, b, has ? "present" : "absent"); if (!has) model[k] = v; break; }
    case 1: same(m->Upsert(K_(k), V_(v)), has, old, "Upsert", k); model[k] = v; break;
    case 2: same(m->Update(K_(k), V_(v)), has, old, "Update", k); if (has) it->second = v; break;
    case 3: same(m->Search(K_(k)), has, old, "Search", k); break;
    case 4: same(m->Delete(K_(k)), has, old, "Delete", k); if (has) model.erase(it); break;
    }
    peak = std::max(peak, model.size());
    sizes(nm[kind]);
    if (r.chance(1, 4)) { u64 q = pool[r.below(pool.size())]; auto j = model.find(q); same(m->Search(K_(q)), j != model.end(), j != model.end() ? j->second : 0, "Search", q); }
  }
  void audit() {
    for (u64 k : pool) { auto j = model.find(k); same(m->Search(K_(k)), j != model.end(), j != model.end() ? j->second : 0, "Search", k); }
    if (g_mode == SPACE) space();
  }
  static size_t bytes_at(size_t c) {
    size_t b = heap_bytes();
    auto x = std::make_unique<Map>(c);
    x->reclaim_all();
    size_t n = heap_bytes() - b;
    x.reset();
    return n;
  }
  // a table is never larger than a small multiple of what it was asked to hold
  void space() {
    if constexpr (std::is_integral_v<K> && std::is_integral_v<V>) {
      if (ht::hash_kind() > 1 && ht::hash_kind() != 3) return; // many equal hashes spread a table for good reason
      m->reclaim_all();
      size_t lim = std::max<size_t>({cap, 8 * peak, Map::MINIMUM_CAPACITY});
      size_t want = bytes_at(lim) + 8192;
      std::unique_ptr<Map> n = std::make_unique<Map>();
      size_t b = heap_bytes();
      std::vector<std::pair<u64, u64>> keep;
      m.reset();
      size_t mine = b - heap_bytes();
      spc++;
      CHECK(mine <= want, "space", "a table that never held more than %zu keys and was asked for room for %zu occupies %zu bytes", peak, cap, mine);
      m = std::move(n);
      peak = model.size(); cap = Map::MINIMUM_CAPACITY;
      for (auto &kv : model) m->Insert(K_(kv.first), V_(kv.second));
    }
  }
  void run() {
    u64 hs[16];
    int nh = 0;
    ht::hash_kind() = (int)r.below(8);
    size_t before = heap_bytes();
    int64_t alive = live().alive;
    {
      static const size_t caps[] = {0, 1, 3, 4, 5, 16, 100, 257, 600};
      cap = r.chance(1, 2) ? 4 : caps[r.below(9)];
      m = std::make_unique<Map>(cap);
      ht::add_keys(r, pool, 2 + r.below(r.chance(1, 4) ? 900 : 120));
      int phases = 2 + (int)r.below(6);
      for (int ph = 0; ph < phases; ph++) {
        int kind = (int)r.below(7);
        op("phase %d kind %d hash %d pool %zu live %zu", ph, kind, ht::hash_kind(), pool.size(), model.size());
        std::vector<u64> o = pool;
        if (r.chance(2, 3)) for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[r.below(i)]);
        switch (kind) {
        case 0: for (u64 k : o) step(k, (int)r.below(2)); break;                                  // fill
        case 1: { size_t n = r.below(o.size() + 1); for (size_t i = 0; i < n; i++) step(o[i], 0); break; }
        case 2: for (u64 k : o) step(k, 4); break;                                                // drain
        case 3: { size_t n = 1 + r.below(8), t = 100 + r.below(600); for (size_t i = 0; i < t; i++) { step(o[i % n % o.size()], i & 1 ? 4 : 1); } break; } // one spot over and over
        default: { size_t n = 50 + r.below(600); static const int w[3][5] = {{3, 2, 2, 3, 3}, {1, 1, 1, 1, 6}, {5, 1, 0, 1, 2}}; const int *ww = w[r.below(3)]; int tot = 0; for (int i = 0; i < 5; i++) tot += ww[i];
          for (size_t i = 0; i < n; i++) { int x = (int)r.below(tot), k = 0; while (x >= ww[k]) x -= ww[k++]; step(pool[r.below(pool.size())], k); } }
        }
        if (r.chance(1, 5)) {
          auto n = std::make_unique<Map>(std::move(*m)); // what was moved from stays usable
          u64 q = pool[0];
          mv++;
          same(m->Search(K_(q)), false, 0, "Search on a moved-from map", q);
          CHECK(m->size() == 0, "size", "a map that was moved from has size %zu", (size_t)m->size());
          if (r.chance(1, 2)) { CHECK(m->Insert(K_(q), V_(1)), "dict", "Insert into a moved-from map failed"); same(m->Delete(K_(q)), true, 1, "Delete on a moved-from map", q); }
          m = std::move(n);
        }
        if (r.chance(1, 4)) { size_t n = r.chance(1, 4) ? 0 : r.below(2 * pool.size() + 2); op("reserve(%zu)", n); m->reserve(n); res++; cap = std::max(cap, 2 * n); sizes("reserve"); room(n); }
        if (r.chance(1, 4)) m->reclaim_all();
        audit();
        hs[nh++] = mix64(model.size() * 7919 + pool.size() * 31 + kind) ^ mix64(pool[0]) ^ mix64(ht::hash_kind());
      }
      G().phase = "destroy";
    }
    m.reset();
    std::unordered_map<u64, u64>().swap(model);
    std::vector<u64>().swap(pool);
    size_t after = heap_bytes();
    bal++;
    CHECK(live().alive == alive, "leak-object", "%" PRId64 " keys or values were never destroyed", live().alive - alive);
    CHECK(after <= before, "leak", "%zu bytes are still allocated after the map was destroyed", after - before);
    G().phase = "run";
    for (int i = 0; i < nh; i++) seen(hs[i]);
  }
};
template <class K, class V, class T> static void go(const char *n, Rng r) {
  G().config = n;
  Seq<K, V, T> s(r);
  s.run();
}
int main(int argc, char **argv) {
  Args a = parse(argc, argv, "ht_seq");
  indexes::utils::ThreadRegistry::RegisterThread();
  std::string md = a.str("mode", "dict");
  g_mode = md == "dict" ? DICT : md == "life" ? LIFE : SPACE;
  u64 cases = a.num("cases", 100), from = a.num("from", 0);
  static Ctr cc("cases");
  G().phase = "run";
  for (u64 c = from; c < from + cases; c++) {
    G().case_no = c;
    Rng r(mix64(G().seed * 1000003 + c));
    budget(3000000000ull);
#if PART == 0
    if (c % 2) go<u64, int, h::hashtable_traits_debug>("u64-int-debug", r); else go<u64, u64, h::hashtable_traits_default>("u64-u64", r);
#else
    switch (c % 3) {
    case 0: go<Tracked, Tracked, h::hashtable_traits_debug>("tracked", r); break;
    case 1: go<std::string, std::string, h::hashtable_traits_default>("string", r); break;
    default: go<u64, Tracked, short_links>("u64-tracked-short-links", r);
    }
#endif
    cc++;
  }
  finish();
}
