// Concurrent monitor for indexes::hashtable::concurrent_map (fiber scheduler or real threads, see conc.h).
#include <unordered_map>
#include "indexes/hashtable/concurrent_map.h"
#include "conc.h"
#include "ht_common.h"
#include "wide.h"
using namespace vh;
using u64 = uint64_t;
namespace h = indexes::hashtable;
static Ctr c_size("final_sizes"), c_mid("concurrent_size_reads"), c_res("concurrent_reserves");
template <class K> struct Key;
template <> struct Key<u64> { static u64 mk(u64 n) { return n; } };
template <> struct Key<std::string> { static std::string mk(u64 n) { char b[48]; snprintf(b, sizeof b, "a key of its own storage %020" PRIu64, n); return b; } };
template <class K, class V, class T> struct HtA {
  using Map = h::concurrent_map<K, V, ht::Hash, T>;
  static constexpr bool has_scan = false;
  static constexpr uint32_t maxD = 96;
  static std::vector<u64> keys;
  static std::vector<K> ks;
  static size_t cap0;
  static bool extras;
  static void setup(Rng &r) {
    ht::hash_kind() = (int)r.below(8);
    keys.clear(); ks.clear();
    ht::add_keys(r, keys, maxD);
    for (u64 k : keys) ks.push_back(Key<K>::mk(k));
    static const size_t caps[] = {1, 4, 4, 4, 8, 16, 32, 64, 128, 256};
    cap0 = caps[r.below(10)];
    extras = r.chance(1, 3);
  }
  static uint32_t rank(uint32_t k) { return k; }
  static u64 val(u64 n) { return n; }
  static std::unique_ptr<Map> create() { return std::make_unique<Map>(cap0); }
  static void warm() {}
  static void run(Map &m, HOp &r) {
    const K &k = ks[r.key];
    V v = Val<V>::mk(r.arg);
    std::optional<V> o;
    if (extras) {
      u64 x = mix64(r.key * 131 + r.arg * 7 + r.kind);
      if (x % 9 == 0) {
        size_t s; { OpScope sc; s = m.size(); }
        CHECK(s <= 4 * maxD * 45 * 5, "size", "size() read during concurrent use is %zu", s);
        { OpScope sc; int l = m.load_factor(); CHECK(l >= 0, "load-factor", "load_factor() read during concurrent use is %d", l); }
        __atomic_fetch_add(&c_mid.v, 1, __ATOMIC_RELAXED);
      }
      if (x % 31 == 1) { OpScope sc; m.reserve(x >> 8 & 63); __atomic_fetch_add(&c_res.v, 1, __ATOMIC_RELAXED); }
    }
    switch (r.kind) {
    case INS: { OpScope s; r.has = m.Insert(k, v); } return;
    case UPS: { OpScope s; o = m.Upsert(k, v); } break;
    case UPD: { OpScope s; o = m.Update(k, v); } break;
    case GET: { OpScope s; o = m.Search(k); } break;
    case DEL: { OpScope s; o = m.Delete(k); } break;
    }
    r.has = o.has_value();
    if (o) r.val = Val<V>::id(*o);
  }
  static void quiescent(Map &m, const std::vector<u64> &fin) {
    size_t n = 0;
    for (u64 f : fin) n += f != 0;
    CHECK(m.size() == n, "final-size", "after all operations returned, size() is %zu but %zu keys are present", (size_t)m.size(), n);
    CHECK(m.empty() == (n == 0), "final-size", "after all operations returned, empty() is %d but %zu keys are present", (int)m.empty(), n);
    c_size++;
  }
  static void reclaim(Map &m) { m.reclaim_all(); }
  static void harvest(Map &) {}
};
template <class K, class V, class T> std::vector<u64> HtA<K, V, T>::keys;
template <class K, class V, class T> std::vector<K> HtA<K, V, T>::ks;
template <class K, class V, class T> size_t HtA<K, V, T>::cap0;
template <class K, class V, class T> bool HtA<K, V, T>::extras;
int main(int argc, char **argv) {
  Args a = parse(argc, argv, "ht_conc");
  indexes::utils::ThreadRegistry::RegisterThread();
  ConcMode mode = conc_mode(a);
  u64 cases = a.num("cases", 60), from = a.num("from", 0);
  int sch = (int)a.num("schedules", 4);
  G().phase = "run";
  for (u64 c = from; c < from + cases; c++) {
    G().case_no = c;
    u64 s = mix64(G().seed * 1000003 + c);
#if PART == 0
    conc_case<HtA<u64, u64, h::hashtable_traits_default>>("u64", s, mode, sch);
#else
    if (c % 2) conc_case<HtA<u64, Wide, h::hashtable_traits_default>>("wide", s, mode, sch); else conc_case<HtA<std::string, std::string, h::hashtable_traits_default>>("string", s, mode, sch);
#endif
  }
  finish();
}
