// Concurrent monitor for indexes::art::concurrent_map (fiber scheduler or real threads, see conc.h).
#define ART_DUMP_ENABLED
#include <deque>
#include <iostream>
#include <sstream>
#include "indexes/art/concurrent_map.h"
#include "conc.h"
#include "art_common.h"
#include "wide.h"
namespace art = indexes::art;
using namespace vh;
static Ctr c_size("final_sizes"), c_shape("final_structures"), c_in("inner_nodes_checked"), k4("inner_2_4"), k16("inner_5_16"), k48("inner_17_48"), k256("inner_49_256");
template <class V, class T> struct ArtA {
  using Map = art::concurrent_map<V, T>;
  static constexpr bool has_scan = false;
  static constexpr uint32_t maxD = 96;
  static std::vector<u64> keys;
  static void setup(Rng &r) {
    keys.clear();
    size_t n = 0;
    while (keys.size() < maxD) { add_keys(r, keys, std::min<size_t>(maxD, n + 1 + r.below(maxD))); if (keys.size() == n) add_keys(r, keys, n + 1); n = keys.size(); }
    if (r.chance(1, 2)) for (uint32_t i = maxD; i > 1; i--) std::swap(keys[i - 1], keys[r.below(i)]);
  }
  static uint32_t rank(uint32_t k) { return k; }
  static u64 val(u64 n) { return n; }
  static std::unique_ptr<Map> create() { return std::make_unique<Map>(); }
  static void warm() {}
  static void run(Map &m, HOp &r) {
    u64 k = keys[r.key];
    V v = Val<V>::mk(r.arg);
    std::optional<V> o;
    switch (r.kind) {
    case INS: { OpScope s; r.has = m.Insert(k, v); } return;
    case UPS: { OpScope s; o = m.Upsert(k, v); } break;
    case UPD: { OpScope s; o = m.Update(k, v); } break;
    case GET: { OpScope s; o = m.Search(k); } break;
    case DEL: { OpScope s; o = m.Delete(k); } break;
    }
    r.has = o.has_value();
    if (o) r.val = Val<V>::id(*o);
  }
  static void quiescent(Map &m, const std::vector<u64> &fin) {
    size_t n = 0;
    std::unordered_map<u64, u64> live;
    for (size_t i = 0; i < fin.size(); i++) if (fin[i]) { n++; live[keys[i]] = fin[i]; }
    CHECK(m.size() == n, "final-size", "after all operations returned, size() is %zu but %zu keys are present", (size_t)m.size(), n);
    c_size++;
    if constexpr (std::is_same_v<V, u64>) {
      std::ostringstream os;
      m.dump(os);
      ArtShape st = art_shape(os.str(), live, false, [](u64 raw, u64 want) { return raw == want; });
      c_in += st.inner; k4 += st.k[0]; k16 += st.k[1]; k48 += st.k[2]; k256 += st.k[3];
      c_shape++;
    }
  }
  static void reclaim(Map &m) { m.reclaim_all(); }
  static void harvest(Map &) {}
};
template <class V, class T> std::vector<u64> ArtA<V, T>::keys;
template <class A> static void art_case(const char *name, u64 seed, ConcMode mode, int schedules) {
  G().config = name;
  Conc<A> c(seed, mode);
  A::setup(c.rng);
  c.pf = gen_profile(c.rng, mode, 4, A::maxD);
  if (c.rng.chance(1, 2)) { // key counts around the node sizes
    static const uint32_t ds[] = {2, 3, 4, 5, 6, 16, 17, 18, 20, 48, 49, 50, 52};
    c.pf.D = ds[c.rng.below(13)];
  }
  c.run(schedules);
}
int main(int argc, char **argv) {
  Args a = parse(argc, argv, "art_conc");
  indexes::utils::ThreadRegistry::RegisterThread();
  ConcMode mode = conc_mode(a);
  u64 cases = a.num("cases", 60), from = a.num("from", 0);
  int sch = (int)a.num("schedules", 4);
  G().phase = "run";
  for (u64 c = from; c < from + cases; c++) {
    G().case_no = c;
    u64 s = mix64(G().seed * 1000003 + c);
#if PART == 0
    art_case<ArtA<u64, art::art_traits_default>>("u64", s, mode, sch);
#else
    if (c % 2) art_case<ArtA<Wide, art::art_traits_default>>("wide", s, mode, sch); else art_case<ArtA<std::string, art::art_traits_default>>("string", s, mode, sch);
#endif
  }
  finish();
}
