// Concurrent monitor for indexes::btree::concurrent_map.
#define BTREE_DUMP_ENABLED
#include <deque>
#include <iostream>
#include "indexes/btree/concurrent_map.h"
#include "conc.h"
#include "keys.h"
#include "shape.h"
template <int SZ, int TH, bool DBG, bool ST = true> struct Tr : bt::btree_traits_default {
  static constexpr int NODE_SIZE = SZ;
  static constexpr int NODE_MERGE_THRESHOLD = TH;
  static constexpr bool DEBUG = DBG;
  static constexpr bool STAT = ST;
};
static Ctr c_split("splits"), c_merge("merges"), c_trim("trims"), c_retry("retries"), c_pess("pessimistic_reads"), c_optf("optimistic_fails"), c_copy("iterator_copies"), c_iter("final_iterations"), c_size("final_sizes"), c_shape("final_structures");
template <class K, class V, class T, uint32_t MAXD = 96> struct CmapA {
  using Map = bt::concurrent_map<K, V, T>;
  static constexpr bool has_scan = true;
  static constexpr uint32_t maxD = MAXD;
  static std::vector<K> keys;
  static std::vector<uint32_t> rk;
  static int style;
  static uint64_t vmul; // odd: plain small values, or values that use every bit
  static void setup(Rng &r) {
    style = (int)r.below(12);
    vmul = r.chance(1, 2) ? 1 : 0x9e3779b97f4a7c15ull;
    keys.clear(); rk.assign(MAXD, 0);
    for (uint32_t i = 0; i < MAXD; i++) keys.push_back(KeyOf<K>::mk(i, style));
    std::vector<uint32_t> o(MAXD);
    for (uint32_t i = 0; i < MAXD; i++) o[i] = i;
    std::sort(o.begin(), o.end(), [](uint32_t a, uint32_t b) { return keys[a] < keys[b]; });
    for (uint32_t i = 0; i < MAXD; i++) rk[o[i]] = i;
  }
  static uint32_t rank(uint32_t k) { return rk[k]; }
  static uint32_t index(const K &k) {
    for (uint32_t i = 0; i < MAXD; i++) if (keys[i] == k) return i;
    return ~0u;
  }
  static uint64_t val(uint64_t n) { return (uint64_t)(V)(n * vmul); }
  static std::unique_ptr<Map> create() { return std::make_unique<Map>(); }
  static void warm() {}
  static void run(Map &m, HOp &r) {
    const K &k = keys[r.key];
    V v = (V)r.arg;
    std::optional<V> o;
    switch (r.kind) {
    case INS: { OpScope s; r.has = m.Insert(k, v); } return;
    case UPS: { OpScope s; o = m.Upsert(k, v); } break;
    case UPD: { OpScope s; o = m.Update(k, v); } break;
    case GET: { OpScope s; o = m.Search(k); } break;
    case DEL: { OpScope s; o = m.Delete(k); } break;
    }
    r.has = o.has_value();
    if (o) r.val = (uint64_t)*o;
  }
  // every `copy` steps the walk goes on with a copy of the iterator (0 = never), after the original is gone
  template <class IT, class DONE, class NEXT> static void steps(IT &&first, unsigned copy, DONE done, NEXT next) {
    using I = std::decay_t<IT>;
    std::optional<I> x, y;
    x.emplace(std::move(first));
    for (unsigned n = 1; !done(*x); n++) {
      next(*x);
      if (copy && n % copy == 0) { OpScope s; y.emplace(std::as_const(*x)); x.reset(); x.emplace(std::as_const(*y)); y.reset(); c_copy++; }
    }
    if (copy) { OpScope s; x.reset(); }
  }
  template <class IT, class END, class F> static void walk(IT &&it, const END &e, F &f, unsigned copy = 0) {
    K k; V v;
    steps(std::move(it), copy, [&](auto &i) { OpScope s; if (i == e) return true; k = i->first; v = i->second; ++i; return false; }, [&](auto &) { f(index(k), (uint64_t)v); });
  }
  template <class R, class F> static void rwalk(R &&r, F &f, unsigned copy = 0) {
    K k; V v;
    steps(std::move(r), copy, [&](auto &i) { OpScope s; if (!i) return true; k = i->first; v = i->second; ++i; return false; }, [&](auto &) { f(index(k), (uint64_t)v); });
  }
  template <class F> static void scan(Map &m, int kind, uint32_t a, uint32_t b, bool li, bool hi, F f) {
    const K &ka = keys[a], &kb = keys[b];
    unsigned copy = (a + b) % 3 ? 0 : 1 + (a ^ b) % 3;
    switch (kind) {
    case OP_FWD: { auto e = m.end(); auto it = ([&] { OpScope s; return m.begin(); })(); walk(it, e, f, copy); break; }
    case OP_BWD: { auto e = m.rend(); auto it = ([&] { OpScope s; return m.rbegin(); })(); walk(it, e, f, copy); break; }
    case OP_LB: { auto e = m.end(); auto it = ([&] { OpScope s; return m.lower_bound(ka); })(); walk(it, e, f, copy); break; }
    case OP_UB: { auto e = m.end(); auto it = ([&] { OpScope s; return m.upper_bound(ka); })(); walk(it, e, f, copy); break; }
#define RNG_(L, R) { if (kind == OP_RANGE) rwalk(([&] { OpScope s; return m.template range_iter<bt::L, bt::R>(ka, kb); })(), f, copy); else rwalk(([&] { OpScope s; return m.template rrange_iter<bt::L, bt::R>(ka, kb); })(), f, copy); }
    default:
      if (li && hi) RNG_(INCLUSIVE, INCLUSIVE) else if (li) RNG_(INCLUSIVE, EXCLUSIVE) else if (hi) RNG_(EXCLUSIVE, INCLUSIVE) else RNG_(EXCLUSIVE, EXCLUSIVE)
    }
  }
  static void quiescent(Map &m, const std::vector<uint64_t> &fin) {
    size_t n = 0;
    for (uint64_t v : fin) n += v != 0;
    for (int dir = 0; dir < 2; dir++) {
      size_t got = 0; int64_t last = dir ? (int64_t)MAXD : -1;
      auto f = [&](uint32_t k, uint64_t v) {
        CHECK(k < fin.size() && fin[k], "final-iteration", "after all operations returned, iteration visits a key that Search reports absent");
        CHECK(fin[k] == v, "final-iteration", "after all operations returned, iteration and Search disagree on the value of key #%u", k);
        CHECK(dir ? (int64_t)rank(k) < last : (int64_t)rank(k) > last, "final-iteration", "after all operations returned, iteration is not in key order at key #%u", k);
        last = rank(k); got++;
      };
      if (dir) { auto it = m.rbegin(); auto e = m.rend(); walk(it, e, f); } else { auto it = m.begin(); auto e = m.end(); walk(it, e, f); }
      CHECK(got == n, "final-iteration", "after all operations returned, %s iteration visits %zu keys but Search finds %zu", dir ? "backward" : "forward", got, n);
      c_iter++;
    }
    if constexpr (T::STAT) {
      CHECK(m.size() == n, "final-size", "after all operations returned, size() is %zu but %zu keys are present", (size_t)m.size(), n);
      CHECK(m.empty() == (n == 0), "final-size", "after all operations returned, empty() is wrong for %zu keys", n);
      c_size++;
    }
    if constexpr (std::is_integral_v<K>) {
      std::ostringstream os;
      m.dump(os);
      std::vector<int64_t> ks;
      for (uint32_t i = 0; i < fin.size(); i++) if (fin[i]) ks.push_back((int64_t)keys[i]);
      std::sort(ks.begin(), ks.end());
      Shape sh(os.str());
      if (sh.levels.empty()) { CHECK(n == 0, "leaf-content", "the dump shows no tree although %zu keys are present", n); return; }
      sh.check(m.height(), ks);
      if constexpr (T::STAT) sh.check_stats(m.height(), m.stats());
      c_shape++;
    }
  }
  static void reclaim(Map &m) { m.reclaim_all(); }
  static void harvest(Map &m) {
    if constexpr (T::STAT) {
      auto &s = m.stats();
      c_split += s.num_leaf_splits + s.num_inner_splits; c_merge += s.num_leaf_merges + s.num_inner_merges; c_trim += s.num_leaf_trims + s.num_inner_trims;
      c_retry += s.num_retrys; c_pess += s.num_pessimistic_reads; c_optf += s.num_optimistic_fails;
    }
  }
};
template <class K, class V, class T, uint32_t M> std::vector<K> CmapA<K, V, T, M>::keys;
template <class K, class V, class T, uint32_t M> std::vector<uint32_t> CmapA<K, V, T, M>::rk;
template <class K, class V, class T, uint32_t M> int CmapA<K, V, T, M>::style;
template <class K, class V, class T, uint32_t M> uint64_t CmapA<K, V, T, M>::vmul;

int main(int argc, char **argv) {
  Args a = parse(argc, argv, "cmap_conc");
  indexes::utils::ThreadRegistry::RegisterThread();
  ConcMode mode = conc_mode(a);
  uint64_t cases = a.num("cases", 60), from = a.num("from", 0);
  int sch = (int)a.num("schedules", 4);
  G().phase = "run";
  for (uint64_t c = from; c < from + cases; c++) {
    G().case_no = c;
    uint64_t s = mix64(G().seed * 1000003 + c);
#if PART == 0
    switch (c % 2) {
    case 0: conc_case<CmapA<int, uint64_t, Tr<256, 50, true>>>("int-u64-256-50", s, mode, sch); break;
    case 1: conc_case<CmapA<int, int, Tr<256, 90, true>>>("int-int-256-90", s, mode, sch); break;
    }
#else
    switch (c % 2) {
    case 0: conc_case<CmapA<std::string, uint64_t, Tr<448, 60, true>>>("str-u64-448-60", s, mode, sch); break;
    case 1: conc_case<CmapA<int64_t, uint64_t, Tr<1024, 30, false, false>>>("i64-u64-1024-30-nostat", s, mode, sch); break;
    }
#endif
  }
  finish();
}
