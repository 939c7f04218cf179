// Single-threaded monitor for indexes::btree::concurrent_map against std::map.
// mode=dict|iter|range|life|shape
#include <iostream>
#define BTREE_DUMP_ENABLED 1
#include <deque>
#include "indexes/btree/concurrent_map.h"
#include "common.h"
#include "keys.h"
#include "shape.h"
#include <iterator>
#include <memory>
#include <sstream>
using TR = indexes::utils::ThreadRegistry;
template <int SZ, int TH, bool DBG, bool ST = true> struct Tr : bt::btree_traits_default {
  static constexpr int NODE_SIZE = SZ;
  static constexpr int NODE_MERGE_THRESHOLD = TH;
  static constexpr bool DEBUG = DBG;
  static constexpr bool STAT = ST;
};
// a key whose order is chosen at run time by the comparator object passed to every call
struct DKey : bt::dynamic_key_base {
  int a, b;
  DKey(int x = 0, int y = 0) : a(x), b(y) {}
};
inline bool operator==(const DKey &x, const DKey &y) { return x.a == y.a && x.b == y.b; }
inline std::ostream &operator<<(std::ostream &o, const DKey &k) { return o << k.a << ':' << k.b; }
template <> struct KeyOf<DKey> {
  static DKey mk(uint64_t i, int style) { return style % 2 ? DKey{(int)(i % 7) - 3, (int)(i / 7)} : DKey{(int)i, -(int)i}; }
  static DKey probe(Rng &r) { return DKey{(int)r.range(-5, 60), (int)r.range(-60, 60)}; }
};
static int dyn_order = 0;
static bool dless(const DKey &x, const DKey &y) {
  switch (dyn_order) {
  case 0: return std::tie(x.a, x.b) < std::tie(y.a, y.b);
  case 1: return std::tie(y.a, y.b) < std::tie(x.a, x.b);
  default: return std::tie(x.b, x.a) < std::tie(y.b, y.a);
  }
}
struct Less {
  template <class A, class B> bool operator()(const A &a, const B &b) const {
    if constexpr (std::is_same_v<A, DKey>) return dless(a, b); else return a < b;
  }
};

enum Mode { DICT, ITER, RANGE, LIFE, SHAPE };
static Mode mode;
static Ctr c_ops("ops"), c_cmp("comparisons"), c_full("full_traversals"), c_walk("walk_steps"), c_bound("bound_queries"), c_range("range_scans"),
    c_partial("partial_key_queries"), c_cases("cases"), c_split("splits"), c_merge("merges"), c_trim("trims"), c_maxh("max_height"), c_heap("heap_balance_checks"), c_move("moves"), c_dump("structure_dumps"), c_due("merges_due"), c_temp("temporary_range_bounds");

template <class K, class V, class T> struct Runner {
  static constexpr bool dyn = std::is_same_v<K, DKey>;
  using Map = bt::concurrent_map<K, V, T>;
  using Model = std::map<K, V, Less>;
  struct Cmp : Map::dynamic_cmp {
    bool less(const K &a, const K &b) const noexcept override { return Less()(a, b); }
    bool equal(const K &a, const K &b) const noexcept override { return a == b; }
  };
  Cmp cmp;
  std::unique_ptr<Map> m;
  Model ref;
  size_t largest = 0; // leaf seen
  Rng rng;
  uint64_t D;
  int style;
  uint64_t vseq = 1;
  explicit Runner(uint64_t seed) : m(new Map), rng(seed) {
    static const uint64_t doms[] = {3, 9, 30, 120, 120, 600, 600, 2500};
    D = doms[rng.below(8)];
    style = (int)rng.below(12);
    if (std::is_same_v<K, uint8_t> && D > 256) D = 256;
    dyn_order = (int)rng.below(3);
  }
  K key(uint64_t i) { return KeyOf<K>::mk(i, style); }
  // one call site per operation, static or dynamic keys
#define CALL(NAME, ...) ([&] { if constexpr (dyn) return m->NAME(__VA_ARGS__, &cmp); else return m->NAME(__VA_ARGS__); }())
#define CALL0(NAME) ([&] { if constexpr (dyn) return m->NAME(&cmp); else return m->NAME(); }())

  template <class O> void expect(const O &got, typename Model::iterator it, const char *what) {
    bool have = it != ref.end();
    CHECK(got.has_value() == have, "result-mismatch", "%s returned %s although the key is %s", what, got ? "a value" : "nothing", have ? "present" : "absent");
    if (have) CHECK(*got == it->second, "result-mismatch", "%s returned a value that is not the current one", what);
    c_cmp++;
  }
  void put(uint64_t i) {
    K k = key(i); V v = ValOf<V>::mk(vseq++);
    budget(5000000);
    auto it = ref.find(k);
    switch (rng.below(3)) {
    case 0: {
      op("Insert #%" PRIu64, i);
      bool r = CALL(Insert, k, v);
      CHECK(r == (it == ref.end()), "result-mismatch", "Insert returned %d for a key that is %s", (int)r, it == ref.end() ? "absent" : "present");
      if (r) ref.emplace(k, v);
      break; }
    case 1: { op("Upsert #%" PRIu64, i); expect(CALL(Upsert, k, v), it, "Upsert"); ref[k] = v; break; }
    default: {
      op("Update #%" PRIu64, i); expect(CALL(Update, k, v), it, "Update");
      if (it != ref.end()) it->second = v;
      else { op("Insert #%" PRIu64, i); CHECK(CALL(Insert, k, v), "result-mismatch", "Insert of an absent key failed"); ref.emplace(k, v); }
      break; }
    }
    c_ops++;
    sizes("put");
  }
  void get(uint64_t i) {
    K k = key(i);
    op("Search #%" PRIu64, i);
    budget(5000000);
    expect(CALL(Search, k), ref.find(k), "Search");
  }
  void del(uint64_t i) {
    K k = key(i);
    op("Delete #%" PRIu64, i);
    budget(5000000);
    auto it = ref.find(k);
    bool due = false;
    size_t merges = 0;
    if constexpr (std::is_integral_v<K> && sizeof(K) > 1 && T::STAT) if (mode == SHAPE && it != ref.end() && rng.chance(1, 4)) {
      std::ostringstream os;
      m->dump(os);
      Shape sh(os.str());
      largest = std::max(largest, sh.max_leaf());
      due = sh.merge_due((int64_t)k, sizeof(std::pair<K, V>) + sizeof(int), T::NODE_SIZE, T::NODE_MERGE_THRESHOLD, largest);
      merges = m->stats().num_leaf_merges;
      if (due) c_due++;
    }
    expect(CALL(Delete, k), it, "Delete");
    if constexpr (T::STAT) if (due) CHECK(m->stats().num_leaf_merges > merges, "merge-missed", "deleting left a leaf below the merge threshold, but it was not merged with its left sibling although both fit in one node");
    if (it != ref.end()) ref.erase(it);
    c_ops++;
    sizes("del");
    if (rng.chance(1, 8)) get(i);
  }
  void sizes(const char *what) {
    if constexpr (T::STAT) {
      CHECK(m->size() == ref.size(), "size-mismatch", "size() is %zu after %s, expected %zu", m->size(), what, ref.size());
      CHECK(m->empty() == ref.empty(), "size-mismatch", "empty() is wrong after %s", what);
    }
  }
  void check_shape() {
    if constexpr (std::is_integral_v<K> && sizeof(K) > 1 && T::STAT) {
      std::ostringstream os;
      budget(50000000);
      m->dump(os);
      c_dump++;
      Shape sh(os.str());
      if (sh.levels.empty()) { CHECK(ref.empty(), "leaf-content", "the dump shows no tree although keys are present"); return; }
      std::vector<int64_t> ks;
      for (auto &kv : ref) ks.push_back((int64_t)kv.first);
      sh.check(m->height(), ks);
      sh.check_stats(m->height(), m->stats());
      seen(sh.hash);
    }
  }
  void check_dict() {
    for (uint64_t i = 0; i < D; i++) get(i);
    for (int i = 0; i < 5; i++) { K k = KeyOf<K>::probe(rng); budget(5000000); expect(CALL(Search, k), ref.find(k), "Search(random key)"); }
    c_full++;
  }
  template <class A, class B> void same(const A &mi, const B &ri, const char *what) {
    CHECK(mi->first == ri->first, "iteration-order", "%s visits a wrong key", what);
    CHECK(mi->second == ri->second && (*mi).first == ri->first && mi.key() == ri->first && mi.data() == ri->second, "iteration-value", "%s visits the right key with a wrong value", what);
    c_cmp++;
  }
  template <class B, class E, class RB> void fwd(B b, const E &e, RB ri, const char *what) {
    size_t n = 0;
    while (b != e) {
      CHECK(n < ref.size(), "iteration-extra", "%s visits more than the %zu entries present", what, ref.size());
      same(b, ri, what);
      if (n & 1) { ++b; } else { auto old = b++; same(old, ri, "post-increment"); }
      ++ri; n++;
    }
    CHECK(n == ref.size(), "iteration-missing", "%s visits %zu entries, expected %zu", what, n, ref.size());
  }
  void check_iter() {
    op("full traversals");
    budget(50000000 + ref.size() * 50000);
    fwd(CALL0(begin), CALL0(end), ref.begin(), "begin()..end()");
    fwd(CALL0(cbegin), CALL0(cend), ref.begin(), "cbegin()..cend()");
    fwd(CALL0(rbegin), CALL0(rend), ref.rbegin(), "rbegin()..rend()");
    fwd(CALL0(crbegin), CALL0(crend), ref.rbegin(), "crbegin()..crend()");
    c_full += 4;
    if (ref.empty()) return;
    for (int w = 0; w < 4; w++) {
      auto ri = ref.begin();
      std::advance(ri, rng.below(ref.size()));
      auto mi = CALL(lower_bound, ri->first);
      CHECK(mi != CALL0(end), "bound-mismatch", "lower_bound of a present key is end()");
      typename Map::const_reverse_iterator rmi = mi;
      int steps = 3 + (int)rng.below(60), dir = (int)rng.below(3);
      for (int s = 0; s < steps; s++) {
        bool up = dir == 2 ? rng.chance(1, 2) : dir == 1;
        if (up) {
          if (std::next(ri) == ref.end()) { auto t = mi; ++t; CHECK(t == CALL0(end), "iteration-extra", "incrementing past the last entry does not give end()"); dir = 0; continue; }
          ++ri; if (s & 1) { ++mi; --rmi; } else { mi++; rmi--; }
        } else {
          if (ri == ref.begin()) { auto t = rmi; ++t; CHECK(t == CALL0(rend), "iteration-extra", "incrementing a reverse iterator past the first entry does not give rend()"); dir = 1; continue; }
          --ri; if (s & 1) { --mi; ++rmi; } else { mi--; rmi++; }
        }
        same(mi, ri, "walk"); same(rmi, ri, "reverse walk");
        c_walk++;
      }
    }
    bounds(); 
  }
  template <class Q> void bounds_of(const Q &q) {
    op("bounds query");
    budget(20000000);
    auto lo = std::find_if(ref.begin(), ref.end(), [&](auto &kv) { return !Less()(kv.first, q); });
    auto hi = std::find_if(ref.begin(), ref.end(), [&](auto &kv) { return Less()(q, kv.first); });
    auto a = CALL(lower_bound, q); auto b = CALL(upper_bound, q);
    auto e = CALL0(end);
    CHECK((a == e) == (lo == ref.end()), "bound-mismatch", "lower_bound returned %s, expected %s", a == e ? "end()" : "an entry", lo == ref.end() ? "end()" : "an entry");
    CHECK((b == e) == (hi == ref.end()), "bound-mismatch", "upper_bound returned %s, expected %s", b == e ? "end()" : "an entry", hi == ref.end() ? "end()" : "an entry");
    if (a != e) CHECK(a->first == lo->first && a->second == lo->second, "bound-mismatch", "lower_bound returned the wrong entry");
    if (b != e) CHECK(b->first == hi->first && b->second == hi->second, "bound-mismatch", "upper_bound returned the wrong entry");
    c_bound += 2;
  }
  void bounds() {
    int n = (int)std::min<uint64_t>(D, 40);
    for (int i = 0; i < n; i++) bounds_of(key(n == (int)D ? i : rng.below(D)));
    for (int i = 0; i < 12; i++) bounds_of(KeyOf<K>::probe(rng));
    if constexpr (std::is_same_v<K, CK3>) for (int i = 0; i < 12; i++) {
      CK3 k = rng.chance(1, 2) ? key(rng.below(D)) : KeyOf<K>::probe(rng);
      bounds_of(bt::compound_key<int>{std::get<0>(k)}); bounds_of(bt::compound_key<int, int>{std::get<0>(k), std::get<1>(k)});
      c_partial += 2;
    }
  }
  // ------------------------------------------------------------ range scans
  template <bt::range_kind L, bt::range_kind R, class A, class B> void scan(const A &lo, const B &hi) {
    std::vector<typename Model::const_iterator> want;
    for (auto it = ref.begin(); it != ref.end(); ++it) {
      bool ok1 = L == bt::INCLUSIVE ? !Less()(it->first, lo) : Less()(lo, it->first);
      bool ok2 = R == bt::INCLUSIVE ? !Less()(hi, it->first) : Less()(it->first, hi);
      if (ok1 && ok2) want.push_back(it);
    }
    for (int rev = 0; rev < 2; rev++) {
      op("%s scan, left %s, right %s", rev ? "reverse" : "forward", L == bt::INCLUSIVE ? "inclusive" : "exclusive", R == bt::INCLUSIVE ? "inclusive" : "exclusive");
      budget(50000000 + ref.size() * 50000);
      size_t n = 0;
      auto walk = [&](auto it) {
        while (it) {
          CHECK(n < want.size(), "range-extra", "the %s scan visits more than the %zu entries in range", rev ? "reverse" : "forward", want.size());
          auto &w = want[rev ? want.size() - 1 - n : n];
          CHECK(it->first == w->first && it.key() == w->first && (*it).first == w->first, "range-order", "the %s scan visits a wrong key", rev ? "reverse" : "forward");
          CHECK(it->second == w->second && it.data() == w->second, "range-value", "the %s scan visits the right key with a wrong value", rev ? "reverse" : "forward");
          n++;
          bool more = ++it;
          CHECK(more == (bool)it, "range-order", "operator++ and operator bool of a range iterator disagree");
        }
        CHECK(n == want.size(), "range-missing", "the %s scan visits %zu entries, expected %zu", rev ? "reverse" : "forward", n, want.size());
        c_cmp += n; c_range++;
      };
      bool temp = rng.chance(1, 2); // bounds that do not outlive the call
      if (temp) c_temp++;
      auto *tl = temp ? new A(lo) : nullptr; auto *th = temp ? new B(hi) : nullptr;
      const A &pl = temp ? *tl : lo; const B &ph = temp ? *th : hi;
      if constexpr (dyn) {
        if (rev) { auto it = m->template rrange_iter<L, R>(pl, ph, &cmp); delete tl; delete th; walk(std::move(it)); }
        else { auto it = m->template range_iter<L, R>(pl, ph, &cmp); delete tl; delete th; walk(std::move(it)); }
      } else {
        if (rev) { auto it = m->template rrange_iter<L, R>(pl, ph); delete tl; delete th; walk(std::move(it)); }
        else { auto it = m->template range_iter<L, R>(pl, ph); delete tl; delete th; walk(std::move(it)); }
      }
    }
  }
  template <class A, class B> void scans(const A &lo, const B &hi) {
    switch (rng.below(4)) {
    case 0: scan<bt::INCLUSIVE, bt::INCLUSIVE>(lo, hi); break;
    case 1: scan<bt::INCLUSIVE, bt::EXCLUSIVE>(lo, hi); break;
    case 2: scan<bt::EXCLUSIVE, bt::INCLUSIVE>(lo, hi); break;
    case 3: scan<bt::EXCLUSIVE, bt::EXCLUSIVE>(lo, hi); break;
    }
  }
  void check_ranges() {
    for (int i = 0; i < 24; i++) {
      K a = rng.chance(2, 3) ? key(rng.below(D)) : KeyOf<K>::probe(rng);
      K b = rng.chance(2, 3) ? key(rng.below(D)) : KeyOf<K>::probe(rng);
      if (rng.chance(1, 6)) b = a;
      if (!rng.chance(1, 8) && Less()(b, a)) std::swap(a, b);
      scans(a, b);
      if constexpr (std::is_same_v<K, CK3>) if (rng.chance(1, 3)) {
        bt::compound_key<int> pa{std::get<0>(a)}, pb{std::get<0>(b) + 1};
        scans(pa, pb); scans(pa, b); scans(a, pb); c_partial += 3;
      }
    }
  }
  void oracle() {
    switch (mode) {
    case DICT: check_dict(); break;
    case ITER: check_iter(); break;
    case RANGE: check_ranges(); break;
    case LIFE: if (rng.chance(1, 3)) { check_iter(); check_ranges(); } if (rng.chance(1, 4)) { m->reclaim_all(); } if (rng.chance(1, 12)) move_it(); break;
    case SHAPE: check_shape(); if (rng.chance(1, 12)) move_it(); break;
    }
    if constexpr (T::STAT) {
      auto &st = m->stats();
      seen(mix64(ref.size() * 1000003 + st.num_leaf_splits * 10007 + st.num_leaf_merges * 101 + st.num_leaf_trims * 13 + st.num_inner_splits * 7 + st.num_inner_merges * 5 + st.num_inner_trims));
    } else seen(mix64(ref.size() * 1000003 + m->height()));
    CHECK(m->height() >= 0 && m->height() < 40, "height", "height() is %d", m->height());
    if (ref.size() > 0) CHECK((1ull << std::min(m->height(), 40)) / 4 <= (vseq + 1), "height", "height() is %d after %" PRIu64 " writes", m->height(), vseq);
  }
  void move_it() {
    op("move construction");
    Map *n = new Map(std::move(*m));
    m.reset(n);
    c_move++;
    check_dict();
  }
  std::vector<uint64_t> sorted_idx() {
    std::vector<uint64_t> v(D);
    for (uint64_t i = 0; i < D; i++) v[i] = i;
    std::vector<K> ks;
    for (uint64_t i = 0; i < D; i++) ks.push_back(key(i));
    std::sort(v.begin(), v.end(), [&](uint64_t a, uint64_t b) { return Less()(ks[a], ks[b]); });
    return v;
  }
  void run(uint64_t maxops) {
    auto idx = sorted_idx();
    uint64_t done = 0;
    int cd = 5;
    oracle();
    auto tick = [&] { done++; if (--cd <= 0) { oracle(); cd = 1 + (int)rng.below(mode == DICT || mode == LIFE ? 2 * D + 40 : D / 2 + 20); } };
    while (done < maxops) {
      int ph = (int)rng.below(10);
      uint64_t len = 1 + rng.below(D + 10);
      op("phase %d len %" PRIu64 " D=%" PRIu64 " style=%d", ph, len, D, style);
      switch (ph) {
      case 0: for (uint64_t i = 0; i < D; i++) { put(idx[i]); tick(); } break;
      case 1: for (uint64_t i = D; i-- > 0;) { put(idx[i]); tick(); } break;
      case 2: for (uint64_t i = 0; i < len && i < D; i++) { del(idx[i]); tick(); } break;
      case 3: for (uint64_t i = 0; i < len && i < D; i++) { del(idx[D - 1 - i]); tick(); } break;
      case 4: for (uint64_t i = 0; i < len; i++) { del(rng.below(D)); tick(); } break;
      case 5: for (uint64_t i = 0; i < len; i++) { put(rng.below(D)); tick(); } break;
      case 6: { uint64_t w = 1 + rng.below(D);
        for (uint64_t i = 0; i < D; i++) { put(idx[i]); tick(); if (i >= w) { del(idx[i - w]); tick(); } } break; }
      case 7: { unsigned p = 1 + (unsigned)rng.below(9);
        for (uint64_t i = 0; i < 2 * len; i++) { if (rng.chance(p, 10)) put(rng.below(D)); else del(rng.below(D)); tick(); } break; }
      case 8: { uint64_t a = rng.below(D), b = std::min(D, a + len);
        for (uint64_t i = a; i < b; i++) { del(idx[i]); tick(); }
        oracle();
        for (uint64_t i = a; i < b; i++) if (rng.chance(1, 3)) { put(idx[i]); tick(); } break; }
      case 9: if (rng.chance(1, 2)) { auto ord = idx;
          if (rng.chance(1, 2)) for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[rng.below(i)]);
          for (uint64_t i : ord) { del(i); tick(); }
          oracle(); } break;
      }
    }
    oracle();
    if constexpr (T::STAT) {
      auto &st = m->stats();
      c_split += st.num_leaf_splits + st.num_inner_splits; c_merge += st.num_leaf_merges + st.num_inner_merges; c_trim += st.num_leaf_trims + st.num_inner_trims;
      if ((uint64_t)m->height() > c_maxh.v) c_maxh.v = m->height();
    }
    c_cases++;
  }
};
template <class K, class V, class T> void one(const char *name, uint64_t seed, uint64_t maxops) {
  G().config = name;
  live() = Live();
  Runner<K, V, T> r(seed);
  r.run(maxops);
  if (mode == LIFE) {
    no_budget();
    r.ref.clear();
    r.m.reset();
    CHECK(live().alive == 0 && live().made == live().destroyed, "lifetime-count", "%" PRId64 " stored keys outlive the map", live().alive);
  }
}
template <class K, class V, class T> void balance(const char *name, uint64_t seed) {
  G().config = name;
  one<K, V, T>(name, seed, 50);
  size_t before = heap_bytes();
  {
    Rng rng(seed);
    using Map = bt::concurrent_map<K, V, T>;
    typename Runner<K, V, T>::Cmp cmp;
    Map *m = new Map;
    constexpr bool dyn = std::is_same_v<K, DKey>;
    uint64_t D = 1 + rng.below(400), n = 20 + rng.below(1500);
    int style = (int)rng.below(12), bias = 1 + (int)rng.below(9);
    for (uint64_t i = 0; i < n; i++) {
      uint64_t j = rng.below(D);
      budget(5000000);
      K k = KeyOf<K>::mk(j, style); V v = ValOf<V>::mk(i);
      if (rng.chance(bias, 10)) CALL(Upsert, k, v); else CALL(Delete, k);
      if (rng.chance(1, 300)) { Map *n2 = new Map(std::move(*m)); delete m; m = n2; }
      if (rng.chance(1, 300)) { auto it = CALL0(begin); auto it2 = it; int s = rng.below(20); while (it != CALL0(end) && s--) ++it; }
    }
    if (rng.chance(1, 3)) for (uint64_t j = 0; j < D; j++) { K k = KeyOf<K>::mk(j, style); CALL(Delete, k); }
    if (rng.chance(1, 2)) {
      size_t h1 = heap_bytes();
      m->reclaim_all();
      CHECK(heap_bytes() <= h1, "leak", "reclaim_all() allocated memory");
    }
    delete m;
  }
  size_t after = heap_bytes();
  CHECK(after == before, "leak", "%zd bytes are still allocated after the map was destroyed", (ssize_t)(after - before));
  c_heap++;
}
template <class K, class V, class T> void space(const char *name, uint64_t seed) {
  G().config = name;
  Rng rng(seed);
  uint64_t n = 3000 + rng.below(3000);
  std::vector<uint64_t> ord(n);
  for (uint64_t i = 0; i < n; i++) ord[i] = i;
  auto shuffle = [&] {
    int how = (int)rng.below(3);
    if (how == 0) std::sort(ord.begin(), ord.end());
    else if (how == 1) std::sort(ord.begin(), ord.end(), std::greater<uint64_t>());
    else for (size_t i = n; i > 1; i--) std::swap(ord[i - 1], ord[rng.below(i)]);
  };
  shuffle();
  bt::concurrent_map<K, V, T> m;
  size_t before = heap_bytes();
  for (uint64_t i : ord) { budget(5000000); m.Insert((K)i, (V)i); }
  m.reclaim_all();
  size_t peak = heap_bytes() - before;
  shuffle();
  for (uint64_t i : ord) { budget(5000000); m.Delete((K)i); }
  m.reclaim_all();
  size_t rest = heap_bytes() - before;
  op("space: n=%" PRIu64 " peak=%zu rest=%zu", n, peak, rest);
  static Ctr w("worst_space_left_permille");
  uint64_t pm = rest * 1000 / peak;
  if (pm > w.v) w.v = pm;
  CHECK(rest * 2 < peak, "space", "%zu of %zu bytes are still in use after deleting all %" PRIu64 " entries", rest, peak, n);
}
template <class K, class V, class T> void dispatch(const char *name, uint64_t seed, uint64_t maxops) {
  one<K, V, T>(name, seed, maxops);
  if (mode == LIFE) balance<K, V, T>(name, seed + 1);
  if constexpr (std::is_integral_v<K> && sizeof(K) > 1) if (mode == SHAPE && G().case_no % 4 == 0) space<K, V, Tr<1024, 40, false>>(name, seed + 2);
}
int main(int argc, char **argv) {
  Args a = parse(argc, argv, "cmap_seq");
  TR::RegisterThread();
  std::string ms = a.str("mode", "dict");
  mode = ms == "dict" ? DICT : ms == "iter" ? ITER : ms == "range" ? RANGE : ms == "life" ? LIFE : SHAPE;
  uint64_t cases = a.num("cases", 60), maxops = a.num("ops", 800), from = a.num("from", 0);
  G().phase = "run";
  for (uint64_t c = from; c < from + cases; c++) {
    G().case_no = c;
    uint64_t s = mix64(G().seed * 1000003 + c);
#if PART == 0
    switch (c % 2) {
    case 0: dispatch<int, int, Tr<256, 50, true>>("int-int-256-50", s, maxops); break;
    case 1: dispatch<std::string, int, Tr<448, 80, true>>("str-int-448-80", s, maxops); break;
    }
#elif PART == 1
    switch (c % 2) {
    case 0: dispatch<int64_t, uint64_t, Tr<384, 80, true>>("i64-u64-384-80", s, maxops); break;
    case 1: dispatch<CK3, int, Tr<256, 60, true>>("ck3-int-256-60", s, maxops); break;
    }
#elif PART == 2
    switch (c % 2) {
    case 0: dispatch<DKey, int, Tr<320, 60, true>>("dyn-int-320-60", s, maxops); break;
    case 1: dispatch<uint8_t, uint8_t, Tr<256, 95, false>>("u8-u8-256-95", s, maxops); break;
    }
#else
    switch (c % 3) {
    case 0: dispatch<int, int, Tr<1024, 35, false, false>>("int-int-1024-35-nostat", s, maxops); break;
    case 1: dispatch<Tracked, int, Tr<512, 70, true>>("trk-int-512-70", s, maxops); break;
    case 2: dispatch<CKS, uint64_t, Tr<512, 30, true>>("cks-u64-512-30", s, maxops); break;
    }
#endif
  }
  finish();
}
