// Single-threaded monitor for indexes::btree::map against std::map.
// mode=dict|iter|bounds|life|shape
#include <iostream>
#define BTREE_DUMP_ENABLED 1
#include "indexes/btree/key.h"
#include "indexes/btree/map.h"
#include "common.h"
#include "keys.h"
#include "shape.h"
#include <iterator>
#include <memory>
#include <sstream>
#include <utility>
using namespace vh;
namespace bt = indexes::btree;

template <int SZ, int TH, bool DBG> struct Tr : bt::btree_traits_default {
  static constexpr int NODE_SIZE = SZ;
  static constexpr int NODE_MERGE_THRESHOLD = TH;
  static constexpr bool DEBUG = DBG;
  static constexpr bool STAT = true;
};
enum Mode { DICT, ITER, BOUNDS, LIFE, SHAPE };
static Mode mode;
static Ctr c_ops("ops"), c_cmp("comparisons"), c_full("full_traversals"), c_walk("walk_steps"), c_bound("bound_queries"),
    c_partial("partial_key_queries"), c_cases("cases"), c_split("splits"), c_merge("merges"), c_trim("trims"),
    c_maxh("max_height"), c_dump("structure_dumps"), c_due("merges_due"), c_heap("heap_balance_checks"), c_emptied("times_emptied");

template <class K, class V, class T, class Cmp = std::less<K>> struct Runner {
  using Map = bt::map<K, V, T, Cmp>;
  using Model = std::map<K, V, Cmp>;
  static constexpr bool plain = std::is_same_v<Cmp, std::less<K>>;
  template <class A, class B> static bool lt(const A &a, const B &b) {
    if constexpr (plain) return a < b; else return Cmp()(a, b);
  }
  std::unique_ptr<Map> m;
  Model ref;
  Rng rng;
  uint64_t D;
  int style;
  uint64_t vseq = 1;
  uint64_t inserts = 0;
  bool erased_any = false;
  size_t largest = 0; // leaf seen
  static constexpr bool dumpable = std::is_integral_v<K> && sizeof(K) > 1 && sizeof(K) <= 8 && plain;
  explicit Runner(uint64_t seed) : m(new Map), rng(seed) {
    static const uint64_t doms[] = {3, 9, 30, 120, 120, 600, 600, 2500};
    D = doms[rng.below(8)];
    style = (int)rng.below(12);
    if (std::is_same_v<K, uint8_t> && D > 256) D = 256;
  }
  K key(uint64_t i) { return KeyOf<K>::mk(i, style); }

  // ------------------------------------------------------------ operations
  void put(uint64_t i) {
    K k = key(i);
    V v = ValOf<V>::mk(vseq++);
    op("put #%" PRIu64, i);
    budget(2000000);
    auto it = ref.find(k);
    if (it == ref.end() && rng.chance(1, 4)) {
      // first access through operator[] must yield a freshly constructed value
      op("  (read of new entry)");
      const V &nv = (*m)[k];
      CHECK(nv == V{}, "new-entry-not-default", "operator[] on an absent key yielded a value that is not the default-constructed one");
      ref.emplace(k, V{});
      inserts++;
    }
    V &slot = (*m)[k];
    it = ref.find(k);
    if (it != ref.end()) {
      CHECK(slot == it->second, "lookup-mismatch", "operator[] on a present key returned a different value");
      c_cmp++;
    } else
      inserts++;
    slot = v;
    ref[k] = v;
    after("put");
  }
  void get(uint64_t i) {
    K k = key(i);
    op("get #%" PRIu64, i);
    budget(2000000);
    auto it = ref.find(k);
    auto mi = m->find(k);
    bool have = mi != m->end();
    CHECK(have == (it != ref.end()), "presence-mismatch", "find(key) %s but the key is %s", have ? "found it" : "missed", have ? "absent" : "present");
    if (have) CHECK(mi->first == k && mi->second == it->second && mi.key() == k && mi.data() == it->second, "lookup-mismatch", "find(key) returned a different entry");
    const Map &cm = *m;
    auto ci = cm.find(k);
    bool chave = ci != cm.cend();
    CHECK(chave == have, "presence-mismatch", "const find(key) disagrees");
    if (chave) CHECK(ci->first == k && ci->second == it->second, "lookup-mismatch", "const find(key) returned a different entry");
    c_cmp += 2;
  }
  void set_via_iterator(uint64_t i) {
    K k = key(i);
    budget(2000000);
    auto mi = m->find(k);
    if (mi == m->end()) { CHECK(!ref.count(k), "presence-mismatch", "find(key) missed a present key"); return; }
    op("set-through-iterator #%" PRIu64, i);
    V v = ValOf<V>::mk(vseq++);
    mi->second = v;
    ref[k] = v;
    after("set");
  }
  void del(uint64_t i) {
    K k = key(i);
    op("del #%" PRIu64, i);
    budget(2000000);
    bool present = ref.count(k), due = false;
    size_t merges = 0;
    if constexpr (dumpable) if (mode == SHAPE && present && largest && rng.chance(1, 4)) {
      std::ostringstream os;
      m->dump(os);
      Shape sh(os.str());
      largest = std::max(largest, sh.max_leaf());
      due = sh.merge_due((int64_t)k, sizeof(std::pair<K, V>) + sizeof(int), T::NODE_SIZE, T::NODE_MERGE_THRESHOLD, largest);
      merges = m->stats().num_leaf_merges;
      if (due) c_due++;
    }
    if (present && rng.chance(1, 2)) {
      auto it = m->find(k);
      CHECK(it != m->end(), "presence-mismatch", "find(key) missed a present key before erase(iterator)");
      m->erase(it);
    } else {
      bool r = m->erase(k);
      CHECK(r == present, "erase-result", "erase(key) returned %d for a key that is %s", (int)r, present ? "present" : "absent");
    }
    if (present) erased_any = true;
    if (due) CHECK(m->stats().num_leaf_merges > merges, "merge-missed", "erasing left a leaf below the merge threshold, but it was not merged with its left sibling although both fit in one node");
    ref.erase(k);
    CHECK(m->find(k) == m->end(), "presence-mismatch", "key still found right after erase");
    if (ref.empty()) c_emptied++;
    after("del");
  }
  void after(const char *what) {
    c_ops++;
    CHECK(m->size() == ref.size(), "size-mismatch", "size() is %zu after %s, expected %zu", m->size(), what, ref.size());
    CHECK(m->empty() == ref.empty(), "size-mismatch", "empty() wrong after %s", what);
  }

  // ------------------------------------------------------------ oracles
  void check_dict() {
    for (uint64_t i = 0; i < D; i++) get(i);
    for (int i = 0; i < 5; i++) {
      K k = KeyOf<K>::probe(rng);
      budget(2000000);
      CHECK((m->find(k) != m->end()) == (ref.count(k) > 0), "presence-mismatch", "find(random key) disagrees with the reference");
    }
    c_full++;
  }
  template <class A, class B> void same(const A &mi, const B &ri, const char *what) {
    CHECK(mi->first == ri->first, "iteration-order", "%s visits a wrong key", what);
    CHECK(mi->second == ri->second, "iteration-value", "%s visits the right key with a wrong value", what);
    CHECK((*mi).first == ri->first && mi.key() == ri->first && mi.data() == ri->second, "iteration-value", "%s: accessors disagree", what);
    c_cmp++;
  }
  template <class B, class E, class RB> void fwd(B b, E e, RB ri, const char *what) {
    size_t n = 0;
    while (b != e) {
      CHECK(n < ref.size(), "iteration-extra", "%s visits more than the %zu entries present", what, ref.size());
      same(b, ri, what);
      if (n & 1) { ++b; } else { auto old = b++; same(old, ri, "post-increment"); }
      ++ri; n++;
    }
    CHECK(n == ref.size(), "iteration-missing", "%s visits %zu entries, expected %zu", what, n, ref.size());
  }
  void check_iter() {
    budget(20000000 + ref.size() * 20000);
    Map &mm = *m; const Map &cm = *m;
    op("full traversals");
    fwd(mm.begin(), mm.end(), ref.begin(), "begin()..end()");
    fwd(cm.begin(), cm.end(), ref.begin(), "const begin()..end()");
    fwd(cm.cbegin(), cm.cend(), ref.begin(), "cbegin()..cend()");
    fwd(mm.rbegin(), mm.rend(), ref.rbegin(), "rbegin()..rend()");
    fwd(cm.rbegin(), cm.rend(), ref.rbegin(), "const rbegin()..rend()");
    fwd(cm.crbegin(), cm.crend(), ref.rbegin(), "crbegin()..crend()");
    c_full += 6;
    if (ref.empty()) {
      CHECK(mm.begin() == mm.end() && mm.rbegin() == mm.rend(), "iteration-extra", "begin()/rbegin() of an empty map is not end()/rend()");
      return;
    }
    // random walks with ++ and -- in both iterator directions
    for (int w = 0; w < 4; w++) {
      auto ri = ref.begin();
      std::advance(ri, rng.below(ref.size()));
      auto mi = mm.find(ri->first);
      CHECK(mi != mm.end(), "presence-mismatch", "find missed a present key");
      typename Map::reverse_iterator rmi = mi;
      typename Map::const_iterator cmi = cm.find(ri->first);
      int steps = 3 + (int)rng.below(60), dir = (int)rng.below(3);
      for (int s = 0; s < steps; s++) {
        bool up = dir == 2 ? rng.chance(1, 2) : dir == 1;
        if (up) {
          if (std::next(ri) == ref.end()) {
            auto t = mi; ++t; CHECK(t == mm.end(), "iteration-extra", "incrementing past the last entry does not give end()");
            dir = 0; continue;
          }
          ++ri;
          if (s & 1) { ++mi; --rmi; ++cmi; } else { mi++; rmi--; cmi++; }
        } else {
          if (ri == ref.begin()) {
            auto t = rmi; ++t; CHECK(t == mm.rend(), "iteration-extra", "incrementing a reverse iterator past the first entry does not give rend()");
            dir = 1; continue;
          }
          --ri;
          if (s & 1) { --mi; ++rmi; --cmi; } else { mi--; rmi++; cmi--; }
        }
        same(mi, ri, "walk"); same(rmi, ri, "reverse walk"); same(cmi, ri, "const walk");
        CHECK(mi == mm.find(ri->first), "iterator-equality", "an iterator reached by walking differs from find() of the same key");
        if ((s & 7) == 0) { // equal iff they refer to the same entry
          auto ro = ref.begin(); std::advance(ro, rng.below(ref.size()));
          auto other = mm.find(ro->first);
          CHECK((mi == other) == (ro == ri) && (mi != other) == (ro != ri), "iterator-equality", "iterators to %s entries compare %s", ro == ri ? "equal" : "different", mi == other ? "equal" : "different");
        }
        c_walk++;
      }
    }
  }
  template <class It, class RIt> void cmpbound(It it, It end, RIt ri, const char *what) {
    bool me = it == end, re = ri == ref.end();
    CHECK(me == re, "bound-mismatch", "%s returned %s, expected %s", what, me ? "end()" : "an entry", re ? "end()" : "an entry");
    if (!me) CHECK(it->first == ri->first && it->second == ri->second, "bound-mismatch", "%s returned the wrong entry", what);
    c_bound++;
  }
  template <class Q> void bounds_of(const Q &q) {
    const Map &cm = *m;
    op("bounds query");
    budget(20000000);
    auto lo = std::find_if(ref.begin(), ref.end(), [&](auto &kv) { return !lt(kv.first, q); });
    auto hi = std::find_if(ref.begin(), ref.end(), [&](auto &kv) { return lt(q, kv.first); });
    cmpbound(m->lower_bound(q), m->end(), lo, "lower_bound");
    cmpbound(m->upper_bound(q), m->end(), hi, "upper_bound");
    cmpbound(cm.lower_bound(q), cm.cend(), lo, "const lower_bound");
    cmpbound(cm.upper_bound(q), cm.cend(), hi, "const upper_bound");
    // the half-open range [lower_bound, upper_bound) holds exactly the equal/covered entries
    auto a = m->lower_bound(q); auto b = m->upper_bound(q);
    auto ra = lo; size_t guard = 0;
    if (lo == ref.end() || (hi != ref.end() && lt(hi->first, lo->first))) return; // partial key below all its extensions
    for (; a != b && guard <= ref.size(); ++a, ++ra, ++guard) {
      CHECK(ra != hi, "bound-range", "[lower_bound, upper_bound) holds too many entries");
      CHECK(a->first == ra->first, "bound-range", "[lower_bound, upper_bound) visits a wrong entry");
    }
    CHECK(ra == hi, "bound-range", "[lower_bound, upper_bound) holds too few entries");
  }
  void check_bounds() {
    int n = (int)std::min<uint64_t>(D, 60);
    for (int i = 0; i < n; i++) bounds_of(key(n == (int)D ? i : rng.below(D)));
    for (int i = 0; i < 20; i++) bounds_of(KeyOf<K>::probe(rng));
    if constexpr (std::is_same_v<K, CK3>) {
      for (int i = 0; i < 25; i++) {
        CK3 k = rng.chance(1, 2) ? key(rng.below(D)) : KeyOf<K>::probe(rng);
        bounds_of(bt::compound_key<int>{std::get<0>(k)});
        bounds_of(bt::compound_key<int, int>{std::get<0>(k), std::get<1>(k)});
        c_partial += 2;
      }
    }
    if constexpr (std::is_same_v<K, CKS>) {
      for (int i = -1; i < 8; i++) { bounds_of(bt::compound_key<int>{i}); c_partial++; }
    }
    if constexpr (std::is_same_v<K, CKG>) {
      for (int i = -3; i < 41; i += 1 + (int)rng.below(6)) { bounds_of(bt::compound_key_greater<int>{i}); c_partial++; }
    }
    c_full++;
  }
  void check_shape() {
    auto &st = m->stats();
    CHECK(m->height() >= 0 && m->height() < 64, "height", "height() is %d", m->height());
    if constexpr (dumpable) {
      std::ostringstream os;
      budget(50000000);
      m->dump(os);
      c_dump++;
      Shape sh(os.str());
      if (inserts == 0) return;
      std::vector<int64_t> ks;
      for (auto &kv : ref) ks.push_back((int64_t)kv.first);
      sh.check(m->height(), ks);
      largest = std::max(largest, sh.max_leaf());
      sh.check_stats(m->height(), st);
      seen(sh.hash);
      if (!erased_any) { // insert-only: every non-root node at least about half full, so the height is logarithmic
        double cl = (double)(T::NODE_SIZE - 256) / (sizeof(std::pair<K, V>) + 4) / 2 - 1;
        double ci = (double)(T::NODE_SIZE - 256) / (sizeof(std::pair<K, void *>) + 4) / 2 - 1;
        if (cl >= 2 && ci >= 2 && m->height() > 0) {
          double need = 2 * cl;
          for (int l = 1; l < m->height(); l++) need *= ci;
          CHECK((double)ref.size() + 1 >= need, "height", "height() is %d with only %zu entries inserted", m->height(), ref.size());
        }
      }
    }
  }
  void oracle() {
    switch (mode) {
    case DICT: check_dict(); break;
    case ITER: check_iter(); break;
    case BOUNDS: check_bounds(); break;
    case LIFE: if (rng.chance(1, 3)) check_iter(); break;
    case SHAPE: check_shape(); break;
    }
    auto &st = m->stats();
    seen(mix64(ref.size() * 1000003 + st.num_leaf_splits * 10007 + st.num_leaf_merges * 101 + st.num_leaf_trims * 13 + st.num_inner_splits * 7 + st.num_inner_merges * 5 + st.num_inner_trims));
  }

  // ------------------------------------------------------------ workload
  std::vector<uint64_t> sorted_idx() {
    std::vector<uint64_t> v(D);
    for (uint64_t i = 0; i < D; i++) v[i] = i;
    std::vector<K> ks;
    for (uint64_t i = 0; i < D; i++) ks.push_back(key(i));
    std::sort(v.begin(), v.end(), [&](uint64_t a, uint64_t b) { return lt(ks[a], ks[b]); });
    return v;
  }
  void step_oracle(int &countdown) {
    if (--countdown <= 0) {
      oracle();
      countdown = mode == DICT || mode == LIFE ? 1 + (int)rng.below(2 * D + 40) : 1 + (int)rng.below(D / 2 + 20);
    }
  }
  void run(uint64_t maxops) {
    auto idx = sorted_idx();
    uint64_t done = 0;
    int cd = 5;
    if (mode == ITER || mode == BOUNDS || mode == DICT) oracle(); // never-touched map
    while (done < maxops) {
      int ph = (int)rng.below(11);
      uint64_t len = 1 + rng.below(D + 10);
      op("phase %d len %" PRIu64 " D=%" PRIu64 " style=%d", ph, len, D, style);
      auto tick = [&] { done++; step_oracle(cd); };
      switch (ph) {
      case 0: for (uint64_t i = 0; i < D; i++) { put(idx[i]); tick(); } break;
      case 1: for (uint64_t i = D; i-- > 0;) { put(idx[i]); tick(); } break;
      case 2: for (uint64_t i = 0; i < len && i < D; i++) { del(idx[i]); tick(); } break;
      case 3: for (uint64_t i = 0; i < len && i < D; i++) { del(idx[D - 1 - i]); tick(); } break;
      case 4: for (uint64_t i = 0; i < len; i++) { del(rng.below(D)); tick(); } break;
      case 5: for (uint64_t i = 0; i < len; i++) { put(rng.below(D)); tick(); } break;
      case 6: { // sliding window
        uint64_t w = 1 + rng.below(D);
        for (uint64_t i = 0; i < D; i++) { put(idx[i]); tick(); if (i >= w) { del(idx[i - w]); tick(); } }
        break; }
      case 7: { unsigned p = 1 + (unsigned)rng.below(9); // random mix
        for (uint64_t i = 0; i < 2 * len; i++) { if (rng.chance(p, 10)) put(rng.below(D)); else del(rng.below(D)); tick(); }
        break; }
      case 8: { // drop a contiguous range, then refill some of it
        uint64_t a = rng.below(D), b = std::min(D, a + len);
        for (uint64_t i = a; i < b; i++) { del(idx[i]); tick(); }
        oracle();
        for (uint64_t i = a; i < b; i++) if (rng.chance(1, 3)) { put(idx[i]); tick(); }
        break; }
      case 9: for (uint64_t i = 0; i < len; i++) { if (rng.chance(1, 2)) get(rng.below(D)); else set_via_iterator(rng.below(D)); done++; } break;
      case 10: if (rng.chance(1, 3)) { // erase everything, in some order
          auto ord = idx;
          if (rng.chance(1, 2)) for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[rng.below(i)]);
          else if (rng.chance(1, 2)) std::reverse(ord.begin(), ord.end());
          for (uint64_t i : ord) { del(i); tick(); }
          oracle();
        } break;
      }
    }
    oracle();
    auto &st = m->stats();
    c_split += st.num_leaf_splits + st.num_inner_splits;
    c_merge += st.num_leaf_merges + st.num_inner_merges;
    c_trim += st.num_leaf_trims + st.num_inner_trims;
    if ((uint64_t)m->height() > c_maxh.v) c_maxh.v = m->height();
    c_cases++;
  }
};

template <class K, class V, class T, class C = std::less<K>> void one(const char *name, uint64_t seed, uint64_t maxops) {
  G().config = name;
  // settle lazily allocated state
  size_t h0 = 0;
  live() = Live();
  {
    Runner<K, V, T, C> r(seed);
    r.run(maxops);
    if (mode == LIFE) {
      G().phase = "balance";
      size_t nref = r.ref.size();
      r.ref.clear();
      bool tk = std::is_same_v<K, Tracked>, tv = std::is_same_v<V, Tracked>;
      (void)tk;
      if (tv && !tk) CHECK((uint64_t)live().alive == nref, "lifetime-count", "%" PRId64 " values are alive for %zu entries", live().alive, nref);
      (void)h0;
      no_budget();
      r.m.reset();
      CHECK(live().alive == 0, "lifetime-count", "%" PRId64 " stored objects outlive the map", live().alive);
      CHECK(live().made == live().destroyed, "lifetime-count", "%" PRIu64 " objects constructed, %" PRIu64 " destroyed", live().made, live().destroyed);
      G().phase = "run";
    }
  }
}

// allocation balance: everything a map allocates is released when it goes away
template <class K, class V, class T, class C = std::less<K>> void balance(const char *name, uint64_t seed) {
  G().config = name;
  one<K, V, T, C>(name, seed, 50); // warm-up of lazily allocated harness state
  size_t before = heap_bytes(), d0 = distinct().size();
  {
    Rng rng(seed);
    bt::map<K, V, T, C> m;
    uint64_t D = 1 + rng.below(400), n = 20 + rng.below(1500);
    int style = (int)rng.below(12), bias = 1 + (int)rng.below(9);
    for (uint64_t i = 0; i < n; i++) {
      uint64_t j = rng.below(D);
      budget(2000000);
      if (rng.chance(bias, 10)) m[KeyOf<K>::mk(j, style)] = ValOf<V>::mk(i);
      else m.erase(KeyOf<K>::mk(j, style));
    }
    if (rng.chance(1, 3)) for (uint64_t j = 0; j < D; j++) m.erase(KeyOf<K>::mk(j, style));
  }
  size_t after = heap_bytes();
  (void)d0;
  CHECK(after == before, "leak", "%zd bytes are still allocated after the map was destroyed", (ssize_t)(after - before));
  c_heap++;
}

// space: erasing everything gives most of the memory back
template <class K, class V, class T> void space(const char *name, uint64_t seed) {
  G().config = name;
  Rng rng(seed);
  uint64_t n = 3000 + rng.below(3000);
  std::vector<uint64_t> ord(n);
  for (uint64_t i = 0; i < n; i++) ord[i] = i;
  auto shuffle = [&] {
    int how = (int)rng.below(3);
    if (how == 0) std::sort(ord.begin(), ord.end());
    else if (how == 1) std::sort(ord.begin(), ord.end(), std::greater<uint64_t>());
    else for (size_t i = n; i > 1; i--) std::swap(ord[i - 1], ord[rng.below(i)]);
  };
  shuffle();
  size_t before = heap_bytes();
  bt::map<K, V, T> m;
  for (uint64_t i : ord) { budget(2000000); m[(K)i] = (V)i; }
  size_t peak = heap_bytes() - before;
  shuffle();
  for (uint64_t i : ord) { budget(2000000); m.erase((K)i); }
  size_t rest = heap_bytes() - before;
  op("space: n=%" PRIu64 " peak=%zu rest=%zu", n, peak, rest);
  static Ctr w("worst_space_left_permille");
  uint64_t pm = rest * 1000 / peak;
  if (pm > w.v) w.v = pm;
  CHECK(m.size() == 0, "size-mismatch", "size() is %zu after erasing every key", m.size());
  CHECK(rest * 2 < peak, "space", "%zu of %zu bytes are still in use after erasing all %" PRIu64 " entries", rest, peak, n);
}

template <class K, class V, class T, class C = std::less<K>> void dispatch(const char *name, uint64_t seed, uint64_t maxops) {
  one<K, V, T, C>(name, seed, maxops);
  if (mode == LIFE) balance<K, V, T, C>(name, seed + 1);
  if constexpr (std::is_same_v<C, std::less<K>> && std::is_integral_v<K> && sizeof(K) > 1 && sizeof(K) <= 8 && std::is_integral_v<V>)
    if (mode == SHAPE && G().case_no % 4 == 0) space<K, V, T>(name, seed + 2);
}

int main(int argc, char **argv) {
  Args a = parse(argc, argv, "btree_seq");
  std::string ms = a.str("mode", "dict");
  mode = ms == "dict" ? DICT : ms == "iter" ? ITER : ms == "bounds" ? BOUNDS : ms == "life" ? LIFE : SHAPE;
  uint64_t cases = a.num("cases", 100), maxops = a.num("ops", 800), from = a.num("from", 0);
  G().phase = "run";
  for (uint64_t c = from; c < from + cases; c++) {
    G().case_no = c;
    uint64_t s = mix64(G().seed * 1000003 + c);
    // the configurations are spread over separately compiled parts (build time)
#if PART == 0
    switch (c % 3) {
    case 0: dispatch<int, int, Tr<128, 50, true>>("int-int-128-50", s, maxops); break;
    case 1: dispatch<std::string, int, Tr<448, 80, true>>("str-int-448-80", s, maxops); break;
    case 2: dispatch<Tracked, Tracked, Tr<512, 50, true>>("trk-trk-512-50", s, maxops); break;
    }
#elif PART == 1
    switch (c % 3) {
    case 0: dispatch<int, int, Tr<192, 80, true>>("int-int-192-80", s, maxops); break;
    case 1: dispatch<std::string, std::string, Tr<640, 40, false>>("str-str-640-40", s, maxops); break;
    case 2: dispatch<int, Tracked, Tr<256, 70, false>>("int-trk-256-70", s, maxops); break;
    }
#elif PART == 2
    switch (c % 4) {
    case 0: dispatch<int64_t, uint64_t, Tr<512, 20, false>>("i64-u64-512-20", s, maxops); break;
    case 1: dispatch<CK3, int, Tr<192, 60, true>>("ck3-int-192-60", s, maxops); break;
    case 2: dispatch<uint8_t, uint8_t, Tr<128, 95, true>>("u8-u8-128-95", s, maxops); break;
    case 3: dispatch<CKG, int, Tr<256, 50, true>>("ckg-int-256-50", s, maxops); break;
    }
#else
    switch (c % 5) {
    case 0: dispatch<CKS, uint64_t, Tr<512, 30, false>>("cks-u64-512-30", s, maxops); break;
    case 1: dispatch<int, int, Tr<1024, 35, true>>("int-int-1024-35", s, maxops); break;
    case 2: dispatch<int64_t, std::string, Tr<384, 1, true>>("i64-str-384-1", s, maxops); break;
    case 3: dispatch<I128, int, Tr<384, 50, true>>("i128-int-384-50", s, maxops); break;
    case 4: dispatch<int, int, Tr<192, 50, true>, std::greater<int>>("int-int-192-50-greater", s, maxops); break;
    }
#endif
  }
  finish();
}
