// Monitor for compound keys (include/indexes/btree/key.h): every comparison the real keys make is
// checked against a reference order computed element by element, for keys of equal and unequal
// length, both orders, and containers that sort by them.
#include "common.h"
#include <algorithm>
#include <functional>
#include <limits>
#include <map>
#include <string>
#include <tuple>
#include "indexes/btree/key.h"
using namespace vh;
namespace bt = indexes::btree;

static Ctr c_cmp("comparisons"), c_mixed("partial_comparisons"), c_equal("equal_pairs"), c_sort("sorted_sequences"), c_look("container_lookups"), c_cases("cases");

// an element type with nothing but < and ==; it counts the instances alive
struct Elem {
  Tracked t;
  explicit Elem(int64_t v = 0) : t(v) {}
  friend bool operator<(const Elem &a, const Elem &b) { return a.t < b.t; }
  friend bool operator==(const Elem &a, const Elem &b) { return a.t == b.t; }
};

// ---------------------------------------------------------------- reference order
template <class T> struct is_key : std::false_type {};
template <int O, class... T> struct is_key<bt::detail::compound_key<O, T...>> : std::true_type {};
template <class A, class B> int ref(const A &a, const B &b);
template <size_t I, int O, class... A, class... B> int ref_from(const bt::detail::compound_key<O, A...> &a, const bt::detail::compound_key<O, B...> &b) {
  if constexpr (I == sizeof...(A) && I == sizeof...(B)) return 0;
  else if constexpr (I == sizeof...(A)) return -1; // a key that gives only the leading columns comes first
  else if constexpr (I == sizeof...(B)) return 1;
  else {
    int c = ref(std::get<I>(a), std::get<I>(b));
    if (c) return O == bt::detail::GREATER ? -c : c;
    return ref_from<I + 1>(a, b);
  }
}
template <class A, class B> int ref(const A &a, const B &b) {
  if constexpr (is_key<A>::value) return ref_from<0>(a, b);
  else return a < b ? -1 : b < a ? 1 : 0;
}

// ---------------------------------------------------------------- element values: few, and extremes
template <class T> T val(Rng &r) {
  if constexpr (std::is_same_v<T, Elem>) return Elem(r.range(-2, 2));
  else if constexpr (std::is_same_v<T, std::string>) {
    static const char *const s[] = {"", "a", "b", "aa", "ab", "a string that is too long for the small buffer", "a string that is too long for the small buffer!", "\xff", "\x01"};
    std::string x = s[r.below(9)];
    if (r.chance(1, 8)) x.push_back('\0');
    return x;
  } else if constexpr (std::is_same_v<T, bool>) return r.chance(1, 2);
  else if constexpr (std::is_floating_point_v<T>) {
    static const double d[] = {0.0, -0.0, 1.5, -1.5, 1e300, -1e300, 5e-324};
    return r.chance(1, 12) ? (r.chance(1, 2) ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity()) : (T)d[r.below(7)];
  } else {
    switch (r.below(8)) {
    case 0: return std::numeric_limits<T>::max();
    case 1: return std::numeric_limits<T>::min();
    case 2: return (T)(std::numeric_limits<T>::max() / 2 + 1);
    default: return (T)r.below(4);
    }
  }
}
template <class K> struct Make;
template <int O, class... T> struct Make<bt::detail::compound_key<O, T...>> {
  using K = bt::detail::compound_key<O, T...>;
  static K one(Rng &r) {
    if (r.chance(1, 4)) { // through assignment
      K k{mk<T>(r)...};
      K o{mk<T>(r)...};
      std::tuple<T...> t{mk<T>(r)...};
      o = t;
      CHECK(static_cast<const std::tuple<T...> &>(o) == t, "key-assign", "a key assigned from a tuple holds other values");
      k = o;
      CHECK(k == o && !(k < o) && !(o < k), "key-assign", "a key differs from the key assigned to it");
      return k;
    }
    return K{mk<T>(r)...};
  }
  template <class U> static U mk(Rng &r) {
    if constexpr (is_key<U>::value) return Make<U>::one(r);
    else return val<U>(r);
  }
};

template <class... Ks> struct Family {
  // every key type of the family is a longer or shorter version of the others
  static void run(Rng &r) {
    int n = 2 + (int)r.below(14);
    std::tuple<std::vector<Ks>...> v;
    (fill(std::get<std::vector<Ks>>(v), r, n), ...);
    (row(std::get<std::vector<Ks>>(v), v), ...);
    (sorted(std::get<std::vector<Ks>>(v)), ...);
    seen(mix64(r.s));
  }
  template <class K> static void fill(std::vector<K> &v, Rng &r, int n) {
    for (int i = 0; i < n; i++) v.push_back(!v.empty() && r.chance(1, 5) ? v[r.below(v.size())] : Make<K>::one(r));
  }
  template <class K, class V> static void row(std::vector<K> &a, V &v) {
    (cross(a, std::get<std::vector<Ks>>(v)), ...);
  }
  template <class K, class L> static void cross(std::vector<K> &a, std::vector<L> &b) {
    for (auto &x : a) for (auto &y : b) { op("pair"); check2(x, y); }
  }
  template <int O, class... A, class... B> static void check2(const bt::detail::compound_key<O, A...> &x, const bt::detail::compound_key<O, B...> &y) {
    int c = ref(x, y);
    one(x < y, c < 0, "<", c); one(x > y, c > 0, ">", c); one(x <= y, c <= 0, "<=", c);
    one(x >= y, c >= 0, ">=", c); one(x == y, c == 0, "==", c); one(x != y, c != 0, "!=", c);
    one(std::less<>()(x, y), c < 0, "std::less", c); one(std::equal_to<>()(x, y), c == 0, "std::equal_to", c);
    if (sizeof...(A) != sizeof...(B)) c_mixed++;
    else if (c == 0) c_equal++;
  }
  static void one(bool got, bool want, const char *o, int c) {
    CHECK(got == want, "key-order", "%s is %s for keys of which the first is %s", o, got ? "true" : "false", c < 0 ? "less" : c > 0 ? "greater" : "equal");
    c_cmp++;
  }
  template <class K> static void sorted(std::vector<K> &v) {
    op("sort");
    std::vector<K> s = v, t = v;
    std::sort(s.begin(), s.end());
    std::sort(t.begin(), t.end(), [](const K &a, const K &b) { return ref(a, b) < 0; });
    for (size_t i = 0; i < s.size(); i++) CHECK(ref(s[i], t[i]) == 0, "key-sort", "sorting by the keys' order gives another sequence");
    c_sort++;
    std::map<K, int> m;
    for (auto &k : v) m[k]++;
    for (auto &k : v) {
      int want = (int)std::count_if(v.begin(), v.end(), [&](const K &x) { return ref(x, k) == 0; });
      auto i = m.find(k);
      CHECK(i != m.end() && i->second == want, "key-container", "a sorted container finds a stored key %d times, expected %d", i == m.end() ? 0 : i->second, want);
      c_look++;
    }
  }
};
using bt::compound_key; using bt::compound_key_greater;
int main(int argc, char **argv) {
  Args a = parse(argc, argv, "key_mon");
  uint64_t cases = a.num("cases", 100), only = a.num("only", ~0ull);
  using S = std::string;
  for (uint64_t i = 0; i < cases; i++) {
    if (only != ~0ull && i != only) continue;
    G().case_no = i;
    G().phase = "compare";
    Rng r(mix64(G().seed) ^ mix64(i + 5));
    budget(2000000000ull);
    int64_t alive = live().alive;
    switch (i % 13) {
#define F(n, name, ...) case n: G().config = name; Family<__VA_ARGS__>::run(r); break
    F(0, "int*4 ascending", compound_key<int>, compound_key<int, int>, compound_key<int, int, int>, compound_key<int, int, int, int>);
    F(1, "int*4 descending", compound_key_greater<int>, compound_key_greater<int, int>, compound_key_greater<int, int, int>, compound_key_greater<int, int, int, int>);
    F(2, "string,int ascending", compound_key<S>, compound_key<S, int>, compound_key<S, int, S>);
    F(3, "string,int descending", compound_key_greater<S>, compound_key_greater<S, int>, compound_key_greater<S, int, S>);
    F(4, "i8,string,double ascending", compound_key<int8_t>, compound_key<int8_t, S>, compound_key<int8_t, S, double>);
    F(5, "double,bool,u64 descending", compound_key_greater<double>, compound_key_greater<double, bool>, compound_key_greater<double, bool, uint64_t>);
    F(6, "u64,i64 ascending", compound_key<uint64_t>, compound_key<uint64_t, int64_t>);
    F(7, "own type ascending", compound_key<Elem>, compound_key<Elem, Elem>, compound_key<Elem, Elem, Elem>);
    F(8, "own type descending", compound_key_greater<Elem>, compound_key_greater<Elem, Elem>);
    F(9, "nested ascending", compound_key<compound_key<int, int>>, compound_key<compound_key<int, int>, S>, compound_key<compound_key<int, int>, S, uint8_t>);
    F(10, "descending in ascending", compound_key<compound_key_greater<int, S>>, compound_key<compound_key_greater<int, S>, compound_key_greater<int>>);
    F(12, "five columns descending", compound_key_greater<int, int, uint8_t>, compound_key_greater<int, int, uint8_t, S, uint8_t>);
    F(11, "five columns", compound_key<int, S, int>, compound_key<int, S, int, Elem>, compound_key<int, S, int, Elem, int64_t>);
    }
    CHECK(live().alive == alive, "lifetime-count", "%" PRId64 " elements outlive their keys", live().alive - alive);
    c_cases++;
  }
  finish();
}
