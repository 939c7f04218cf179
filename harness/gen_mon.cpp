// Monitors for the benchmark's request generators (src/benchmark/utils).
// PART 0: the generators draw from their own random engines.
// PART 1: the engine behind utils::RandomDouble is replaced by one that yields extreme and chosen
//         values (fault injection), so the ends of the unit interval are reached.
// PART 2: shared by real threads (ThreadSanitizer build).
#include "common.h"
#include <algorithm>
#include <cmath>
#include <random>
#include <string>
#include <thread>
#if PART == 1
namespace std {
struct vh_engine {
  using result_type = uint64_t;
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return ~0ull; }
  vh_engine() {}
  explicit vh_engine(uint64_t) {}
  static uint64_t &pos() { static uint64_t p = 1; return p; }
  static uint64_t &fixed() { static uint64_t p = 0; return p; }
  static bool &use_fixed() { static bool b = false; return b; }
  result_type operator()() {
    if (use_fixed()) return fixed();
    uint64_t z = vh::mix64(pos()++);
    switch (z % 8) {
    case 0: return ~0ull - (z >> 3) % 4096;
    case 1: return ~0ull;
    case 2: return (z >> 3) % 4096;
    case 3: return 0;
    case 4: return ~0ull << ((z >> 3) % 64);
    default: return vh::mix64(z);
    }
  }
};
} // namespace std
#define default_random_engine vh_engine
#endif
#include "utils/const_generator.h"
#include "utils/counter_generator.h"
#include "utils/discrete_generator.h"
#include "utils/scrambled_zipfian_generator.h"
#include "utils/skewed_latest_generator.h"
#include "utils/uniform_generator.h"
#include "utils/zipfian_generator.h"
using namespace vh;
using namespace ycsbc;

static uint64_t pick_min(Rng &r) {
  switch (r.below(5)) {
  case 0: return 0;
  case 1: return 1;
  case 2: return r.below(100);
  case 3: return r.below(1ull << 32);
  default: return r.below(1ull << 40);
  }
}
static uint64_t pick_n(Rng &r, uint64_t cap) {
  switch (r.below(6)) {
  case 0: return 1;
  case 1: return 2;
  case 2: return 3;
  case 3: return 2 + r.below(10);
  case 4: return 2 + r.below(200);
  default: return 1 + r.below(cap);
  }
}
static double pick_theta(Rng &r) { static const double t[] = {0.99, 0.99, 0.5, 0.8, 0.9, 0.1, 0.3, 0.7}; return t[r.below(8)]; }

static void in_range(const char *g, uint64_t v, uint64_t lo, uint64_t hi, const char *sig = "range") {
  static Ctr c("range_checks");
  c++;
  CHECK(v >= lo && v <= hi, sig, "%s produced %" PRIu64 " outside [%" PRIu64 ", %" PRIu64 "]", g, v, lo, hi);
}
// Listed findings of ZipfianGenerator: the two most popular items come without the base, and rounding (or an
// eta computed for fewer items) gives the item one past the end.
static uint64_t zipf_item(const char *g, uint64_t v, uint64_t lo, uint64_t n) {
  static Ctr c("range_checks");
  if (v >= lo && v - lo < n) { c++; return v - lo; }
  if (v < 2 && lo > 0 && v < n && known("zipf-base")) { c++; return v; }
  if (v == lo + n && known("zipf-end")) { c++; return n - 1; }
  in_range(g, v, lo, lo + n - 1);
  return 0;
}
static uint64_t zmin = 1; // 3 while fewer items end in an assertion or a division by zero (listed finding)
static uint64_t zipf_min() { return zmin; }
static bool discrete_dies = false;
static Ctr draws("draws"), lasts("last_checks"), resizes("resized_draws");

static void range_case(Rng &r) {
  uint64_t lo = pick_min(r);
  int kind = (int)r.below(7);
  switch (kind) {
  case 0: {
    uint64_t n = r.chance(1, 6) ? ~0ull : pick_n(r, 1ull << 40);
    uint64_t hi = lo + n - 1 < lo ? ~0ull : lo + n - 1;
    G().config = "uniform";
    op("uniform min=%" PRIu64 " max=%" PRIu64, lo, hi);
    UniformGenerator g(lo, hi);
    in_range("UniformGenerator (first)", g.Last(), lo, hi);
    for (int i = 0; i < 60; i++, draws++) {
      bool u = r.chance(1, 4);
      uint64_t v = u ? g.NextUnlocked() : g.Next();
      in_range("UniformGenerator", v, lo, hi);
      uint64_t l = r.chance(1, 2) ? g.Last() : g.LastUnlocked();
      lasts++;
      CHECK(l == v, "last", "UniformGenerator: Last()=%" PRIu64 " after drawing %" PRIu64, l, v);
    }
    break;
  }
  case 1: case 2: {
    uint64_t n = std::max(pick_n(r, 3000), zipf_min());
    double th = pick_theta(r);
    G().config = "zipfian";
    op("zipfian min=%" PRIu64 " n=%" PRIu64 " theta=%g", lo, n, th);
    bool simple = r.chance(1, 5);
    if (simple) { lo = 0; }
    ZipfianGenerator *g = simple ? new ZipfianGenerator(n) : new ZipfianGenerator(lo, lo + n - 1, th);
    zipf_item("ZipfianGenerator (first)", g->Last(), lo, n);
    uint64_t cur = n;
    for (int i = 0; i < 80; i++, draws++) {
      uint64_t v, hi = lo + n - 1;
      switch (r.below(4)) {
      case 0: v = g->Next(); break;
      case 1: v = g->NextUnlocked(); break;
      default: {
        if (r.chance(1, 4)) cur = r.chance(1, 2) ? cur + r.below(50) : std::max(pick_n(r, 4000), zipf_min());
        if (kind == 1) cur = n;
        op("Next(%" PRIu64 ")", cur);
        v = r.chance(1, 2) ? g->Next(cur) : g->NextUnlocked(cur);
        hi = lo + cur - 1;
        resizes++;
      }
      }
      zipf_item("ZipfianGenerator", v, lo, hi - lo + 1);
      uint64_t l = r.chance(1, 2) ? g->Last() : g->LastUnlocked();
      lasts++;
      CHECK(l == v, "last", "ZipfianGenerator: Last()=%" PRIu64 " after drawing %" PRIu64, l, v);
    }
    delete g;
    break;
  }
  case 3: {
    uint64_t n = std::max(pick_n(r, 3000), zipf_min());
    G().config = "scrambled";
    op("scrambled min=%" PRIu64 " n=%" PRIu64, lo, n);
    bool simple = r.chance(1, 3);
    if (simple) lo = 0;
    ScrambledZipfianGenerator *g = simple ? new ScrambledZipfianGenerator(n) : new ScrambledZipfianGenerator(lo, lo + n - 1, pick_theta(r));
    in_range("ScrambledZipfianGenerator (first)", g->Last(), lo, lo + n - 1);
    for (int i = 0; i < 60; i++, draws++) {
      uint64_t v = g->Next();
      in_range("ScrambledZipfianGenerator", v, lo, lo + n - 1);
      lasts++;
      uint64_t l = g->Last();
      CHECK(l == v, "last", "ScrambledZipfianGenerator: Last()=%" PRIu64 " after drawing %" PRIu64, l, v);
    }
    delete g;
    break;
  }
  case 4: {
    uint64_t n = pick_n(r, 2000);
    G().config = "latest";
    op("latest over counter at %" PRIu64, n);
    CounterGenerator c(3);
    if (r.chance(1, 2)) c.Set(zmin > 1 ? n + 4 : n); else if (zmin > 1) c.Set(4);
    SkewedLatestGenerator g(c);
    in_range("SkewedLatestGenerator (first)", g.Last(), 0, c.Last());
    for (int i = 0; i < 60; i++, draws++) {
      if (r.chance(1, 3)) for (uint64_t k = r.below(r.chance(1, 8) ? 200 : 3); k--;) c.Next();
      uint64_t v = g.Next();
      in_range("SkewedLatestGenerator", v, 0, c.Last());
      lasts++;
      CHECK(g.Last() == v, "last", "SkewedLatestGenerator: Last() differs from the value drawn");
    }
    break;
  }
  case 5: {
    G().config = "counter/const";
    uint64_t s = pick_min(r);
    CounterGenerator c(s);
    uint64_t expect = s;
    for (int i = 0; i < 60; i++, draws++) {
      if (r.chance(1, 10)) { expect = pick_min(r); c.Set(expect); }
      uint64_t v = c.Next();
      CHECK(v == expect, "counter", "CounterGenerator gave %" PRIu64 ", expected %" PRIu64, v, expect);
      expect++;
      for (int k = 0; k < 2; k++) { lasts++; CHECK(c.Last() == v, "last", "CounterGenerator: Last() differs from the value drawn"); }
    }
    int k = (int)r.below(1u << 31);
    ConstGenerator g(k);
    for (int i = 0; i < 5; i++) CHECK(g.Next() == (uint64_t)k && g.Last() == (uint64_t)k, "const", "ConstGenerator(%d) gave another value", k);
    break;
  }
  default: {
    if (discrete_dies) break;
    G().config = "discrete";
    DiscreteGenerator<uint32_t> g;
    std::set<uint32_t> vals;
    int n = 1 + (int)r.below(12);
    for (int i = 0; i < n; i++) {
      uint32_t v = 100 + (uint32_t)r.below(20);
      double w = r.chance(1, 3) ? 0.1 : r.chance(1, 2) ? (double)(1 + r.below(100)) / 7 : std::ldexp(1.0, (int)r.below(60) - 30);
      g.AddValue(v, w);
      vals.insert(v);
      op("AddValue(%u, %g)", v, w);
    }
    for (int i = 0; i < 60; i++, draws++) {
      uint32_t v = g.Next();
      CHECK(vals.count(v), "discrete", "DiscreteGenerator produced %u, which was never added", v);
      lasts++;
      CHECK(g.Last() == v, "last", "DiscreteGenerator: Last() differs from the value drawn");
    }
  }
  }
  seen(mix64(kind * 1000003ull + mix64(lo)));
  for (int i = 0; i < 10; i++) {
    double a = (double)r.range(-1000, 1000), b = a + 1 + (double)r.below(1000);
    double d = r.chance(1, 4) ? utils::RandomDouble() : utils::RandomDouble(a, b);
    (void)d;
    double e = utils::RandomDouble(a, b);
    static Ctr c("range_checks");
    c++;
    // listed finding: the bounds of the first call (0, 1) hold for ever
    CHECK((e >= a && e <= b) || (e >= 0 && e <= 1 && known("random-double-bounds")), "random-double", "RandomDouble(%g, %g) gave %.17g", a, b, e);
    double f = utils::RandomDouble();
    CHECK(f >= 0 && f < 1, "random-double", "RandomDouble() gave %.17g", f);
    char ch = utils::RandomPrintChar();
    CHECK(ch > ' ' && ch <= '~', "printable", "RandomPrintChar() gave the code %d", (int)ch);
  }
  if (r.chance(1, 4)) {
    int a = (int)r.range(-1000, 1000), b = a + (int)r.below(1000);
    size_t n = r.below(200);
    auto p = utils::generateRandomValues<int>(n, a, b);
    for (size_t i = 0; i < n; i++) CHECK(p[i] >= a && p[i] <= b, "range", "generateRandomValues gave %d outside [%d, %d]", p[i], a, b);
  }
}

// ------------------------------------------------------------------ distributions
static Ctr fits("distribution_checks");
static std::vector<double> zipf_cdf(uint64_t n, double th) {
  std::vector<double> c(n + 1, 0);
  for (uint64_t i = 1; i <= n; i++) c[i] = c[i - 1] + 1 / std::pow((double)i, th);
  for (uint64_t i = 1; i <= n; i++) c[i] /= c[n];
  return c;
}
static bool is_close(double got, double want, double n, double slack, double z = 7) {
  double sd = std::sqrt(std::max(want * (1 - want), 1.0 / n) / n);
  return std::fabs(got - want) <= slack + z * sd + 2e-4;
}
static void close(const char *what, double got, double want, double n, double slack, double z = 7) {
  fits++;
  double sd = std::sqrt(std::max(want * (1 - want), 1.0 / n) / n);
  CHECK(std::fabs(got - want) <= slack + z * sd + 2e-4, "distribution", "%s: observed share %.5f, expected %.5f (%.0f draws, tolerance %.5f)", what, got, want, n, slack + z * sd + 2e-4);
}
// cnt[i] = how often the i-th most popular item was drawn
static void check_zipf(const char *what, const std::vector<uint64_t> &cnt, double th, bool grown = false) {
  uint64_t n = cnt.size(), tot = 0;
  for (auto c : cnt) tot += c;
  auto cdf = zipf_cdf(n, th);
  double acc = 0;
  char b[128];
  for (uint64_t k = 1; k <= n; k++) {
    acc += cnt[k - 1];
    snprintf(b, sizeof b, "%s n=%" PRIu64 " theta=%g: the %" PRIu64 " most popular items", what, n, th, k);
    // the generator's method is exact for the two most popular items and, for the others, within 1.8 percentage points
    double slack = k <= 2 || n <= 3 ? 0 : 0.0185;
    // listed finding: after items were added, the items from the third on follow the law of the first size
    if (grown && k > 2 && !is_close(acc / tot, cdf[k], (double)tot, slack) && known("zipf-grown")) continue;
    close(b, acc / tot, cdf[k], (double)tot, slack);
  }
}
static uint64_t fnv(uint64_t v) { // FNV-1a over the 8 little-endian bytes
  uint64_t h = 0xCBF29CE484222325ull;
  for (int i = 0; i < 8; i++, v >>= 8) { h ^= v & 0xff; h *= 0x100000001B3ull; }
  return h;
}
static void dist_case(Rng &r) {
  const int N = 60000;
  int kind = (int)r.below(6);
  uint64_t n = r.chance(1, 3) ? 1 + r.below(6) : r.chance(1, 2) ? 2 + r.below(60) : 2 + r.below(600), lo = pick_min(r);
  double th = pick_theta(r);
  if (kind >= 1 && kind <= 4) n = std::max(n, zipf_min() + 1);
  if (listed("zipf-base") && lo == 1) lo = 2; // the two kinds of value 1 could not be told apart
  std::vector<uint64_t> cnt(n, 0);
  char b[128];
  switch (kind) {
  case 0: {
    G().config = "uniform";
    op("uniform n=%" PRIu64, n);
    UniformGenerator g(lo, lo + n - 1);
    for (int i = 0; i < N; i++) { uint64_t v = g.Next(); in_range("UniformGenerator", v, lo, lo + n - 1); cnt[v - lo]++; }
    double acc = 0;
    for (uint64_t k = 0; k < n; k++) {
      acc += cnt[k];
      snprintf(b, sizeof b, "uniform n=%" PRIu64 ": values up to rank %" PRIu64, n, k + 1);
      close(b, acc / N, (double)(k + 1) / n, N, 0);
      snprintf(b, sizeof b, "uniform n=%" PRIu64 ": value %" PRIu64, n, k);
      close(b, (double)cnt[k] / N, 1.0 / n, N, 0);
    }
    break;
  }
  case 1: {
    G().config = "zipfian";
    op("zipfian min=%" PRIu64 " n=%" PRIu64 " theta=%g", lo, n, th);
    ZipfianGenerator g(lo, lo + n - 1, th);
    for (int i = 0; i < N; i++) cnt[zipf_item("ZipfianGenerator", g.Next(), lo, n)]++;
    check_zipf("zipfian", cnt, th);
    break;
  }
  case 2: { // grown after construction
    G().config = "zipfian-grown";
    uint64_t n0 = std::max(1 + r.below(n), zipf_min());
    op("zipfian min=%" PRIu64 " n0=%" PRIu64 " n=%" PRIu64 " theta=%g", lo, n0, n, th);
    ZipfianGenerator g(lo, lo + n0 - 1, th);
    for (uint64_t k = n0; k < n; k += 1 + r.below(n / 4 + 1)) g.Next(k);
    for (int i = 0; i < N; i++) cnt[zipf_item("ZipfianGenerator", g.Next(n), lo, n)]++;
    check_zipf("zipfian grown", cnt, th, n0 < n);
    break;
  }
  case 3: {
    G().config = "scrambled";
    op("scrambled min=%" PRIu64 " n=%" PRIu64 " theta=%g", lo, n, th);
    ScrambledZipfianGenerator g(lo, lo + n - 1, th);
    for (int i = 0; i < N; i++) { uint64_t v = g.Next(); in_range("ScrambledZipfianGenerator", v, lo, lo + n - 1); cnt[v - lo]++; }
    auto cdf = zipf_cdf(n, th);
    std::vector<double> expect(n, 0), slack(n, 0);
    auto law = [&](bool base) {
      std::fill(expect.begin(), expect.end(), 0);
      std::fill(slack.begin(), slack.end(), 0);
      for (uint64_t k = 0; k < n; k++) {
        // popularity is a rank drawn from [min, max], then hashed
        uint64_t at = fnv(base || k >= 2 ? lo + k : k) % n;
        double p = cdf[k + 1] - cdf[k];
        expect[at] += p;
        if (k >= 2 && n > 3) slack[at] += p * 0.2 + 0.001;
      }
      for (uint64_t k = 0; k < n; k++) if (!is_close((double)cnt[k] / N, expect[k], N, slack[k])) return false;
      return true;
    };
    // listed finding: the two most popular ranks come without the base
    if (!law(true) && !(lo > 0 && law(false) && known("zipf-base"))) law(true);
    for (uint64_t k = 0; k < n; k++) {
      snprintf(b, sizeof b, "scrambled n=%" PRIu64 " theta=%g: item %" PRIu64, n, th, k);
      close(b, (double)cnt[k] / N, expect[k], N, slack[k]);
    }
    break;
  }
  case 4: {
    G().config = "latest";
    op("latest n=%" PRIu64, n);
    CounterGenerator c(0);
    uint64_t n0 = std::max(1 + r.below(n), zipf_min() + 1);
    c.Set(n0);
    SkewedLatestGenerator g(c);
    while (c.Last() + 1 < n) c.Next();
    for (int i = 0; i < N; i++) { uint64_t v = g.Next(); in_range("SkewedLatestGenerator", v, 0, n - 1); cnt[n - 1 - v]++; }
    // listed finding: the oldest item is never drawn (the law of one item less), except by rounding
    bool skips = cnt[n - 1] * 20 * n < N && n < 200 && known("latest-oldest");
    if (skips) { cnt[n - 2] += cnt[n - 1]; cnt.pop_back(); }
    else if (n >= 200 && listed("latest-oldest")) cnt.pop_back();
    check_zipf("latest", cnt, 0.99, n0 < n);
    break;
  }
  default: {
    G().config = "discrete";
    DiscreteGenerator<uint32_t> g;
    int k = 1 + (int)r.below(8);
    std::vector<double> w(k);
    std::vector<uint64_t> c(k, 0);
    double sum = 0;
    for (int i = 0; i < k; i++) { w[i] = r.chance(1, 2) ? 0.05 * (1 + r.below(10)) : 1.0 + r.below(20); sum += w[i]; g.AddValue(i, w[i]); }
    op("discrete k=%d", k);
    for (int i = 0; i < N; i++) { uint32_t v = g.Next(); CHECK(v < (uint32_t)k, "discrete", "value %u was never added", v); c[v]++; }
    for (int i = 0; i < k; i++) {
      snprintf(b, sizeof b, "discrete: value %d of %d with weight %g of %g", i, k, w[i], sum);
      close(b, (double)c[i] / N, w[i] / sum, N, 0);
    }
  }
  }
  draws += N;
  seen(mix64(kind * 1000003ull + n * 31 + mix64(lo)));
}

#if PART == 2
// ------------------------------------------------------------------ shared by threads
static void conc_case(Rng &r) {
  int T = 2 + (int)r.below(5), N = 400;
  uint64_t start = pick_min(r), lo = pick_min(r), n = zipf_min() + 1 + r.below(200);
  CounterGenerator c(start), basis(3);
  uint64_t b0 = zipf_min() + 1 + r.below(50);
  basis.Set(b0);
  UniformGenerator u(lo, lo + n - 1);
  ZipfianGenerator z(lo, lo + n - 1);
  ScrambledZipfianGenerator s(lo, lo + n - 1);
  SkewedLatestGenerator l(basis);
  DiscreteGenerator<uint32_t> d;
  d.AddValue(1, 0.3); d.AddValue(2, 0.7);
  std::vector<std::vector<uint64_t>> got(T), bas(T);
  std::atomic<const char *> bad{nullptr};
  std::atomic<int> ready{0}, base{0}, end{0};
  std::vector<std::thread> ts;
  op("threads=%d n=%" PRIu64, T, n);
  for (int t = 0; t < T; t++)
    ts.emplace_back([&, t, seed = r.next()] {
      Rng q(seed);
      ready++;
      while (ready < T) ;
      auto zrng = [&](const char *w, uint64_t v, uint64_t a, uint64_t e) {
        if (v < 2 && a > 0 && listed("zipf-base")) base = 1;
        else if (v == e + 1 && listed("zipf-end")) end = 1;
        else if (v < a || v > e) bad = w;
      };
      auto rng = [&](const char *w, uint64_t v, uint64_t a, uint64_t e) { if (v < a || v > e) bad = w; };
      for (int i = 0; i < N; i++) {
        got[t].push_back(c.Next());
        uint64_t k = got[t].back();
        if (c.Last() < k) bad = "CounterGenerator::Last() behind a value already handed out";
        switch (q.below(8)) {
        case 0: rng("uniform", u.Next(), lo, lo + n - 1); break;
        case 1: rng("uniform Last", u.Last(), lo, lo + n - 1); break;
        case 2: zrng("zipfian", z.Next(), lo, lo + n - 1); break;
        case 3: { uint64_t m = n + q.below(40); zrng("zipfian grown", z.Next(m), lo, lo + m - 1); break; }
        case 4: zrng("zipfian Last", z.Last(), lo, lo + n + 40); break;
        case 5: rng("scrambled", s.Next(), lo, lo + n - 1); rng("scrambled Last", s.Last(), lo, lo + n - 1); break;
        case 6: {
          if (q.chance(1, 4)) bas[t].push_back(basis.Next());
          uint64_t v = l.Next();
          rng("latest", v, 0, basis.Last());
          rng("latest Last", l.Last(), 0, basis.Last());
          break;
        }
        default: { uint32_t v = d.Next(); if (v != 1 && v != 2) bad = "discrete"; v = d.Last(); if (v != 1 && v != 2) bad = "discrete Last"; char ch = utils::RandomPrintChar(); if (ch <= ' ' || ch > '~') bad = "RandomPrintChar"; }
        }
      }
    });
  for (auto &t : ts) t.join();
  if (base) known("zipf-base");
  if (end) known("zipf-end");
  if (bad) fail("range", "shared generator out of range: %s", bad.load());
  auto uniq = [&](std::vector<std::vector<uint64_t>> &g, uint64_t from, uint64_t last, const char *w) {
    std::vector<uint64_t> all;
    for (auto &v : g) { CHECK(std::is_sorted(v.begin(), v.end()), "counter", "%s: a thread saw its own numbers go backwards", w); all.insert(all.end(), v.begin(), v.end()); }
    std::sort(all.begin(), all.end());
    for (size_t i = 0; i < all.size(); i++)
      CHECK(all[i] == from + i, "counter", "%s: numbers handed out to %d threads are not exactly %" PRIu64 ".. (position %zu holds %" PRIu64 ")", w, T, from, i, all[i]);
    CHECK(last == from + all.size() - 1, "counter", "%s: Last()=%" PRIu64 " after %zu numbers from %" PRIu64, w, last, all.size(), from);
  };
  uniq(got, start, c.Last(), "CounterGenerator");
  uniq(bas, b0, basis.Last(), "basis CounterGenerator");
  draws += (uint64_t)T * N * 2;
  static Ctr rc("range_checks"), hc("handed_out_numbers");
  rc += (uint64_t)T * N;
  hc += (uint64_t)T * N;
  // how interleaved was it?
  static Ctr sw("thread_alternations");
  std::vector<std::pair<uint64_t, int>> o;
  for (int t = 0; t < T; t++) for (auto v : got[t]) o.push_back({v, t});
  std::sort(o.begin(), o.end());
  uint64_t h = 0;
  for (size_t i = 1; i < o.size(); i++) if (o[i].second != o[i - 1].second) { sw++; h = mix64(h ^ (i * 64 + o[i].second)); }
  seen(h);
}
#endif

int main(int argc, char **argv) {
  Args a = parse(argc, argv, "gen_mon");
  std::string mode = a.str("mode", "range");
  uint64_t cases = a.num("cases", 100), only = a.num("only", ~0ull);
  static Ctr cc("cases");
  if (dies([] { ZipfianGenerator g(1); for (int i = 0; i < 100; i++) in_range("", g.Next(), 0, 0); })) {
    CHECK(known("zipf-few-items"), "range", "a ZipfianGenerator over one item ends in an assertion, a sanitizer report or an item out of range");
    zmin = 3;
  }
#if PART == 1
  if (dies([] {
        for (int n = 1; n < 200; n++) {
          DiscreteGenerator<uint32_t> g;
          for (int i = 0; i < n; i++) g.AddValue(i, 0.1 * (1 + i % 7));
          for (int i = 0; i < 200; i++) g.Next();
        }
      })) {
    CHECK(known("discrete-end"), "discrete", "drawing from DiscreteGenerators of 1 to 199 values ends in an assertion or a sanitizer report");
    discrete_dies = true;
  }
#endif
  utils::RandomDouble(); // the first call of this thread
  for (uint64_t i = 0; i < cases; i++) {
    if (only != ~0ull && i != only) continue;
    G().case_no = i;
    G().phase = mode.c_str();
    Rng r(mix64(G().seed) ^ mix64(i + 77));
    budget(2000000000ull);
#if PART == 1
    std::vh_engine::pos() = mix64(r.next());
#endif
#if PART == 2
    conc_case(r);
#else
    if (mode == "range") range_case(r);
    else dist_case(r);
#endif
    cc++;
  }
  finish();
}
