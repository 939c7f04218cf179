// Key material for the hash map monitors: hash functions from perfect to hostile, selected per case.
#pragma once
#include "common.h"
namespace ht {
// std::hash-like functors may return any word at all, also one that a mixing step turns into a word the table keeps for itself
inline uint64_t unmix(uint64_t x) { x ^= x >> 32; uint64_t c = 0x9e3779b97f4a7c15ull, i = c; for (int n = 0; n < 6; n++) i *= 2 - c * i; x *= i; return x ^ x >> 32; }
inline int &hash_kind() { static int k; return k; }
inline size_t shape_hash(uint64_t k) {
  switch (hash_kind()) {
  case 0: return k;                                         // what std::hash does to integers
  case 1: return vh::mix64(k);
  case 2: return k % 3;                                     // three long chains
  case 3: return k << 32;                                   // nothing in the low bits
  case 4: return (k & 3) == 0 ? ~0ull : (k & 3) == 1 ? ~0ull - 1 : (k & 3) == 2 ? 0 : ~0ull - 2; // the reserved values
  case 7: return unmix(~0ull - (k & 3));                     // the same after the bits were mixed
  case 5: return k / 8;                                     // small groups of equal hashes side by side
  default: return 42;
  }
}
struct Hash {
  size_t operator()(uint64_t k) const { return shape_hash(k); }
  size_t operator()(const std::string &s) const { return shape_hash(strtoull(s.c_str() + s.size() - std::min<size_t>(s.size(), 20), nullptr, 10)); }
  size_t operator()(const vh::Tracked &t) const { return shape_hash((uint64_t)t.get()); }
};
// distinct keys: runs, strides, powers of two, random words, and single far keys on top of runs
inline void add_keys(vh::Rng &r, std::vector<uint64_t> &out, size_t want) {
  std::unordered_set<uint64_t> have(out.begin(), out.end());
  auto add = [&](uint64_t k) { if (out.size() < want && have.insert(k).second) out.push_back(k); };
  while (out.size() < want) {
    size_t n = 1 + r.below(want);
    uint64_t base = r.chance(1, 2) ? 0 : r.next() >> r.below(60);
    switch (r.below(5)) {
    case 0: for (size_t i = 0; i < n; i++) add(base + i); break;
    case 1: { uint64_t st = 1ull << r.below(20); for (size_t i = 0; i < n; i++) add(base + i * st); break; }
    case 2: for (size_t i = 0; i < n; i++) add(r.next()); break;
    case 3: for (size_t i = 0; i < 64 && i < n; i++) add(base ^ (1ull << i)); break;
    default: for (size_t i = 0; i < n; i++) add((uint64_t)i + (r.chance(1, 8) ? 1ull << (8 + r.below(55)) : 0)); break;
    }
  }
}
} // namespace ht
