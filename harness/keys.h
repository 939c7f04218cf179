// Key and value constructions shared by the B+Tree monitors.
#pragma once
#include "indexes/btree/key.h"
#include "common.h"
#include <ostream>
namespace bt = indexes::btree;
using namespace vh;
using CK3 = bt::compound_key<int, int, int>;
using CKS = bt::compound_key<int, std::string>;
using CKG = bt::compound_key_greater<int, int>;
using I128 = __int128;
namespace indexes::btree::detail {
inline std::ostream &operator<<(std::ostream &o, const CK3 &k) { return o << std::get<0>(k) << '.' << std::get<1>(k) << '.' << std::get<2>(k); }
inline std::ostream &operator<<(std::ostream &o, const CKG &k) { return o << std::get<0>(k) << '.' << std::get<1>(k); }
inline std::ostream &operator<<(std::ostream &o, const CKS &k) { return o << std::get<0>(k) << '.' << std::get<1>(k); }
}
namespace vh {
inline std::ostream &operator<<(std::ostream &o, const Tracked &t) { return o << t.get(); }
}

// ---- key construction: index i in [0, D) -> key; order need not follow i
template <class K> struct KeyOf;
template <> struct KeyOf<int> {
  static int mk(uint64_t i, int style) {
    switch (style % 4) {
    case 0: return (int)i;
    case 1: return (int)i * 7 - 5000;
    case 2: return (int)mix64(i);
    default: return i % 2 ? INT32_MAX - (int)(i / 2) : INT32_MIN + (int)(i / 2);
    }
  }
  static int probe(Rng &r) { return (int)r.next(); }
};
template <> struct KeyOf<int64_t> {
  static int64_t mk(uint64_t i, int style) {
    switch (style % 3) {
    case 0: return (int64_t)i - 100;
    case 1: return (int64_t)mix64(i);
    default: return i % 2 ? INT64_MAX - (int64_t)i : INT64_MIN + (int64_t)i;
    }
  }
  static int64_t probe(Rng &r) { return (int64_t)r.next(); }
};
template <> struct KeyOf<uint8_t> {
  static uint8_t mk(uint64_t i, int style) { return style % 2 ? (uint8_t)(i * 37) : (uint8_t)i; }
  static uint8_t probe(Rng &r) { return (uint8_t)r.next(); }
};
template <> struct KeyOf<std::string> {
  static std::string mk(uint64_t i, int style) {
    char b[64];
    switch (style % 4) {
    case 0: snprintf(b, sizeof b, "%06" PRIu64, i); return b;
    case 1: { // nested prefixes incl. the empty string
      std::string s; for (uint64_t v = i; v; v /= 3) s += (char)('a' + v % 3); return s; }
    case 2: { // long shared prefix, heap allocated
      snprintf(b, sizeof b, "a-rather-long-common-prefix-%" PRIx64, mix64(i) % 100000 * 1000 + i); return b; }
    default: { // bytes above 127 and embedded zero bytes
      std::string s; uint64_t v = mix64(i); for (int k = 0; k < (int)(i % 5); k++, v >>= 8) s += (char)(v & 0x83);
      s += (char)(i & 0xff); s += (char)(i >> 8); return s; }
    }
  }
  static std::string probe(Rng &r) { std::string s; int n = r.below(5); while (n--) s += (char)r.next(); return s; }
};
template <> struct KeyOf<CK3> {
  static CK3 mk(uint64_t i, int style) {
    if (style % 2) return CK3{(int)(i % 5) - 2, (int)(i / 5 % 7) - 3, (int)(i / 35)};
    return CK3{(int)(i / 16), (int)(i / 4 % 4), (int)(i % 4)};
  }
  static CK3 probe(Rng &r) { return CK3{(int)r.range(-4, 40), (int)r.range(-4, 8), (int)r.range(-1, 60)}; }
};
template <> struct KeyOf<CKS> {
  static CKS mk(uint64_t i, int style) { return CKS{(int)(i % 6), KeyOf<std::string>::mk(i / 6, style)}; }
  static CKS probe(Rng &r) { return CKS{(int)r.range(-1, 7), KeyOf<std::string>::probe(r)}; }
};
template <> struct KeyOf<CKG> {
  static CKG mk(uint64_t i, int style) { return style % 2 ? CKG{(int)(i % 5) - 2, (int)(i / 5)} : CKG{(int)(i / 9), (int)(i % 9) - 4}; }
  static CKG probe(Rng &r) { return CKG{(int)r.range(-4, 40), (int)r.range(-5, 40)}; }
};
template <> struct KeyOf<I128> {
  static I128 mk(uint64_t i, int style) { return style % 2 ? (I128)i - 50 : (I128)mix64(i) << (style * 4) | (I128)i; }
  static I128 probe(Rng &r) { return (I128)(int64_t)r.next() * (1 + (int)r.below(1 << 30)); }
};
template <> struct KeyOf<Tracked> {
  static Tracked mk(uint64_t i, int style) { return Tracked(KeyOf<int>::mk(i, style)); }
  static Tracked probe(Rng &r) { return Tracked((int)r.next()); }
};
template <class V> struct ValOf;
template <> struct ValOf<int> { static int mk(uint64_t i) { return (int)(i * 2654435761u) | 1; } };
template <> struct ValOf<uint64_t> { static uint64_t mk(uint64_t i) { return mix64(i) | 1; } };
template <> struct ValOf<uint8_t> { static uint8_t mk(uint64_t i) { return (uint8_t)mix64(i) | 1; } };
template <> struct ValOf<std::string> {
  static std::string mk(uint64_t i) { return std::string(1 + i % 40, (char)('A' + i % 26)) + std::to_string(i); }
};
template <> struct ValOf<Tracked> { static Tracked mk(uint64_t i) { return Tracked((int64_t)mix64(i) | 1); } };

