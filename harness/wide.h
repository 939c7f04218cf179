// Values whose parts must agree: a mixture of two stored values is recognised.
#pragma once
#include "common.h"
namespace vh {
using u64 = uint64_t;
struct Wide { u64 a, b, c, d; }; // a value wider than a machine word
template <class V> struct Val;
template <> struct Val<u64> { static u64 mk(u64 n) { return n; } static u64 id(u64 v) { return v; } };
template <> struct Val<Wide> {
  static Wide mk(u64 n) { return {n, ~n, n * 3, n ^ 0x5555}; }
  static u64 id(const Wide &w) { CHECK(w.b == ~w.a && w.c == w.a * 3 && w.d == (w.a ^ 0x5555), "torn-value", "an operation returned a mixture of two values"); return w.a; }
};
template <> struct Val<std::string> {
  static std::string mk(u64 n) { return "a value that does not fit into the string object itself #" + std::to_string(n); }
  static u64 id(const std::string &s) { u64 n = strtoull(s.c_str() + std::min<size_t>(s.size(), 57), nullptr, 10); CHECK(s == mk(n), "torn-value", "an operation returned a value nobody stored"); return n; }
};
} // namespace vh
