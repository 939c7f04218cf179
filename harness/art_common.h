// Keys and structure oracle shared by the radix tree monitors.
#pragma once
#include "common.h"
#include <algorithm>
#include <functional>
#include <unordered_map>
#include <unordered_set>
namespace vh {
using u64 = uint64_t;
inline int byte_of(u64 k, int d) { return (int)(k >> (8 * d) & 0xff); } // the trees branch on the least significant byte first
// ---------------------------------------------------------------- keys
inline void add_keys(Rng &r, std::vector<u64> &out, size_t want) {
  std::unordered_set<u64> s(out.begin(), out.end());
  auto put = [&](u64 k) { if (s.insert(k).second) out.push_back(k); };
  u64 base = r.chance(1, 2) ? r.next() : r.below(4);
  int style = (int)r.below(8), sh = (int)r.below(8), guard = 0;
  u64 alpha[8][256];
  int na[8];
  for (int d = 0; d < 8; d++) { // alphabets per byte
    static const int sizes[] = {1, 1, 2, 3, 4, 5, 16, 17, 48, 49, 256};
    na[d] = sizes[r.below(11)];
    u64 o = r.below(256);
    for (int i = 0; i < na[d]; i++) alpha[d][i] = (o + i * (na[d] == 256 ? 1 : 1 + 2 * r.below(2))) & 0xff;
  }
  while (out.size() < want && ++guard < 20000) {
    u64 i = out.size(), k = 0;
    switch (style) {
    case 0: k = base + i; break;
    case 1: k = (base & 0xff) + (i << (8 * sh)); break;
    case 2: k = r.next(); break;
    case 3: case 4: for (int d = 0; d < 8; d++) k |= alpha[d][r.below(na[d])] << (8 * d); break;
    case 5: k = (base & ~(0xffull << (8 * sh))) | r.below(256) << (8 * sh); if (r.chance(1, 4)) k ^= r.below(3) << (8 * ((sh + 1 + r.below(3)) % 8)); break;
    case 6: { static const u64 e[] = {0, 1, ~0ull, ~0ull - 1, 1ull << 63, 0x7fffffffffffffffull, 0xff, 0x100, 0xff00000000000000ull, 0x00ffffffffffffffull}; k = r.chance(1, 2) ? e[r.below(10)] : (1ull << r.below(64)) + r.below(3) - 1; break; }
    default: k = __builtin_bswap64(base % 1000 + i); break;
    }
    put(k);
  }
}
// ---------------------------------------------------------------- structure
struct ArtShape { u64 inner = 0, k[4] = {0, 0, 0, 0}; };
// The dumped tree must hold exactly the live keys, each below its own index bytes; `minimal` also
// demands that every inner node branches (path compression).
template <class F> ArtShape art_shape(const std::string &t, const std::unordered_map<u64, u64> &live, bool minimal, F same_value) {
  ArtShape st;
  struct N { bool leaf; u64 key, val; std::vector<std::pair<int, std::string>> kids; };
      std::unordered_map<std::string, N> nodes;
      std::string rootp;
      size_t p = 0;
      while ((p = t.find("=|", p)) != std::string::npos) {
        size_t a = t.rfind("0x", p);
        std::string id = t.substr(a, p - a);
        if (rootp.empty()) rootp = id;
        N n{};
        size_t q = p + 2, e;
        size_t lb = t.find('{', q), bar = t.find('|', q);
        if (lb < bar) {
          n.leaf = true;
          n.key = strtoull(t.substr(lb + 1, 16).c_str(), nullptr, 16);
          n.val = strtoull(t.c_str() + t.find(", ", lb) + 2, nullptr, 10);
          e = bar;
        } else {
          n.leaf = false;
          e = bar;
          for (size_t b = t.find('[', q); b < e; b = t.find('[', b + 1)) {
            int ind = (int)strtol(t.substr(b + 1, 2).c_str(), nullptr, 16);
            size_t c = t.find("0x", b), d = t.find(']', c);
            n.kids.emplace_back(ind, t.substr(c, d - c));
          }
        }
        CHECK(nodes.emplace(id, n).second, "structure", "a node is reachable over two paths");
        p = e;
      }
      if (live.empty()) { CHECK(!minimal || nodes.empty(), "structure", "%zu nodes remain in a tree without keys", nodes.size()); if (nodes.empty()) return st; }
      CHECK(live.empty() || !nodes.empty(), "structure", "no tree although %zu keys are present", live.size());
      std::unordered_map<u64, u64> left;
      for (auto &kv : live) left.insert(kv);
      // yields one leaf key below the node, or false for a node that concurrent deletes left empty
      std::function<bool(const std::string &, u64 &)> walk = [&](const std::string &id, u64 &any) -> bool {
        auto it = nodes.find(id);
        CHECK(it != nodes.end(), "structure", "a child pointer leads to no node");
        N &n = it->second;
        if (n.leaf) {
          auto l = left.find(n.key);
          CHECK(l != left.end(), "structure", "the tree holds the leaf %#" PRIx64 ", which is not a live key (or twice)", n.key);
          CHECK(same_value(n.val, l->second), "structure", "leaf %#" PRIx64 " holds another value", n.key);
          left.erase(l);
          any = n.key;
          return true;
        }
        st.inner++;
        size_t c = n.kids.size();
        st.k[c <= 4 ? 0 : c <= 16 ? 1 : c <= 48 ? 2 : 3]++;
        CHECK(!minimal || c >= 2, "structure", "an inner node has %zu children: it branches nothing", c);
        std::vector<u64> rep;
        std::vector<int> ix;
        for (auto &kid : n.kids) { u64 k; if (walk(kid.second, k)) { rep.push_back(k); ix.push_back(kid.first); } }
        if (rep.empty()) return false;
        any = rep[0];
        if (rep.size() == 1) return true;
        int lvl = 0;
        while (lvl < 8 && byte_of(rep[0], lvl) == byte_of(rep[1], lvl)) lvl++;
        CHECK(lvl < 8, "structure", "two leaves hold one key");
        for (size_t i = 0; i < rep.size(); i++) {
          for (int d = 0; d < lvl; d++) CHECK(byte_of(rep[i], d) == byte_of(rep[0], d), "structure", "leaves below one node differ before its branching byte");
          CHECK(byte_of(rep[i], lvl) == ix[i], "structure", "a child sits at index byte %02x, its leaves have %02x", ix[i], byte_of(rep[i], lvl));
        }
        return true;
      };
      u64 any;
      if (!rootp.empty()) walk(rootp, any);
      CHECK(left.empty(), "structure", "%zu live keys are not in the tree", left.size());
  return st;
}
} // namespace vh
