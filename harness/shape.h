// Structure oracle over the text a B+Tree dump prints: one line per level, nodes as |k, k, ...|.
#pragma once
#include "common.h"
#include <algorithm>
#include <sstream>
namespace vh {
struct Shape {
  std::vector<std::vector<std::vector<int64_t>>> levels;
  size_t inner = 0, leaves = 0;
  uint64_t hash = 0;
  explicit Shape(const std::string &dump) {
    std::istringstream is(dump);
    std::string line;
    while (std::getline(is, line)) {
      if (line.empty()) continue;
      std::vector<std::vector<int64_t>> nodes;
      size_t p = 0;
      while ((p = line.find('|', p)) != std::string::npos) {
        size_t q = line.find('|', p + 1);
        if (q == std::string::npos) break;
        std::vector<int64_t> ks;
        std::istringstream ns(line.substr(p + 1, q - p - 1));
        std::string tok;
        while (std::getline(ns, tok, ',')) if (!tok.empty()) ks.push_back(strtoll(tok.c_str(), 0, 10));
        nodes.push_back(ks);
        p = q + 1;
      }
      levels.push_back(nodes);
    }
    for (size_t l = 0; l < levels.size(); l++) (l + 1 < levels.size() ? inner : leaves) += levels[l].size();
    hash = levels.size();
    for (auto &l : levels) for (auto &n : l) hash = mix64(hash * 31 + n.size());
  }
  // keys: the live keys in ascending order
  void check(int height, const std::vector<int64_t> &keys) const {
    CHECK((int)levels.size() == height + 1, "level-count", "the tree has %zu levels but height() is %d", levels.size(), height);
    CHECK(levels[0].size() == 1, "level-count", "the top level has %zu nodes", levels[0].size());
    for (size_t l = 0; l + 1 < levels.size(); l++) {
      size_t child = 0;
      for (auto &nd : levels[l]) {
        for (size_t c = 0; c <= nd.size(); c++, child++) {
          CHECK(child < levels[l + 1].size(), "unbalanced", "level %zu has fewer nodes than its parents reference", l + 1);
          for (int64_t k : levels[l + 1][child]) {
            CHECK(c == 0 || nd[c - 1] <= k, "separator-order", "a key lies left of its separator");
            CHECK(c == nd.size() || k < nd[c], "separator-order", "a key lies right of its separator");
          }
        }
        for (size_t i = 1; i < nd.size(); i++) CHECK(nd[i - 1] < nd[i], "separator-order", "separators out of order");
      }
      CHECK(child == levels[l + 1].size(), "unbalanced", "level %zu has nodes no parent references", l + 1);
    }
    size_t i = 0;
    for (auto &nd : levels.back()) for (int64_t k : nd) {
      CHECK(i < keys.size() && keys[i] == k, "leaf-content", "the leaf level does not hold exactly the live keys in order");
      i++;
    }
    CHECK(i == keys.size(), "leaf-content", "the leaf level lacks live keys");
  }
  size_t max_leaf() const { size_t r = 0; if (levels.size()) for (auto &n : levels.back()) r = std::max(r, n.size()); return r; }
  // must erasing `key` merge its leaf with the left sibling? (only when clear-cut: one slot of margin below the
  // threshold, and a leaf as large as the merged one has been seen to exist; bytes: one stored entry)
  bool merge_due(int64_t key, size_t bytes, int node_size, int threshold, size_t largest) const {
    if (levels.size() < 2) return false;
    auto &lv = levels.back();
    auto &up = levels[levels.size() - 2];
    size_t child = 0;
    for (auto &nd : up) for (size_t c = 0; c <= nd.size(); c++, child++) {
      if (child >= lv.size() || std::find(lv[child].begin(), lv[child].end(), key) == lv[child].end()) continue;
      if (c == 0) return false;
      return lv[child].size() * bytes * 100 < (size_t)threshold * node_size && lv[child - 1].size() + lv[child].size() <= largest;
    }
    return false;
  }
  template <class S> void check_stats(int height, const S &st) const {
    CHECK(leaves == 1 + st.num_leaf_splits - st.num_leaf_merges, "stats", "%zu leaves but %zu leaf splits and %zu leaf merges", leaves, st.num_leaf_splits.load(), st.num_leaf_merges.load());
    CHECK(inner == height + st.num_inner_splits - st.num_inner_merges, "stats", "%zu inner nodes but height %d, %zu inner splits and %zu inner merges", inner, height,
          st.num_inner_splits.load(), st.num_inner_merges.load());
    for (size_t v : {st.num_leaf_splits.load(), st.num_inner_splits.load(), st.num_leaf_trims.load(), st.num_inner_trims.load(), st.num_leaf_merges.load(), st.num_inner_merges.load(),
                     st.num_pessimistic_reads.load(), st.num_optimistic_fails.load(), st.num_retrys.load()})
      CHECK(v < 1ull << 48, "stats", "a statistics counter went below zero");
    check_report(st);
  }
  // the printed report shows every count under its name
  template <class S> static void check_report(const S &st) {
    std::ostringstream os;
    st.dump(os);
    std::map<std::string, size_t> got;
    std::istringstream is(os.str());
    for (std::string line; std::getline(is, line);) {
      auto p = line.find('=');
      if (p == std::string::npos) continue;
      std::string name;
      for (char ch : line.substr(0, p)) if (isalpha((unsigned char)ch)) name += (char)tolower(ch);
      got[name] = strtoull(line.c_str() + p + 1, nullptr, 10);
    }
    auto is_ = [&](const char *name, size_t v) {
      CHECK(got.count(name) && got[name] == v, "stats-report", "the statistics report shows %s for %s, the count is %zu", got.count(name) ? std::to_string(got[name]).c_str() : "nothing", name, v);
    };
    is_("numleafsplits", st.num_leaf_splits); is_("numinnersplits", st.num_inner_splits);
    is_("numleaftrims", st.num_leaf_trims); is_("numinnertrims", st.num_inner_trims);
    is_("numleafmerges", st.num_leaf_merges); is_("numinnermerges", st.num_inner_merges);
    is_("numpessimisticreads", st.num_pessimistic_reads); is_("numoptimisticfails", st.num_optimistic_fails); is_("numretries", st.num_retrys);
  }
};
} // namespace vh
