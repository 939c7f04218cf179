// Per-key linearizability checker for map histories (Wing & Gong search with memoisation).
#pragma once
#include "common.h"
#include <algorithm>
#include <unordered_set>
namespace vh {
enum OpKind : uint8_t { INS, UPS, UPD, GET, DEL };
inline const char *opname(OpKind k) { static const char *n[] = {"Insert", "Upsert", "Update", "Search", "Delete"}; return n[k]; }
struct HOp {
  OpKind kind;
  uint8_t tid;
  uint32_t key;
  uint64_t arg = 0;     // value written (unique over the run)
  bool has = false;     // result: Insert -> inserted?, others -> value present?
  uint64_t val = 0;     // result value
  uint64_t call = 0, ret = 0;
};
// absent = 0, value v otherwise (values are never 0)
struct LinChecker {
  const std::vector<HOp> *h = nullptr;
  std::unordered_set<uint64_t> memo;
  uint64_t work = 0, max_work = 2000000;
  bool apply(const HOp &o, uint64_t &s) const {
    switch (o.kind) {
    case INS: if (s == 0) { s = o.arg; return o.has; } return !o.has;
    case UPS: if (o.has != (s != 0) || (o.has && o.val != s)) return false; s = o.arg; return true;
    case UPD: if (o.has != (s != 0) || (o.has && o.val != s)) return false; if (s) s = o.arg; return true;
    case GET: return o.has == (s != 0) && (!o.has || o.val == s);
    case DEL: if (o.has != (s != 0) || (o.has && o.val != s)) return false; s = 0; return true;
    }
    return false;
  }
  bool rec(uint64_t mask, uint64_t s) {
    size_t n = h->size();
    if (mask == (n == 64 ? ~0ull : (1ull << n) - 1)) return true;
    if (!memo.insert(mix64(mask * 0x9e3779b97f4a7c15ull ^ mix64(s))).second) return false;
    if (++work > max_work) return true; // inconclusive: never reported
    uint64_t minret = ~0ull;
    for (size_t i = 0; i < n; i++) if (!(mask >> i & 1)) minret = std::min(minret, (*h)[i].ret);
    for (size_t i = 0; i < n; i++) {
      if (mask >> i & 1) continue;
      const HOp &o = (*h)[i];
      if (o.call > minret) continue;
      uint64_t t = s;
      if (apply(o, t) && rec(mask | 1ull << i, t)) return true;
    }
    return false;
  }
  // 1 = linearizable, 0 = not, -1 = not decided
  int check(std::vector<HOp> &ops, uint64_t init) {
    std::sort(ops.begin(), ops.end(), [](const HOp &a, const HOp &b) { return a.call < b.call; });
    if (ops.size() > 64) return -1;
    h = &ops; memo.clear(); work = 0;
    bool ok = rec(0, init);
    if (work > max_work) return -1;
    return ok;
  }
};
inline void print_history(const std::vector<HOp> &ops, uint64_t init) {
  printf("-- history of one key (initially %s%" PRIu64 ") --\n", init ? "value " : "absent ", init);
  for (auto &o : ops) {
    printf("  [%6" PRIu64 ",%6" PRIu64 "] T%d %s(key#%u", o.call, o.ret, o.tid, opname(o.kind), o.key);
    if (o.kind <= UPD) printf(", %" PRIu64, o.arg);
    if (o.kind == INS) printf(") -> %s\n", o.has ? "true" : "false");
    else if (o.has) printf(") -> %" PRIu64 "\n", o.val);
    else printf(") -> nothing\n");
  }
}
} // namespace vh
