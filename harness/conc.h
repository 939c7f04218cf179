// Concurrent history monitor for the map-like indexes.
//
// Each case generates a small concurrent program (threads x operations over a small key domain) and
// executes it on the real index, either under the deterministic fiber scheduler (VH_SCHED) or with
// real threads.  Every call is recorded at the client boundary {kind,key,arg,result,call,ret}; after
// the run the history of each key, extended by quiescent reads, must be linearizable; sizes,
// iterations and (after destruction) the heap must agree with it.
#pragma once
#include "common.h"
#include "lin.h"
#include <functional>
#include <memory>
#ifdef VH_SCHED
#include "vh_sched.h"
#else
#include "indexes/utils/Utils.h"
#include <atomic>
#include <thread>
#endif
namespace vh {
#ifdef VH_SCHED
inline uint64_t now_tick() { return sched_now(); }
#else
inline std::atomic<uint64_t> &tick_src() { static std::atomic<uint64_t> t{0}; return t; }
#ifdef VH_RACES // race detector builds: the clock must not order the threads
inline uint64_t now_tick() { return tick_src().fetch_add(1, std::memory_order_relaxed); }
#else
inline uint64_t now_tick() { return tick_src().fetch_add(1); }
#endif
struct OpScope {};
#endif

enum ConcMode { LIN, SCAN, MEM, LIVE };
struct Op { uint8_t kind; uint32_t key; uint32_t key2 = 0; uint64_t val = 0; };
enum : uint8_t { OP_FWD = 10, OP_BWD, OP_LB, OP_UB, OP_RANGE, OP_RRANGE, OP_SIZE };
struct Seen { uint32_t key; uint64_t val; };
struct ScanRec { uint8_t kind, tid; uint32_t lo, hi; bool lo_in, hi_in; uint64_t call, ret; uint32_t first, n; };

struct Profile {
  int threads, ops;
  uint32_t D;
  int w[5];              // insert upsert update search delete
  int prefill_pct;
  int keysel;            // 0 uniform, 1 hot, 2 own stripe, 3 sliding/ascending, 4 block
  bool scans;
  bool roles;            // some threads only read, near the greatest key; the others delete and insert in bursts
};

inline Profile gen_profile(Rng &r, ConcMode mode, int maxthreads, uint32_t maxD) {
  Profile p;
  p.threads = 2 + (int)r.below(r.chance(1, 4) ? maxthreads - 1 : 2);
  static const uint32_t doms[] = {1, 2, 3, 5, 8, 12, 16, 24, 32, 48, 64, 96};
  do p.D = doms[r.below(12)]; while (p.D > maxD);
  p.ops = p.D <= 2 ? 3 + (int)r.below(8) : 3 + (int)r.below(p.D < 16 ? 20 : 40);
  static const int ws[8][5] = {{4, 4, 2, 3, 5}, {8, 1, 0, 2, 1}, {1, 1, 0, 2, 8}, {5, 0, 0, 1, 5}, {0, 6, 2, 4, 6}, {2, 2, 8, 4, 2}, {6, 6, 1, 6, 1}, {3, 3, 3, 3, 3}};
  int wi = (int)r.below(8);
  for (int i = 0; i < 5; i++) p.w[i] = ws[wi][i];
  static const int pf[] = {0, 0, 30, 50, 80, 100, 100};
  p.prefill_pct = pf[r.below(7)];
  p.keysel = (int)r.below(5);
  p.scans = mode == SCAN || (mode == MEM && r.chance(1, 2));
  p.roles = r.chance(1, 4);
  if (p.roles) {
    static const uint32_t rd[] = {0, 0, 0, 0, 0, 0, 20, 24, 32, 48};
    do { p.D = rd[r.below(10)]; if (!p.D) p.D = 4 + (uint32_t)r.below(16); } while (p.D > maxD);
    p.ops = 8 + (int)r.below(40);
    p.threads = 2 + (int)r.below(2);
    if (r.chance(2, 3)) p.prefill_pct = 60 + 20 * (int)r.below(3);
  }
  return p;
}

// A: adapter {Map; static create(); ins/ups/upd/get/del(Map&, idx, val); size(Map&) or -1; reclaim(Map&)}
template <class A> struct Conc {
  using Map = typename A::Map;
  Rng rng;
  ConcMode mode;
  Profile pf;
  std::vector<std::vector<Op>> prog;
  std::vector<std::vector<HOp>> hist;
  std::vector<std::vector<ScanRec>> scans;
  std::vector<std::vector<Seen>> seenkv;
  std::vector<uint64_t> init;
  std::vector<HOp> pre;
  uint64_t vseq = 0;
  std::unique_ptr<Map> m;
  Conc(uint64_t seed, ConcMode md) : rng(seed), mode(md) {}
  struct Ctrs {
    Ctr ck{"keys_checked"}, cu{"keys_undecided"}, co{"ops_checked"}, cov{"overlapping_op_pairs"}, cs{"scans_checked"}, csk{"scan_keys"},
        runs{"executions"}, nops{"operations"}, pts{"sched_points"}, sw{"context_switches"}, bl{"lock_waits"}, progs{"programs"}, chu{"thread_reregistrations"};
  };
  static Ctrs &ctrs() { static Ctrs c; return c; }

  uint32_t pick_key(int tid, int i, int nops) {
    uint32_t D = pf.D;
    switch (pf.keysel) {
    case 1: return rng.chance(3, 4) ? (uint32_t)rng.below(std::min<uint32_t>(D, 2)) : (uint32_t)rng.below(D);
    case 2: { uint32_t k = (uint32_t)rng.below(D); if (rng.chance(4, 5)) k = k / pf.threads * pf.threads + tid; return k % D; }
    case 3: return (uint32_t)((uint64_t)i * D / (nops ? nops : 1) + rng.below(3)) % D;
    case 4: { uint32_t b = std::max<uint32_t>(1, D / 4); return (uint32_t)((tid % 4) * b + rng.below(b)) % D; }
    default: return (uint32_t)rng.below(D);
    }
  }
  uint64_t newval() { return A::val(++vseq); }
  void generate() {
    prog.assign(pf.threads, {});
    int tw = 0;
    for (int x : pf.w) tw += x;
    std::vector<uint32_t> byrank(pf.D);
    for (uint32_t i = 0; i < pf.D; i++) byrank[i] = i;
    std::sort(byrank.begin(), byrank.end(), [](uint32_t a, uint32_t b) { return A::rank(a) < A::rank(b); });
    for (int t = 0; t < pf.threads; t++) {
      int n = 1 + (int)rng.below(pf.ops);
      bool scanner = A::has_scan && pf.scans && (t == 0 || rng.chance(1, 3));
      if (scanner) n = 1 + (int)rng.below(4);
      int burst = 0, len = 1;
      uint32_t start = 0;
      bool del = rng.chance(1, 2);
      for (int i = 0; i < n; i++) {
        Op o{};
        o.key = pick_key(t, i, n);
        bool reader = pf.roles && t < std::max(1, pf.threads / 2);
        if (reader && rng.chance(3, 4)) o.key = byrank[pf.D - 1 - rng.below(std::min<uint32_t>(pf.D, 3))];
        if (pf.roles && !reader && !scanner) {
          // a run of neighbouring keys is deleted and inserted again
          if (!burst) { del = !del; if (del || rng.chance(1, 3)) { len = 1 + (int)rng.below(6); start = (uint32_t)rng.below(pf.D); } burst = len; }
          o.key = byrank[(start + --burst) % pf.D];
          o.kind = del ? DEL : rng.chance(3, 4) ? INS : UPS;
          if (!del) o.val = newval();
        } else if (reader && !scanner) o.kind = GET;
        else if (scanner && A::has_scan) {
          o.kind = OP_FWD + (uint8_t)rng.below(6);
          uint32_t a = (uint32_t)rng.below(pf.D), b = (uint32_t)rng.below(pf.D);
          if (A::rank(a) > A::rank(b)) std::swap(a, b);
          o.key = a; o.key2 = b; o.val = rng.below(4);
        } else {
          int x = (int)rng.below(tw), k = 0;
          while (x >= pf.w[k]) x -= pf.w[k++];
          o.kind = (uint8_t)k;
          if (k <= UPD) o.val = newval();
        }
        prog[t].push_back(o);
      }
    }
  }
  // threads come and go between their operations, and take over each other's ids
  bool churn = false;
  uint64_t churn_seed = 0, churned[16] = {};
  void exec(int t) {
    auto &h = hist[t];
    Rng cr(churn_seed + 77 * t);
    if (churn) indexes::utils::ThreadRegistry::RegisterThread();
    for (auto &o : prog[t]) {
      if (churn && cr.chance(1, 4)) { indexes::utils::ThreadRegistry::UnregisterThread(); indexes::utils::ThreadRegistry::RegisterThread(); churned[t]++; }
      if (o.kind >= OP_FWD) { if constexpr (A::has_scan) scan(t, o); continue; }
      HOp r;
      r.kind = (OpKind)o.kind; r.tid = (uint8_t)t; r.key = o.key; r.arg = o.val;
      r.call = now_tick();
      A::run(*m, r);
      r.ret = now_tick();
      h.push_back(r);
    }
  }
  void scan(int t, const Op &o) {
    if constexpr (A::has_scan) {
      ScanRec s;
      s.kind = o.kind; s.tid = (uint8_t)t; s.lo = o.key; s.hi = o.key2; s.lo_in = o.val & 1; s.hi_in = o.val & 2;
      s.first = (uint32_t)seenkv[t].size();
      s.call = now_tick();
      auto &out = seenkv[t];
      size_t limit = s.first + pf.D + 8; // a scan of a D-key domain can never visit more than D keys
      A::scan(*m, o.kind, o.key, o.key2, s.lo_in, s.hi_in, [&](uint32_t k, uint64_t v) {
        if (k == ~0u || k >= pf.D) fail("scan-foreign-key", "a scan visits a key that was never inserted");
        out.push_back({k, v});
        if (out.size() > limit) fail("scan-endless", "a scan visited more keys than the domain has (T%d)", t);
      });
      s.ret = now_tick();
      s.n = (uint32_t)seenkv[t].size() - s.first;
      scans[t].push_back(s);
    }
  }
  void prefill() {
    init.assign(pf.D, 0);
    pre.clear();
    std::vector<uint32_t> order(pf.D);
    for (uint32_t i = 0; i < pf.D; i++) order[i] = i;
    if (rng.chance(1, 2)) for (uint32_t i = pf.D; i > 1; i--) std::swap(order[i - 1], order[rng.below(i)]);
    for (uint32_t k : order) if (rng.below(100) < (uint64_t)pf.prefill_pct) {
      HOp r; r.kind = INS; r.key = k; r.arg = newval();
      A::run(*m, r);
      if (!r.has) fail("prefill", "Insert of an absent key into a fresh index failed");
      init[k] = r.arg;
    }
    // churn: delete some again so that nodes carry dead entries before the race starts
    if (rng.chance(1, 3)) for (uint32_t k = 0; k < pf.D; k++) if (init[k] && rng.chance(1, 3)) {
      HOp r; r.kind = DEL; r.key = k; A::run(*m, r);
      if (!r.has || r.val != init[k]) fail("prefill", "Delete of a present key returned %s", r.has ? "another value" : "nothing");
      init[k] = 0;
    }
  }
  void run_threads(uint64_t sseed, uint64_t &est) {
    churn_seed = sseed;
#ifdef VH_SCHED
    SchedCfg c;
    c.seed = sseed;
    Rng r(sseed ^ 0x5eed);
    if (pf.roles && r.chance(2, 3)) { // a reader stops inside its operations while the writers go on
      static const uint64_t ms[] = {10, 20, 40, 80, 160}, ss[] = {100, 300, 600, 1200, 3000};
      c.kind = SchedCfg::STALL; c.victim = 0; c.mean = ms[r.below(5)]; c.stall = ss[r.below(5)];
    }
    else if (r.chance(1, 3)) { c.kind = SchedCfg::PRIO; c.changes = 1 + (int)r.below(8); c.est_len = est ? est : 3000; }
    else if (r.chance(1, 2)) { // one fiber at a time loses the CPU for whole operations of the others
      static const uint64_t ms[] = {20, 60, 150, 400, 1000, 4000}, ss[] = {300, 1000, 3000, 8000, 30000};
      c.kind = SchedCfg::STALL; c.mean = ms[r.below(6)]; c.stall = ss[r.below(5)];
    }
    else { static const uint64_t ms[] = {1, 2, 3, 5, 8, 15, 30, 60, 150, 400, 1000}; c.mean = ms[r.below(11)]; }
    churn = c.churn = r.chance(1, 4);
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < pf.threads; t++) bodies.push_back([this, t] { exec(t); indexes::utils::ThreadRegistry::UnregisterThread(); });
    c.max_points = 6000000;
    SchedStats st = sched_run(c, bodies.data(), pf.threads);
    est = st.points;
    pend_points = st.points; pend_switches = st.switches; pend_waits = st.blocks; pend_hash = st.hash;
#else
    (void)est;
    churn = Rng(sseed ^ 0xc0).chance(1, 4);
    g_programs = g_programs + 1;
    std::atomic<int> ready{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < pf.threads; t++) ts.emplace_back([&, t] {
      indexes::utils::ThreadRegistry::RegisterThread();
      ready++;
      while (ready.load() < pf.threads) {}
      Rng r(sseed + t);
      for (volatile int i = (int)r.below(200); i > 0; i--) {}
      exec(t);
      indexes::utils::ThreadRegistry::UnregisterThread();
    });
    for (auto &t : ts) t.join();
    uint64_t hsh = 0;
    for (auto &v : hist) for (auto &o : v) hsh = mix64(hsh ^ o.call * 31 ^ o.ret);
    pend_hash = hsh;
#endif
  }
  static uint64_t state_hash(const HOp &o) { return mix64(o.val ^ (uint64_t)o.has << 60); }
  void check_lin() {
    auto &[ck, cu, co, cov, cs, csk, runs, nops, pts, sw, bl, progs, chu] = ctrs();
    std::vector<std::vector<HOp>> per(pf.D);
    for (auto &v : hist) for (auto &o : v) per[o.key].push_back(o);
    for (int t = 0; t < pf.threads; t++) for (auto &s : scans[t]) {
      std::vector<uint64_t> got(pf.D, 0);
      for (uint32_t i = s.first; i < s.first + s.n; i++) got[seenkv[t][i].key] = seenkv[t][i].val;
      for (uint32_t k = 0; k < pf.D; k++) if (in_range(s, k)) {
        HOp o; o.kind = GET; o.tid = s.tid; o.key = k; o.call = s.call; o.ret = s.ret; o.has = got[k] != 0; o.val = got[k];
        per[k].push_back(o);
      }
    }
    LinChecker lc;
    for (uint32_t k = 0; k < pf.D; k++) {
      HOp r; r.kind = GET; r.tid = 99; r.key = k;
      r.call = now_tick();
      A::run(*m, r);
      r.ret = now_tick();
      per[k].push_back(r);
      final_[k] = r.has ? r.val : 0;
      for (size_t i = 0; i + 1 < per[k].size(); i++) for (size_t j = i + 1; j < per[k].size(); j++)
        if (per[k][i].call < per[k][j].ret && per[k][j].call < per[k][i].ret) cov++;
      co += per[k].size();
      std::vector<HOp> ops = per[k];
      int v = lc.check(ops, init[k]);
      if (v == 0) {
        print_history(ops, init[k]);
        fail("not-linearizable", "no order of the %zu calls on key #%u explains the results they returned", ops.size(), k);
      }
      if (v < 0) cu++; else ck++;
    }
  }
  bool in_range(const ScanRec &s, uint32_t k) {
    if constexpr (A::has_scan) {
      auto r = A::rank(k), lo = A::rank(s.lo), hi = A::rank(s.hi);
      switch (s.kind) {
      case OP_LB: return r >= lo;
      case OP_UB: return r > lo;
      case OP_RANGE: case OP_RRANGE: return (s.lo_in ? r >= lo : r > lo) && (s.hi_in ? r <= hi : r < hi);
      }
    }
    return true;
  }
  void check_scans() {
    if constexpr (A::has_scan) {
      for (int t = 0; t < pf.threads; t++) for (auto &s : scans[t]) {
        bool down = s.kind == OP_BWD || s.kind == OP_RRANGE;
        for (uint32_t i = s.first; i < s.first + s.n; i++) {
          auto &e = seenkv[t][i];
          if (!in_range(s, e.key)) fail("scan-out-of-range", "a scan visits key #%u outside its bounds #%u..#%u", e.key, s.lo, s.hi);
          if (i > s.first) {
            auto a = A::rank(seenkv[t][i - 1].key), b = A::rank(e.key);
            if (down ? a <= b : a >= b) fail("scan-order", "a %s scan visits key #%u after key #%u", down ? "backward" : "forward", e.key, seenkv[t][i - 1].key);
          }
          ctrs().csk++;
        }
        ctrs().cs++;
      }
    }
  }
  std::vector<uint64_t> final_;
  uint64_t pend_hash = 0, pend_points = 0, pend_switches = 0, pend_waits = 0;
  // The harness allocates nothing that outlives the window between the two heap readings.
  void one(uint64_t sseed, uint64_t &est) {
    ctrs();
    hist.assign(pf.threads, {}); scans.assign(pf.threads, {}); seenkv.assign(pf.threads, {});
    for (int t = 0; t < pf.threads; t++) {
      hist[t].reserve(prog[t].size()); scans[t].reserve(prog[t].size());
      seenkv[t].reserve(prog[t].size() * (pf.D + 10));
    }
    init.assign(pf.D, 0); final_.assign(pf.D, 0);
    A::warm();
#ifndef VH_SCHED
    { // per-thread runtime state that is cached across threads
      std::vector<std::thread> ts;
      std::atomic<int> ready{0};
      for (int t = 0; t < pf.threads; t++) ts.emplace_back([&] { indexes::utils::ThreadRegistry::RegisterThread(); ready++; while (ready.load() < pf.threads) {} indexes::utils::ThreadRegistry::UnregisterThread(); });
      for (auto &t : ts) t.join();
    }
#endif
    size_t before = heap_bytes();
    int64_t alive = live().alive;
    m = A::create();
    G().phase = "prefill";
    prefill();
    G().phase = "race";
    run_threads(sseed, est);
    G().phase = "quiescent";
    check_scans();
    check_lin();
    A::quiescent(*m, final_);
    G().phase = "destroy";
    if (rng.chance(1, 2)) A::reclaim(*m);
    A::harvest(*m);
    m.reset();
    size_t after = heap_bytes();
    CHECK(live().alive == alive, "leak-object", "%" PRId64 " keys or values stored in the index were never destroyed", live().alive - alive);
    CHECK(after <= before, "leak", "%zu bytes are still allocated after the index was destroyed", after - before);
    G().phase = "run";
    ctrs().runs++;
    ctrs().pts += pend_points; ctrs().sw += pend_switches; ctrs().bl += pend_waits;
    for (auto &v : prog) ctrs().nops += v.size();
    for (auto &v : churned) { ctrs().chu += v; v = 0; }
    seen(pend_hash);
  }
  // one program, several schedules
  void run(int schedules) {
    generate();
    uint64_t est = 0;
    Rng save = rng;
    for (int s = 0; s < schedules; s++) {
      rng = save; // identical prefill
      uint64_t v0 = vseq;
      op("program threads=%d D=%u keysel=%d prefill=%d schedule=%d", pf.threads, pf.D, pf.keysel, pf.prefill_pct, s);
      uint64_t ss = mix64(G().seed * 7919 + G().case_no * 131 + s);
      one(ss, est);
      vseq = v0;
    }
    ctrs().progs++;
  }
};
template <class A> void conc_case(const char *name, uint64_t seed, ConcMode mode, int schedules, int maxthreads = 4) {
  G().config = name;
  Conc<A> c(seed, mode);
  A::setup(c.rng);
  c.pf = gen_profile(c.rng, mode, maxthreads, A::maxD);
  c.run(schedules);
}
inline ConcMode conc_mode(const Args &a) {
  std::string s = a.str("mode", "lin");
  return s == "lin" ? LIN : s == "scan" ? SCAN : s == "mem" ? MEM : LIVE;
}
} // namespace vh
