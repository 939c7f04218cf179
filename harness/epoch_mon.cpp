// Monitor for indexes::utils::EpochManager under the deterministic scheduler (mode=conc: small
// concurrent programs of readers and retirers; mode=seq: long sequential programs acting as several
// threads).  Oracle: an object is reclaimed only when every thread that could have reached it before
// it was unlinked has left its epoch section; exactly once; and whenever nothing can reach it any
// more, the calls that promise reclamation deliver it.
#include <cstdint>
#include <deque>
#include "indexes/utils/EpochManager.h"
#include "common.h"
#include "vh_sched.h"
using namespace indexes::utils;
using namespace vh;
static Ctr c_cases("cases"), c_ret("retired"), c_rec("reclaimed"), c_sec("sections"), c_nest("nested_enters"), c_prot("reclaims_with_active_sections"),
    c_must("must_reclaim_checks"), c_deferred("protected_objects_seen"), c_span("span_retires"), c_dr("do_reclaims"), c_ra("reclaim_alls"), c_thr("threshold_checks"), c_pts("sched_points"), c_sw("context_switches"), c_churn("thread_reregistrations"), c_two("runs_with_two_managers");

// which id each thread has (-1: none); threads of churn programs come and go and take over each other's ids
struct Ids { bool churn = false; std::vector<int> of; int max = 0; };
enum St { LINKED, UNLINKED, RETIRED, RECLAIMED };
struct Obj { St st = LINKED; uint64_t unlinked = 0, fresh = ~0ull; int owner = -1; uint64_t id = 0; };
struct Thr { int depth = 0; uint64_t call = 0, entered = 0; bool active = false; std::vector<int> held; };

template <class E> auto threshold_of(E *e, int) -> decltype(e->get_reclamation_threshold(0)) { return e->get_reclamation_threshold(0); }
template <class E> auto threshold_of(E *e, long) -> decltype(e->get_reclamation_threshold()) { return e->get_reclamation_threshold(); }
template <class ET, int TH> struct World {
  using EM = EpochManager<ET, Obj, TH>;
  Rng rng;
  EM *em = nullptr;
  int nt, nslots, threshold = TH;
  std::deque<Obj> objs;
  std::vector<int> slot;
  Thr th[8];
  bool conc;
  uint64_t nobj = 0, nret = 0, nrec = 0;
  std::vector<uint64_t> pend; // per thread id: retired, not reclaimed
  Ids *ids = nullptr;
  World *peer = nullptr;      // a second manager in use by the same threads
  std::vector<ET> switches;
  World(uint64_t s) : rng(s) {}

  int fresh() { objs.emplace_back(); objs.back().id = ++nobj; return (int)objs.size() - 1; }
  void on_reclaim(Obj *o) {
    struct Out { Out() { sched_leave(); } ~Out() { sched_enter(); } } out; // the oracle itself is atomic
    CHECK(o->st != RECLAIMED, "reclaimed-twice", "object %" PRIu64 " is reclaimed a second time", o->id);
    CHECK(o->st == RETIRED || o->st == UNLINKED, "reclaimed-live", "object %" PRIu64 " is reclaimed but was never retired", o->id);
    for (int t = 0; t < nt; t++) if (th[t].active) {
      c_prot++;
      CHECK(th[t].entered > o->unlinked, "reclaimed-in-use",
            "object %" PRIu64 " (unlinked at %" PRIu64 ") is reclaimed while thread %d, inside an epoch since %" PRIu64 " (depth %d), may still be using it",
            o->id, o->unlinked, t, th[t].entered, th[t].depth);
    }
    o->st = RECLAIMED; nrec++; c_rec++;
    if (o->owner >= 0) pend[o->owner]--;
  }
  std::function<void(Obj *)> rec() { return [this](Obj *o) { on_reclaim(o); }; }
  void enter(int t) {
    Thr &x = th[t];
    if (x.depth == 0) x.call = sched_now(); else c_nest++;
    { OpScope s; em->enter_epoch(); }
    if (x.depth++ == 0) { x.entered = sched_now(); x.active = true; c_sec++; }
  }
  void exit(int t) {
    Thr &x = th[t];
    if (x.depth == 1) {
      for (int o : x.held) CHECK(objs[o].st != RECLAIMED, "reclaimed-in-use", "an object read inside an epoch was reclaimed before the epoch was left");
      x.held.clear(); x.active = false;
    }
    x.depth--;
    { OpScope s; em->exit_epoch(); }
  }
  void read(int t) {
    int o = slot[rng.below(nslots)];
    CHECK(objs[o].st == LINKED, "reclaimed-live", "a linked object was reclaimed");
    if (th[t].active) th[t].held.push_back(o);
  }
  void retire(int t) {
    Obj *v[3]; int n = rng.chance(1, 4) ? (c_span++, 2 + (int)rng.below(2)) : 1;
    bool new_epoch = rng.chance(2, 3);
    std::vector<int> idx;
    for (int i = 0; i < n; i++) {
      int s = (int)rng.below(nslots);
      int o = slot[s];
      slot[s] = fresh();
      objs[o].st = UNLINKED; objs[o].unlinked = sched_now(); objs[o].owner = id();
      v[i] = &objs[o]; idx.push_back(o);
    }
    pend[id()] += n; nret += n; c_ret += n;
    bool other = false;
    for (int i = 0; i < nt; i++) other |= th[i].active;
    op("T%d retire%s n=%d", t, new_epoch ? "_in_new_epoch" : "_in_current_epoch", n);
    {
      OpScope s;
      if (new_epoch) { if (n == 1) em->retire_in_new_epoch(rec(), v[0]); else em->retire_in_new_epoch(rec(), gsl::span<Obj *>(v, n)); }
      else { if (n == 1) em->retire_in_current_epoch(rec(), v[0]); else em->retire_in_current_epoch(rec(), gsl::span<Obj *>(v, n)); }
    }
    for (int o : idx) if (objs[o].st == UNLINKED) objs[o].st = RETIRED;
    if (new_epoch) mark_fresh();
    if (!conc && new_epoch && !other) CHECK(pend[id()] < (uint64_t)threshold, "threshold-ignored",
        "%" PRIu64 " retired objects are kept although no thread is inside an epoch and the threshold is %d", pend[id()], threshold);
  }
  // an epoch has been completed: sections entered from now on do not protect what is retired already
  void mark_fresh() {
    uint64_t n = sched_now();
    for (auto &o : objs) if (o.st == RETIRED && o.fresh == ~0ull) o.fresh = n;
  }
  // objects of thread t (or all, -1) that nothing can reach any more
  void must(int t, uint64_t since, const char *what) {
    uint64_t oldest = ~0ull;
    for (int i = 0; i < nt; i++) if (th[i].active) oldest = std::min(oldest, th[i].call);
    for (auto &o : objs) if (o.st == RETIRED && (t < 0 || o.owner == t)) {
      bool must = oldest == ~0ull || (o.fresh != ~0ull && o.fresh < oldest);
      if (must) fail("not-reclaimed", "%s left object %" PRIu64 " unreclaimed although every thread is outside an epoch or entered one after it was retired", what, o.id);
      c_deferred++;
    }
    c_must++;
  }
  void reclaim(int t) {
    size_t left; { OpScope s; left = em->do_reclaim(); }
    CHECK(left == pend[id()], "pending-count", "do_reclaim says %zu objects are still retired, %" PRIu64 " are", left, pend[id()]);
    c_dr++;
    if (!conc) must(id(), 0, "do_reclaim");
  }
  void sw() {
    ET a = em->now(); ET r; { OpScope s; r = em->switch_epoch(); } ET b = em->now();
    CHECK(r >= a && b > r, "epoch-order", "switch_epoch returned %lld between now()=%lld and now()=%lld", (long long)r, (long long)a, (long long)b);
    for (ET x : switches) CHECK(x != r, "epoch-order", "switch_epoch returned the same epoch twice");
    if (switches.size() > 64) switches.clear();
    switches.push_back(r);
    mark_fresh();
  }
  void leave_and_return(int t) {
    op("T%d leaves", t);
    c_churn++;
    if (conc) { ThreadRegistry::UnregisterThread(); ThreadRegistry::RegisterThread(); return; }
    ids->of[t] = -1;
  }
  int id() { return ThreadRegistry::ThreadID(); }
  void act_as(int t) {
    auto &of = ids->of;
    if (of[t] < 0) { int i = 0; while (std::find(of.begin(), of.end(), i) != of.end()) i++; of[t] = i; op("T%d comes back with id %d", t, i); }
    for (int i : of) ids->max = std::max(ids->max, i);
    sched_force_tid(of[t], ids->max);
  }
  void step(int t) {
    Thr &x = th[t];
    if (ids->churn && !x.depth && !(peer && peer->th[t].depth) && rng.chance(1, 8)) { leave_and_return(t); if (!conc) return; }
    switch (rng.below(12)) {
    case 0: case 1: case 2: if (x.depth < 3) { op("T%d enter depth=%d", t, x.depth); enter(t); } break;
    case 3: case 4: case 5: if (x.depth) { op("T%d exit depth=%d", t, x.depth); exit(t); } break;
    case 6: case 7: read(t); break;
    case 8: case 9: retire(t); break;
    case 10: op("T%d do_reclaim", t); reclaim(t); break;
    default: if (rng.chance(1, 2)) { op("T%d switch", t); sw(); } else if (x.depth) {
      ET e; { OpScope s; e = em->my_epoch(); }
      CHECK(e <= em->now(), "epoch-order", "my_epoch() is ahead of now()");
    }
    }
  }
  void finish_(uint64_t seed) {
    for (int t = 0; t < nt; t++) { if (!conc && th[t].depth) act_as(t); while (th[t].depth) exit(t); }
    conc = false;
    bool all = rng.chance(1, 2);
    if (all) { em->reclaim_all(); c_ra++; must(-1, 0, "reclaim_all"); CHECK(nrec == nret, "not-reclaimed", "reclaim_all with no thread inside an epoch reclaimed %" PRIu64 " of %" PRIu64, nrec, nret); }
    delete em; em = nullptr;
    CHECK(nrec == nret, "not-reclaimed", "%" PRIu64 " of %" PRIu64 " retired objects were never reclaimed, not even by the destructor", nret - nrec, nret);
    sched_force_tid(-1, 0);
  }
  void setup(bool c, Ids *i) {
    conc = c; ids = i; nt = (int)ids->of.size();
    nslots = 1 + (int)rng.below(4);
    pend.assign(nt + 1, 0);
    em = new EM; threshold = TH;
    for (int i = 0; i < nslots; i++) slot.push_back(fresh());
    if (rng.chance(1, 3)) { static const int ths[] = {1, 2, 3, 8, 50}; threshold = ths[rng.below(5)]; em->set_reclamation_threshold(threshold); }
    if (rng.chance(1, 2)) em->set_reclamation_threshold(-(int)rng.below(2)); // ignored
    int t = threshold_of(em, 0);
    CHECK(t == threshold, "threshold", "the reclamation threshold is %d after it was set to %d", t, threshold);
    c_thr++;
  }
  static Ids make_ids(Rng &rng) {
    Ids r; r.churn = rng.chance(1, 3);
    r.of.resize(2 + rng.below(3));
    for (int t = 0; t < (int)r.of.size(); t++) r.of[t] = r.churn ? -1 : t;
    return r;
  }
  void pair_up(World *o) { peer = o; if (o) o->peer = this; }
  void one(int t) {
    act_as(t);
    step(t);
    if (rng.chance(1, 40)) { act_as(t); op("reclaim_all"); em->reclaim_all(); c_ra++; must(-1, 0, "reclaim_all"); }
  }
  void seq(uint64_t seed, World *o) {
    Ids is = make_ids(rng);
    setup(false, &is);
    int n = 20 + (int)rng.below(200), start = (int)rng.below(n);
    for (int i = 0; i < n; i++) {
      int t = (int)rng.below(nt);
      if (o && i == start) { act_as(t); o->setup(false, &is); pair_up(o); c_two++; }
      (peer && rng.chance(1, 2) ? o : this)->one(t);
    }
    if (o) for (int t = 0; t < nt; t++) { while (th[t].depth) { act_as(t); exit(t); } }
    if (o && rng.chance(1, 2)) { // the other one outlives this one
      finish_(seed); pair_up(nullptr); o->peer = nullptr;
      for (int i = 0; i < 20; i++) o->one((int)rng.below(nt));
      o->finish_(seed);
    } else { finish_(seed); if (o) o->finish_(seed); }
    seen(mix64(nret * 1315423911u ^ nrec ^ seed));
  }
  uint64_t conc_(uint64_t seed, uint64_t &est, World *o) {
    Ids is = make_ids(rng);
    setup(true, &is); pair_up(o); if (o) { o->setup(true, &is); c_two++; }
    std::vector<std::function<void()>> b;
    // fibers are thread ids 1..nt; thread slot 0 is the harness
    for (int t = 0; t < nt; t++) {
      int n = 4 + (int)rng.below(12);
      b.push_back([this, t, n, o] { ThreadRegistry::RegisterThread(); for (int i = 0; i < n; i++) (o && rng.chance(1, 2) ? o : this)->step(t); while (th[t].depth) exit(t); if (o) while (o->th[t].depth) o->exit(t); ThreadRegistry::UnregisterThread(); });
    }
    SchedCfg c; c.seed = seed; c.churn = is.churn;
    if (rng.chance(1, 2)) { c.kind = SchedCfg::PRIO; c.changes = 1 + (int)rng.below(6); c.est_len = est ? est : 3000; }
    else { static const uint64_t means[] = {2, 4, 8, 16, 40, 100}; c.mean = means[rng.below(6)]; }
    c.max_points = 5000000;
    auto s = sched_run(c, b.data(), nt);
    est = s.points;
    c_pts += s.points; c_sw += s.switches;
    finish_(seed); if (o) o->finish_(seed);
    seen(s.hash);
    return s.hash;
  }
};
template <class ET, int TH> void go(uint64_t s, bool conc, const char *cfg) {
  G().config = cfg;
  bool two = mix64(s ^ 2) % 4 == 0;
  if (!conc) { World<ET, TH> w(s), o(s ^ 99); w.seq(s, two ? &o : nullptr); return; }
  uint64_t est = 0;
  for (int k = 0; k < 3; k++) { World<ET, TH> w(mix64(s) + k), o(mix64(s) ^ k); w.conc_(mix64(s + 17 * k), est, two ? &o : nullptr); }
}
int main(int argc, char **argv) {
  Args a = parse(argc, argv, "epoch_mon");
  bool conc = a.str("mode", "conc") == "conc";
  uint64_t cases = a.num("cases", 100), from = a.num("from", 0);
  for (uint64_t c = from; c < from + cases; c++) {
    G().case_no = c;
    uint64_t s = mix64(G().seed * 1000003 + c);
    switch (c % 4) {
    case 0: go<uint64_t, 1>(s, conc, "u64-1"); break;
    case 1: go<uint64_t, 4>(s, conc, "u64-4"); break;
    case 2: go<int, 2>(s, conc, "int-2"); break;
    default: go<uint32_t, 30>(s, conc, "u32-30"); break;
    }
    c_cases++;
  }
  finish();
}
