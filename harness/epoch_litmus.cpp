// Real-thread stress of EpochManager, compiled without sanitizers at -O2 so that the hardware's own
// reordering is part of what is observed: readers follow a shared pointer inside an epoch and must
// never see an object that has been reclaimed; every retired object is reclaimed exactly once.
// With VH_RACES (the ThreadSanitizer build) objects carry a plain word that readers read inside their
// sections and the reclaimer overwrites, so that a section has to happen before the reclamation.
#include <cstdint>
#include "indexes/utils/EpochManager.h"
#include "common.h"
#include <deque>
#include <thread>
using namespace indexes::utils;
#ifdef VH_RACES
static constexpr bool RACES = true;
static constexpr auto ST_LD = std::memory_order_acquire, ST_ST = std::memory_order_acq_rel;
#else
static constexpr bool RACES = false;
static constexpr auto ST_LD = std::memory_order_relaxed, ST_ST = std::memory_order_relaxed;
#endif
struct Obj { uint64_t data = 0; std::atomic<uint64_t> gen{0}; std::atomic<int> st{0}; }; // st: 0 free, 1 published/retired
template <int TH> struct Run {
  using EM = EpochManager<uint64_t, Obj, TH>;
  static void go(uint64_t rounds, int readers, int writers, int slots, bool fresh) {
    static vh::Ctr c_ret("retired"), c_reads("reader_sections"), c_cases("cases"), c_busy("pool_waits");
    EM *em = new EM;
    std::vector<std::atomic<Obj *>> g(slots);
    std::vector<std::deque<Obj>> pools(writers);
    for (auto &p : pools) p.resize(64);
    std::vector<Obj> first(slots);
    for (int i = 0; i < slots; i++) { first[i].st = 1; g[i] = &first[i]; }
    std::atomic<int> done{0};
    std::atomic<uint64_t> reads{0}, retired{0}, reclaimed{0}, busy{0}, bad{0}, twice{0}, sums{0};
    std::vector<std::thread> ts;
    for (int r = 0; r < readers; r++) ts.emplace_back([&, r] {
      ThreadRegistry::RegisterThread();
      uint64_t n = 0, sum = 0;
      while (done.load(std::memory_order_relaxed) < writers) {
        em->enter_epoch();
        Obj *o = g[(n + r) % slots].load(std::memory_order_acquire);
        uint64_t gen = o->gen.load(std::memory_order_relaxed);
        if (RACES) sum += o->data;
        for (unsigned k = 0; k <= (n & 31); k++)
          if (!o->st.load(std::memory_order_relaxed) || o->gen.load(std::memory_order_relaxed) != gen) { bad++; break; }
        em->exit_epoch();
        n++;
      }
      reads += n; sums += sum;
      ThreadRegistry::UnregisterThread();
    });
    for (int w = 0; w < writers; w++) ts.emplace_back([&, w] {
      ThreadRegistry::RegisterThread();
      auto &pool = pools[w];
      uint64_t ret = 0, b = 0, at = 0;
      auto rec = [&](Obj *o) { if (RACES) o->data = ~0ull; if (o->st.exchange(0, ST_ST) != 1) twice++; reclaimed.fetch_add(1, std::memory_order_relaxed); };
      for (uint64_t i = 0; i < rounds; i++) {
        // reuse a reclaimed object as soon as possible; objects in another writer's retire list are
        // skipped, and the pool grows when nothing comes back
        if (w == 0 && !(i & 1023)) vh::op("writer round %" PRIu64, i);
        Obj *n = nullptr;
        for (unsigned tries = 0; !n; tries++) {
          Obj *c = &pool[at++ % pool.size()];
          if (!c->st.load(ST_LD)) n = c;
          else if (tries > 4096 && pool.size() < 100000) { pool.emplace_back(); n = &pool.back(); }
          else if (tries % 64 == 63) { em->do_reclaim(); b++; if (tries % 1024 == 1023) std::this_thread::yield(); }
        }
        if (RACES) n->data = i;
        n->gen.fetch_add(1, std::memory_order_relaxed);
        n->st.store(1, RACES ? std::memory_order_release : std::memory_order_relaxed);
        Obj *old = g[i % slots].exchange(n, std::memory_order_acq_rel);
        if (i & 1 || fresh) em->retire_in_new_epoch(rec, old);
        else { em->retire_in_current_epoch(rec, old); em->switch_epoch(); }
        ret++;
      }
      retired += ret; busy += b;
      done++;
      ThreadRegistry::UnregisterThread();
    });
    for (auto &t : ts) t.join();
    CHECK(bad == 0, "reclaimed-in-use", "%" PRIu64 " reads inside an epoch saw an object that had been reclaimed (%d readers, %d writers, threshold %d)", bad.load(), readers, writers, TH);
    em->reclaim_all();
    CHECK(twice == 0, "reclaimed-twice", "%" PRIu64 " objects were reclaimed although they were not retired", twice.load());
    CHECK(reclaimed == retired, "not-reclaimed", "%" PRIu64 " objects were retired but %" PRIu64 " reclaimed with no thread inside an epoch", retired.load(), reclaimed.load());
    delete em;
    CHECK(reclaimed == retired && twice == 0, "reclaimed-twice", "destruction reclaimed objects again");
    c_ret += retired; c_reads += reads; c_busy += busy; c_cases++;
    vh::seen(vh::mix64(reads * 31 + busy + sums * 7));
  }
};
int main(int argc, char **argv) {
  vh::Args a = vh::parse(argc, argv, "epoch_litmus");
  ThreadRegistry::RegisterThread();
  uint64_t cases = a.num("cases", 10), rounds = a.num("rounds", 300000);
  vh::Rng r(vh::G().seed);
  for (uint64_t c = 0; c < cases; c++) {
    vh::G().case_no = c;
    vh::op("case %" PRIu64, c);
    int rd = 1 + (int)r.below(4), wr = 1 + (int)r.below(2), sl = 1 + (int)r.below(2);
    switch (r.below(3)) {
    case 0: Run<1>::go(rounds / wr, rd, wr, sl, r.chance(1, 2)); break;
    case 1: Run<4>::go(rounds / wr, rd, wr, sl, r.chance(1, 2)); break;
    default: Run<32>::go(rounds / wr, rd, wr, sl, r.chance(1, 2)); break;
    }
  }
  vh::finish();
}
