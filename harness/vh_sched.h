// Deterministic cooperative scheduler: logical threads are fibers of one OS thread; a fiber can lose
// the CPU at every instrumented memory access / basic block of the code under test, at lock
// operations, sleeps and yields.  A schedule is a pure function of its seed.
#pragma once
#include <cstdint>
#include <functional>
namespace vh {
int sched_tid();
int sched_max_tid();
void sched_register();   // churn programs: take the lowest free id / give it back; no-ops otherwise
void sched_unregister();
void sched_force_tid(int tid, int max); // sequential programs: act as thread `tid` outside sched_run (-1 = off)

class SchedMutex {
  int owner_ = -1;  // fiber id + 1000, or -1
public:
  SchedMutex() = default;
  SchedMutex(const SchedMutex &) = delete;
  SchedMutex &operator=(const SchedMutex &) = delete;
  void lock();
  bool try_lock();
  void unlock();
  bool is_locked() const { return owner_ != -1; }
};

struct SchedStats { uint64_t points = 0, switches = 0, preemptions = 0, blocks = 0, hash = 0; };
struct SchedCfg {
  enum Kind { RANDOM, PRIO, STALL } kind = RANDOM;
  uint64_t seed = 1;
  uint64_t mean = 50;        // RANDOM, STALL: mean number of points between preemptions
  uint64_t stall = 3000;     // STALL: a preempted fiber often loses the CPU for about so many points
  int victim = -1;           // STALL: the only fiber that is held up (-1 = any)
  int changes = 3;           // PRIO: number of priority change points
  uint64_t est_len = 20000;  // PRIO: range the change points are drawn from
  bool churn = false;        // threads start without an id and take one when they register
  uint64_t max_points = 0;   // hard bound on the length of one execution (0 = 20M)
};
// Runs the bodies to completion under the schedule; returns statistics.
SchedStats sched_run(const SchedCfg &cfg, std::function<void()> *bodies, int n);
// Marks code that may be preempted (only calls into the code under test are).
void sched_enter();
void sched_leave();
void sched_yield_point(); // explicit yield (fair)
bool sched_active();
uint64_t sched_now(); // logical clock, strictly increasing
struct OpScope { OpScope() { sched_enter(); } ~OpScope() { sched_leave(); } };
} // namespace vh
