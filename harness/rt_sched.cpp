// Runtime of the fiber scheduler; compiled without coverage instrumentation.
#define VH_CUSTOM_GUARD 1
#include "rt.cpp"
#include "vh_sched.h"
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#include <sys/mman.h>
#include <time.h>
#include <pthread.h>
extern "C" void vh_switch(void **save_sp, void *new_sp);
asm(R"(
.text
.globl vh_switch
.type vh_switch,@function
vh_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size vh_switch,.-vh_switch
)");
namespace vh {
static constexpr int MAXF = 12;
static constexpr size_t STK = 512 * 1024;
struct Fiber {
  void *sp = nullptr;
  void *stack = nullptr;
  void *fake = nullptr;
  std::function<void()> *body = nullptr;
  bool done = true, blocked = false;
  int inop = 0;
  int tid = -1;
  uint64_t prio = 0;
  const SchedMutex *waiting = nullptr;
};
static Fiber F[MAXF];
static int nf = 0, cur = -1;
static bool on = false;
static void *mainsp;
static void *mainfake;
static const void *mainstk; static size_t mainsz;
static uint64_t countdown = ~0ull;
static SchedCfg cfg;
static Rng rng(1);
static SchedStats st;
static uint64_t clk = 0, slice = 0, points_limit = 0;
static uint64_t change_at[16]; static int nchange = 0, nextchange = 0;
static uint64_t lowprio = 0;
static int stalled = -1; static uint64_t stall_until = 0;

bool sched_active() { return on; }
static int forced = -1, forced_max = 0;
int sched_tid() { return on && cur >= 0 ? F[cur].tid : forced >= 0 ? forced : 0; }
static int maxtid = 0;
int sched_max_tid() { return forced >= 0 ? forced_max : maxtid; }
void sched_force_tid(int tid, int max) { forced = tid; forced_max = max; }
void sched_register() {
  if (!on || cur < 0 || !cfg.churn || F[cur].tid >= 0) return;
  int id = 1;
  for (int i = 0; i < nf; i++) if (F[i].tid == id) { id++; i = -1; }
  F[cur].tid = id;
  if (id > maxtid) maxtid = id;
}
void sched_unregister() {
  if (!on || cur < 0 || !cfg.churn) return;
  F[cur].tid = -1;
  sched_yield_point();
}
uint64_t sched_now() { return ++clk; }

static void arm() {
  if (cfg.kind == SchedCfg::PRIO) {
    countdown = nextchange < nchange ? (change_at[nextchange] > st.points ? change_at[nextchange] - st.points : 1) : 30000;
  } else {
    // geometric-ish: uniform in [1, 2*mean], occasionally a long run
    uint64_t m = cfg.mean;
    if (rng.chance(1, 8)) m *= 1 + rng.below(20);
    countdown = 1 + rng.below(2 * m);
  }
  if (countdown > 30000) countdown = 30000;
  slice = countdown;
}
__attribute__((no_sanitize("address"))) static void switch_to(int next) {
  int prev = cur;
  if (next == prev) { arm(); return; }
  st.switches++;
  st.hash = mix64(st.hash ^ (uint64_t)(next + 1) ^ (st.points << 4));
  cur = next;
  arm();
  Fiber &n = F[next];
  if (prev >= 0) {
    Fiber &p = F[prev];
    __sanitizer_start_switch_fiber(p.done ? nullptr : &p.fake, n.stack, STK);
    vh_switch(&p.sp, n.sp);
    __sanitizer_finish_switch_fiber(p.fake, nullptr, nullptr);
  } else {
    __sanitizer_start_switch_fiber(&mainfake, n.stack, STK);
    vh_switch(&mainsp, n.sp);
    __sanitizer_finish_switch_fiber(mainfake, nullptr, nullptr);
  }
}
static void to_main() {
  int prev = cur; cur = -1;
  countdown = ~0ull;
  Fiber &p = F[prev];
  __sanitizer_start_switch_fiber(nullptr, mainstk, mainsz);
  vh_switch(&p.sp, mainsp);
  abort();
}
static int pick(bool allow_cur) {
  int cand[MAXF], c = 0;
  for (int i = 0; i < nf; i++) if (!F[i].done && !F[i].blocked && (allow_cur || i != cur)) cand[c++] = i;
  if (!c) return -1;
  if (cfg.kind == SchedCfg::STALL && stalled >= 0) {
    if (st.points >= stall_until) { // often the first thing to run when its time is over
      int s = stalled; stalled = -1;
      if (rng.chance(2, 3)) for (int i = 0; i < c; i++) if (cand[i] == s) return s;
    } else if (c > 1) for (int i = 0; i < c; i++) if (cand[i] == stalled) { cand[i] = cand[--c]; break; }
  }
  if (cfg.kind == SchedCfg::PRIO) {
    int b = cand[0];
    for (int i = 1; i < c; i++) if (F[cand[i]].prio > F[b].prio) b = cand[i];
    return b;
  }
  return cand[rng.below(c)];
}
static void reschedule(bool demote, bool fair) {
  if (demote && cfg.kind == SchedCfg::PRIO) F[cur].prio = --lowprio;
  int n = pick(!fair);
  if (n < 0) { arm(); return; }
  if (n != cur) st.preemptions++;
  switch_to(n);
}
static void block_switch() {
  int n = pick(false);
  if (n < 0) fail("deadlock", "every unfinished thread waits for a lock");
  st.blocks++;
  switch_to(n);
}
void sched_enter() { if (on && cur >= 0) F[cur].inop++; }
void sched_leave() { if (on && cur >= 0) F[cur].inop--; }
void sched_yield_point() { if (on && cur >= 0) { st.points++; reschedule(true, true); } }

__attribute__((no_sanitize("coverage"))) static inline void point() {
  if (!on || g_in_signal) return;
  if (--countdown) return;
  Fiber &f = F[cur];
  if (f.inop <= 0) { countdown = 1 + (clk & 7); return; }
  st.points += slice;
  if (st.points > points_limit) fail("no-termination", "%d threads did not finish their operations within %" PRIu64 " scheduling points", nf, points_limit);
  if (cfg.kind == SchedCfg::PRIO) { if (nextchange < nchange) nextchange++; reschedule(true, false); }
  else {
    if (cfg.kind == SchedCfg::STALL && stalled < 0 && (cfg.victim < 0 ? rng.chance(1, 2) : cur == cfg.victim)) { stalled = cur; stall_until = st.points + 1 + rng.below(2 * cfg.stall); }
    reschedule(false, false);
  }
}

// harness-side misuse checks double as monitors of the locking discipline
void SchedMutex::lock() {
  if (!on || cur < 0) {
    if (owner_ != -1) fail("lock-left-held", "a lock is still held although every operation has returned");
    owner_ = 999; return;
  }
  if (owner_ == 1000 + cur) fail("self-deadlock", "a thread locks a lock it already holds");
  st.points++;
  if (rng.chance(1, 4)) reschedule(false, false);
  while (owner_ != -1) {
    F[cur].blocked = true; F[cur].waiting = this;
    block_switch();
  }
  owner_ = 1000 + cur;
}
bool SchedMutex::try_lock() {
  if (on && cur >= 0 && rng.chance(1, 4)) { st.points++; reschedule(false, false); }
  if (owner_ != -1) return false;
  owner_ = on && cur >= 0 ? 1000 + cur : 999;
  return true;
}
void SchedMutex::unlock() {
  int me = on && cur >= 0 ? 1000 + cur : 999;
  if (owner_ != me) fail("unlock-not-owner", "a thread unlocks a lock it does not hold");
  owner_ = -1;
  if (!on) return;
  for (int i = 0; i < nf; i++) if (F[i].blocked && F[i].waiting == this) { F[i].blocked = false; F[i].waiting = nullptr; }
  if (cur >= 0 && rng.chance(1, 4)) { st.points++; reschedule(false, false); }
}

static void entry() {
  __sanitizer_finish_switch_fiber(nullptr, nullptr, nullptr);
  (*F[cur].body)();
  F[cur].done = true;
  int n = pick(false);
  if (n < 0) {
    for (int i = 0; i < nf; i++) if (!F[i].done) fail("deadlock", "every unfinished thread waits for a lock");
    to_main();
  }
  switch_to(n);
  abort();
}
__attribute__((no_sanitize("address"))) static void get_main_stack() {
  pthread_attr_t a; void *lo; size_t sz;
  pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &lo, &sz); pthread_attr_destroy(&a);
  mainstk = lo; mainsz = sz;
}
SchedStats sched_run(const SchedCfg &c, std::function<void()> *bodies, int n) {
  if (!mainstk) get_main_stack();
  cfg = c; rng = Rng(c.seed); st = SchedStats(); nf = n; cur = -1;
  points_limit = c.max_points ? c.max_points : 20000000;
  lowprio = 1000; stalled = -1; maxtid = c.churn ? 0 : n;
  for (int i = 0; i < n; i++) {
    Fiber &f = F[i];
    if (!f.stack) f.stack = mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    __asan_unpoison_memory_region(f.stack, STK);
    f.done = f.blocked = false; f.inop = 0; f.body = &bodies[i]; f.waiting = nullptr; f.fake = nullptr; f.tid = c.churn ? -1 : i + 1;
    f.prio = 2000 + rng.below(1000000);
    // initial frame: control words, six callee-saved registers, entry point, alignment
    uint64_t *sp = (uint64_t *)((char *)f.stack + STK - 64);
    *--sp = 0;                 // fake return address of entry (keeps the stack 16-byte aligned)
    *--sp = (uint64_t)&entry;
    for (int k = 0; k < 6; k++) *--sp = 0;
    uint32_t mx; uint16_t cw;
    asm volatile("stmxcsr %0" : "=m"(mx)); asm volatile("fnstcw %0" : "=m"(cw));
    *--sp = (uint64_t)mx | (uint64_t)cw << 32;
    f.sp = sp;
  }
  nchange = c.kind == SchedCfg::PRIO ? c.changes : 0; nextchange = 0;
  if (nchange > 16) nchange = 16;
  for (int i = 0; i < nchange; i++) change_at[i] = 1 + rng.below(c.est_len);
  for (int i = 0; i < nchange; i++) for (int j = i + 1; j < nchange; j++) if (change_at[j] < change_at[i]) std::swap(change_at[i], change_at[j]);
  on = true;
  int first = pick(true);
  switch_to(first);
  on = false; countdown = ~0ull;
  return st;
}
} // namespace vh
extern "C" {
#define NC __attribute__((no_sanitize("coverage", "address", "undefined")))
NC void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  if (*g == 1) { *g = 2; vh::g_edges_hit++; }
  if (++vh::g_steps > vh::g_step_limit && vh::g_step_limit) {
    vh::g_step_limit = 0;
    vh::fail("no-termination", "the operation in progress did not finish within its step budget");
  }
  vh::point();
}
NC void __sanitizer_cov_load1(void *) { vh::point(); }
NC void __sanitizer_cov_load2(void *) { vh::point(); }
NC void __sanitizer_cov_load4(void *) { vh::point(); }
NC void __sanitizer_cov_load8(void *) { vh::point(); }
NC void __sanitizer_cov_load16(void *) { vh::point(); }
NC void __sanitizer_cov_store1(void *) { vh::point(); }
NC void __sanitizer_cov_store2(void *) { vh::point(); }
NC void __sanitizer_cov_store4(void *) { vh::point(); }
NC void __sanitizer_cov_store8(void *) { vh::point(); }
NC void __sanitizer_cov_store16(void *) { vh::point(); }
// sleeping and yielding inside the code under test are scheduling points, not real delays
int nanosleep(const struct timespec *, struct timespec *) { vh::sched_yield_point(); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { vh::sched_yield_point(); return 0; }
int sched_yield(void) { vh::sched_yield_point(); return 0; }
}
