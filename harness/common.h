// Shared harness runtime: RNG, verdict reporting, step budget, evidence counters, lifetime registry.
#pragma once
#include <atomic>
#include <cinttypes>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#ifndef NOCOV
#define NOCOV __attribute__((no_sanitize("coverage")))
#endif

namespace vh {

// ---------------------------------------------------------------- RNG
inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
  NOCOV uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
  NOCOV uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  NOCOV int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  NOCOV bool chance(unsigned num, unsigned den) { return below(den) < num; }
  template <class C> auto &pick(C &c) { return c[below(c.size())]; }
};

// ---------------------------------------------------------------- global state
struct Global {
  const char *harness = "?";
  uint64_t seed = 1;
  uint64_t case_no = 0;
  const char *phase = "init";
  std::string config;
  std::vector<std::string> log; // tail of the operation log
  bool in_fail = false;
};
inline Global &G() { static Global *g = new Global; return *g; }

// ring buffer of operations in fixed memory so that heap accounting is not disturbed
struct OpLog {
  static constexpr int N = 48, L = 96;
  char buf[N][L];
  uint64_t n = 0;
};
inline OpLog &oplog() { static OpLog l; return l; }
__attribute__((format(printf, 1, 2))) NOCOV inline void op(const char *fmt, ...) {
  OpLog &l = oplog();
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(l.buf[l.n % OpLog::N], OpLog::L, fmt, ap);
  va_end(ap);
  l.n++;
}
inline void dump_oplog() {
  OpLog &l = oplog();
  uint64_t from = l.n > OpLog::N ? l.n - OpLog::N : 0;
  printf("-- last operations (%" PRIu64 " recorded in this run) --\n", l.n);
  for (uint64_t i = from; i < l.n; i++)
    printf("  #%" PRIu64 " %s\n", i, l.buf[i % OpLog::N]);
}

[[noreturn]] __attribute__((format(printf, 2, 3))) inline void fail(const char *sig, const char *fmt, ...) {
  char msg[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(msg, sizeof msg, fmt, ap);
  va_end(ap);
  Global &g = G();
  if (g.in_fail) _exit(1);
  g.in_fail = true;
  for (char *p = msg; *p; p++) if (*p == '\n') *p = ' ';
  fflush(stdout);
  printf("\n@VIOL %s | %s | harness=%s config=%s seed=%" PRIu64 " case=%" PRIu64 " phase=%s\n", sig, msg,
         g.harness, g.config.c_str(), g.seed, g.case_no, g.phase);
  dump_oplog();
  fflush(stdout);
  _exit(1);
}
#define CHECK(cond, sig, ...) do { if (!(cond)) ::vh::fail(sig, __VA_ARGS__); } while (0)

// ---------------------------------------------------------------- counters
inline std::map<std::string, uint64_t> &counters() { static auto *m = new std::map<std::string, uint64_t>; return *m; }
struct Ctr { // cached counter handle
  uint64_t &v;
  explicit Ctr(const char *n) : v(counters()[n]) {}
  NOCOV void operator++(int) { v++; }
  NOCOV void operator+=(uint64_t d) { v += d; }
};
// distinct nontrivial observations (hashes); bounded memory
inline std::unordered_set<uint64_t> &distinct() { static auto *s = new std::unordered_set<uint64_t>; return *s; }
NOCOV inline void seen(uint64_t h) { if (distinct().size() < 4000000) distinct().insert(h); }

// ---------------------------------------------------------------- step budget (logical watchdog)
extern volatile uint64_t g_programs; // real-thread programs started so far
extern uint64_t g_steps;        // basic-block edges executed
extern uint64_t g_step_limit;   // absolute limit, 0 = none
extern uint64_t g_edges_total, g_edges_hit;
NOCOV inline void budget(uint64_t n) { g_step_limit = g_steps + n; }
NOCOV inline void no_budget() { g_step_limit = 0; }

// ---------------------------------------------------------------- heap accounting (ASan builds)
size_t heap_bytes();

// ---------------------------------------------------------------- object lifetime registry
struct Live {
  int64_t alive = 0;
  uint64_t made = 0, destroyed = 0;
};
inline Live &live() { static Live l; return l; }

// A value with a heap-backed payload and canaries: any read of an instance that was never
// constructed, was already destroyed, or was bit-copied is detected deterministically.
class Tracked {
  uint64_t magic;
  Tracked *self;
  int64_t *payload;
  static constexpr uint64_t ALIVE = 0xA11FE0B7EC7ULL, DEAD = 0xDEADDEADDEADULL;

public:
  void verify(const char *what) const {
    if (magic != ALIVE || self != this)
      fail("lifetime", "%s on an object that is not alive (magic=%" PRIx64 ")", what, magic);
  }
  Tracked(int64_t v = 0) : magic(ALIVE), self(this), payload(new int64_t(v)) { live().alive++; live().made++; }
  Tracked(const Tracked &o) : magic(0), self(nullptr), payload(nullptr) {
    o.verify("copy");
    magic = ALIVE; self = this; payload = new int64_t(*o.payload);
    live().alive++; live().made++;
  }
  Tracked &operator=(const Tracked &o) {
    verify("assignment to"); o.verify("assignment from");
    *payload = *o.payload;
    return *this;
  }
  ~Tracked() {
    verify("destruction");
    magic = DEAD; self = nullptr;
    delete payload; payload = nullptr;
    live().alive--; live().destroyed++;
  }
  int64_t get() const { verify("read"); return *payload; }
  friend bool operator<(const Tracked &a, const Tracked &b) { return a.get() < b.get(); }
  friend bool operator==(const Tracked &a, const Tracked &b) { return a.get() == b.get(); }
  friend bool operator!=(const Tracked &a, const Tracked &b) { return a.get() != b.get(); }
};

// ---------------------------------------------------------------- args & final evidence line
struct Args {
  std::map<std::string, std::string> kv;
  std::string str(const char *k, const char *d) const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
  uint64_t num(const char *k, uint64_t d) const { auto i = kv.find(k); return i == kv.end() ? d : strtoull(i->second.c_str(), 0, 0); }
};
// CPU-time watchdog: fires when one and the same operation has burnt 25 s of CPU time (an operation
// normally takes microseconds); catches loops the optimiser left without instrumented edges.
// Real-thread programs last milliseconds; there, 40 s of CPU time for one program is a livelock, also when it
// goes round through instrumented edges.
extern volatile int g_in_signal; // no scheduling points inside the handler
NOCOV __attribute__((no_sanitize("thread"))) inline void watchdog_tick(int) {
  static uint64_t last = ~0ull; static int same = 0;
  static uint64_t plast = ~0ull; static int psame = 0;
  struct InSig { NOCOV InSig() { g_in_signal = 1; } NOCOV ~InSig() { g_in_signal = 0; } } insig;
  uint64_t now = oplog().n * 1000003 + g_steps / 50000000;
  if (g_programs && plast == g_programs) { if (++psame >= 40) fail("no-termination", "the threads of one short program used 40 s of CPU time without finishing"); }
  else { plast = g_programs; psame = 0; }
  if (now != last) { last = now; same = 0; return; }
  if (++same >= 25) fail("no-termination", "the operation in progress used 25 s of CPU time without finishing");
}
inline void watchdog() {
  signal(SIGVTALRM, watchdog_tick);
  struct itimerval t = {{1, 0}, {1, 0}};
  setitimer(ITIMER_VIRTUAL, &t, nullptr);
}
inline Args parse(int argc, char **argv, const char *harness) {
  Args a;
  for (int i = 1; i < argc; i++) {
    std::string s = argv[i];
    auto p = s.find('=');
    if (p == std::string::npos) a.kv[s] = "1"; else a.kv[s.substr(0, p)] = s.substr(p + 1);
  }
  G().harness = harness;
  G().seed = a.num("seed", 1);
  watchdog();
  setvbuf(stdout, nullptr, _IOLBF, 0);
  return a;
}
// Known findings (known_findings.txt, given by check.py): listed() says whether the finding is listed,
// known() also records that it showed again. A deviation that no listed finding covers is a violation.
inline bool listed(const char *sig) {
  static const std::string l = getenv("VERIF_KNOWN") ? getenv("VERIF_KNOWN") : "";
  return l.find("," + std::string(sig) + ",") != std::string::npos;
}
inline std::map<std::string, uint64_t> &known_hits() { static auto *m = new std::map<std::string, uint64_t>; return *m; }
inline bool known(const char *sig) {
  if (!listed(sig)) return false;
  known_hits()[sig]++;
  return true;
}
// Does f end the process (assertion, sanitizer report, signal)?  Run in a child, output discarded.
template <class F> bool dies(F f, unsigned seconds = 30) {
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    FILE *o = freopen("/dev/null", "w", stdout), *e = freopen("/dev/null", "w", stderr);
    (void)o; (void)e;
    alarm(seconds);
    f();
    _exit(0);
  }
  int st = 0;
  if (p < 0 || waitpid(p, &st, 0) != p) { printf("fork failed\n"); exit(3); }
  return st != 0;
}
inline void finish() {
  no_budget();
  for (auto &k : known_hits()) printf("@KNOWN %s %" PRIu64 "\n", k.first.c_str(), k.second);
  printf("@EVID {\"distinct\": %zu, \"steps\": %" PRIu64 ", \"edges_hit\": %" PRIu64 ", \"edges_total\": %" PRIu64,
         distinct().size(), g_steps, g_edges_hit, g_edges_total);
  for (auto &kv : counters()) printf(", \"%s\": %" PRIu64, kv.first.c_str(), kv.second);
  printf("}\n");
  fflush(stdout);
}
} // namespace vh
