// Stand-in for the external sync_prim library: small dense ids for registered threads.
#pragma once
#ifdef VH_SCHED
#include "vh_sched.h"
namespace sync_prim {
struct ThreadRegistry {
  static constexpr int MAX_THREADS = 16;
  static bool RegisterThread() { vh::sched_register(); return true; }
  static void UnregisterThread() { vh::sched_unregister(); }
  static int ThreadID() { return vh::sched_tid(); }
  static int MaxThreadID() { return vh::sched_max_tid(); }
};
}
#else
#include <atomic>
#include <mutex>
namespace sync_prim {
class ThreadRegistry {
public:
  static constexpr int MAX_THREADS = 64;
private:
  struct S { std::mutex m; bool used[MAX_THREADS] = {}; std::atomic<int> maxid{-1}; };
  static S &s() { static S *x = new S; return *x; }
  static int &my() { static thread_local int id = -1; return id; }
public:
  static bool RegisterThread() {
    if (my() >= 0) return true;
    std::lock_guard<std::mutex> l(s().m);
    for (int i = 0; i < MAX_THREADS; i++) if (!s().used[i]) {
      s().used[i] = true; my() = i;
      if (i > s().maxid.load()) s().maxid.store(i);
      return true;
    }
    return false;
  }
  static void UnregisterThread() {
    std::lock_guard<std::mutex> l(s().m);
    if (my() >= 0) { s().used[my()] = false; my() = -1; }
  }
  static int ThreadID() { return my(); }
  static int MaxThreadID() { return s().maxid.load(); }
};
}
#endif
