// Stand-in for the external sync_prim library (not vendored in /repo): an exclusive lock with the
// interface the indexes use.  Under the fiber scheduler (VH_SCHED) it is a scheduler-level lock.
#pragma once
#ifdef VH_SCHED
#include "vh_sched.h"
namespace sync_prim::mutex { using Mutex = vh::SchedMutex; }
#else
#include <atomic>
#include <mutex>
namespace sync_prim::mutex {
class Mutex {
  std::mutex m_;
  std::atomic<bool> locked_{false};
public:
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
  Mutex() = default;
  ~Mutex() { pthread_mutex_destroy(m_.native_handle()); } // the race detector must not confuse it with the next mutex at this address
#endif
#endif
  void lock() { m_.lock(); locked_.store(true, std::memory_order_relaxed); }
  bool try_lock() { if (!m_.try_lock()) return false; locked_.store(true, std::memory_order_relaxed); return true; }
  void unlock() { locked_.store(false, std::memory_order_relaxed); m_.unlock(); }
  bool is_locked() const { return locked_.load(std::memory_order_relaxed); }
};
}
#endif
