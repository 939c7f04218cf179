// Stand-in for the external sync_prim library (not vendored in /repo): an exclusive lock with the
// interface the indexes use.  Under the fiber scheduler (VH_SCHED) it is a scheduler-level lock.
#pragma once
#include <atomic>
#include <mutex>
namespace sync_prim::mutex {
class Mutex {
  std::mutex m_;
  std::atomic<bool> locked_{false};
public:
  void lock() { m_.lock(); locked_.store(true, std::memory_order_relaxed); }
  bool try_lock() { if (!m_.try_lock()) return false; locked_.store(true, std::memory_order_relaxed); return true; }
  void unlock() { locked_.store(false, std::memory_order_relaxed); m_.unlock(); }
  bool is_locked() const { return locked_.load(std::memory_order_relaxed); }
};
}
