// Runtime hooks: compiled WITHOUT coverage instrumentation and linked into the harnesses.
#include "common.h"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#define HAVE_ASAN_ALLOC 1
#endif
#endif
#include <malloc.h>
namespace vh {
volatile int g_in_signal = 0;
volatile uint64_t g_programs = 0;
uint64_t g_steps = 0, g_step_limit = 0, g_edges_total = 0, g_edges_hit = 0;
size_t heap_bytes() {
#ifdef HAVE_ASAN_ALLOC
  return __sanitizer_get_current_allocated_bytes();
#else
  return mallinfo2().uordblks;
#endif
}
} // namespace vh
extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
  if (start == stop || *start) return;
  for (uint32_t *x = start; x < stop; x++) { *x = 1; vh::g_edges_total++; }
}
#ifndef VH_CUSTOM_GUARD
extern "C" __attribute__((no_sanitize("coverage", "address", "undefined"))) void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  if (*g == 1) { *g = 2; vh::g_edges_hit++; }
  if (++vh::g_steps > vh::g_step_limit && vh::g_step_limit) {
    vh::g_step_limit = 0;
    vh::fail("no-termination", "the operation in progress did not finish within its step budget");
  }
}
#endif
