// Preemption at memory accesses.
//
// libspu's objects are compiled with the compiler's access instrumentation; its
// call-outs land here (no sanitizer runtime is linked) and become seeded
// scheduling points: a data race between two threads of a party shows as a
// lost or torn update in some schedule.
#include <cstdint>
#include <cstring>
#include <type_traits>
#include <sys/single_threaded.h>
#include "sim/sim.h"

namespace sim {
extern bool g_race_on;
namespace {
int64_t g_count = INT64_MAX;  // accesses until the next decision
uint64_t g_budget = 0;        // switches left in this execution
Rng g_rng;
bool g_on = false;

int64_t next_gap() {
  const uint64_t m = config().access_gap;
  // mostly short gaps, now and then a long stretch
  return static_cast<int64_t>(1 + g_rng.below(2 * m) + (g_rng.below(8) == 0 ? g_rng.below(20 * m) : 0));
}
}  // namespace

void access_reset(bool start) {
  __libc_single_threaded = 0;  // reference counts stay atomic, as they are in a process with threads
  g_on = start && config().access_gap != 0 && config().policy != Policy::kFifo;
  g_budget = g_on ? config().access_budget : 0;
  g_rng = Rng(config().seed ^ 0xacce55);
  g_count = g_on ? next_gap() : INT64_MAX;
}

__attribute__((noinline)) static void slow() {
  if (!g_on || g_budget == 0) { g_count = INT64_MAX; return; }
  g_count = next_gap();
  if (!active() || !has_ready_sibling()) return;
  --g_budget;
  ++mutable_stats().access_switches;
  yield();
}
}  // namespace sim

#define POINT() do { if (__builtin_expect(--sim::g_count < 0, 0)) sim::slow(); } while (0)
#define ACC(p, n, w) do { POINT(); if (__builtin_expect(sim::g_race_on, 0)) sim::race_access(p, n, w, __builtin_return_address(0)); } while (0)
#define BULK(p, n, w) do { if (__builtin_expect(sim::g_race_on, 0) && (n)) sim::race_access(p, static_cast<unsigned>(n), w, __builtin_return_address(0)); } while (0)
#define ACQ(a) do { POINT(); if (__builtin_expect(sim::g_race_on, 0)) sim::race_acquire(const_cast<const void*>(reinterpret_cast<const volatile void*>(a))); } while (0)
#define SYNC(a) do { if (__builtin_expect(sim::g_race_on, 0)) sim::race_acquire(const_cast<const void*>(reinterpret_cast<const volatile void*>(a))); } while (0)
#define REL(a) do { if (__builtin_expect(sim::g_race_on, 0)) sim::race_release(const_cast<const void*>(reinterpret_cast<const volatile void*>(a))); } while (0)
#define BOTH(a) do { ACQ(a); REL(a); } while (0)
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t; using u128 = unsigned __int128;
template <class T> static bool counts(T v) { return static_cast<std::make_signed_t<T>>(v) > 0; }
template <class T> static bool references(T v, int order) { return sizeof(T) == 8 && order == 2 && (static_cast<u64>(v) >> 32) - 1 < 1000000 && static_cast<u64>(v) != 0x100000001ull; }
extern "C" {
void __tsan_init() {}
#define RW(n) \
  void __tsan_read##n(void* p) { ACC(p, n, false); } void __tsan_write##n(void* p) { ACC(p, n, true); } \
  void __tsan_unaligned_read##n(void* p) { ACC(p, n, false); } void __tsan_unaligned_write##n(void* p) { ACC(p, n, true); } \
  void __tsan_volatile_read##n(void* p) { POINT(); } void __tsan_volatile_write##n(void* p) { POINT(); } \
  void __tsan_read_write##n(void* p) { ACC(p, n, true); } void __tsan_unaligned_read_write##n(void* p) { ACC(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void**) { POINT(); }
void __tsan_vptr_update(void**, void*) { POINT(); }
void __tsan_read_range(void*, unsigned long) { POINT(); }
void __tsan_write_range(void*, unsigned long) { POINT(); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { BULK(s, n, false); BULK(d, n, true); return std::memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { BULK(s, n, false); BULK(d, n, true); return std::memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { BULK(d, n, true); return std::memset(d, c, n); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
// Atomic operations with an ordering count as acquire or release, whichever orderings they ask for.
// Additions do not order: they count (references, identifiers, bytes). The drop of a reference
// orders what comes before it, and is ordered itself only where it is the last one.
#define AT(n, T) \
  T __tsan_atomic##n##_load(const volatile T* a, int o) { POINT(); const T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); if (o && !references(v, o)) SYNC(a); return v; } \
  void __tsan_atomic##n##_store(volatile T* a, T v, int o) { POINT(); if (o) REL(a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { BOTH(a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int o) { POINT(); if (o && !counts(v)) REL(a); const T was = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); if (o && !counts(v) && (o != 4 || was + v == 0)) SYNC(a); return was; } \
  T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { BOTH(a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { BOTH(a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { BOTH(a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { BOTH(a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_nand(volatile T* a, T v, int) { BOTH(a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { BOTH(a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { BOTH(a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int, int) { BOTH(a); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
