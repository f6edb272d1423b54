// Link-time interposition: threads, locks, condition variables, one-time init,
// clocks and std::random_device become operations of the simulator whenever the
// caller runs inside a simulated execution.
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <future>
#include <pthread.h>
#include <random>
#include <sys/syscall.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

#include "sim/sim.h"

namespace sim {
bool running();
namespace {
struct Mutex { int owner = -1; int depth = 0; WaitQ q; };
struct RwLock { int writer = -1; int readers = 0; WaitQ q; };
struct Cond { WaitQ q; };
struct Thread { Task task; void* ret = nullptr; };
struct Tables {
  std::unordered_map<void*, Mutex> mtx;
  std::unordered_map<void*, RwLock> rw;
  std::unordered_map<void*, Cond> cv;
  std::unordered_map<void*, WaitQ> once, guard, fut;
  std::unordered_map<uint64_t, Thread> threads;
  uint64_t rd_ctr = 0;
};
Tables* t = nullptr;
Tables& T() { if (!t) t = new Tables; return *t; }
constexpr uint64_t kBase = 0x5100000000ULL;

void lock(void* m, bool recursive_ok) {
  maybe_yield(config().p_lock_yield);
  ++mutable_stats().locks;
  Mutex& x = T().mtx[m];
  int me = current_task();
  if (x.owner == me && recursive_ok) { ++x.depth; return; }
  while (x.owner != -1) { block(T().mtx[m].q, 0, x.owner == me ? "mutex (self deadlock)" : "mutex"); }
  x.owner = me; x.depth = 1;
  race_acquire(m);
}
void unlock(void* m) {
  Mutex& x = T().mtx[m];
  if (--x.depth > 0) return;
  race_release(m);
  x.owner = -1; x.depth = 0;
  wake_one(x.q);
}
uint64_t abs_to_us(const timespec* ts) {  // absolute (virtual) deadline -> relative us
  uint64_t a = uint64_t(ts->tv_sec) * 1000000 + ts->tv_nsec / 1000;
  uint64_t n = now_us() + 1000000000000ULL;  // virtual epoch
  return a > n ? a - n : 1;
}
}  // namespace
void threads_reset() { t = nullptr; }
uint64_t rd_draw();
uint64_t entropy_u64();
}  // namespace sim

using sim::active;

extern "C" {
int pthread_create(pthread_t* th, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
  if (!active()) {
    using F = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    static F real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "pthread_create"));
    return real(th, nullptr, fn, arg);
  }
  ++sim::mutable_stats().threads;
  uint64_t id = sim::kBase + sim::T().threads.size() + 1;
  auto* slot = &sim::T().threads[id];
  sim::probe("library_thread_started");
  auto task = sim::spawn([slot, fn, arg] {
    // An exception that leaves a thread function ends the process, joined or not.
    try { slot->ret = fn(arg); } catch (const std::exception& e) { std::fprintf(stderr, "std::terminate: exception escaped a thread: %s\n", e.what()); std::abort(); }
  }, "thread", sim::current_party());
  slot->task = task;
  *th = static_cast<pthread_t>(id);
  sim::maybe_yield(sim::config().p_yield);
  return 0;
}
int pthread_join(pthread_t th, void** ret) {
  auto it = sim::T().threads.find(th);
  if (it == sim::T().threads.end()) {
    using F = int (*)(pthread_t, void**);
    static F real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "pthread_join"));
    return real(th, ret);
  }
  sim::join(it->second.task);
  // An exception that leaves a thread function ends the process.
  auto r = sim::result(it->second.task);
  if (r.error) { std::fprintf(stderr, "std::terminate: exception escaped a thread: %s\n", r.what.c_str()); std::abort(); }
  if (ret) *ret = it->second.ret;
  return 0;
}
int pthread_detach(pthread_t th) {
  if (sim::T().threads.count(th)) return 0;
  using F = int (*)(pthread_t);
  static F real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "pthread_detach"));
  return real(th);
}
pthread_t pthread_self(void) {
  if (active()) return static_cast<pthread_t>(sim::kBase + 0x10000000ULL + sim::current_task());
  using F = pthread_t (*)();
  static F real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "pthread_self"));
  return real();
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!active()) return 0;
  sim::lock(m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!active()) return 0;
  auto& x = sim::T().mtx[m];
  if (x.owner == sim::current_task() && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { ++x.depth; return 0; }
  if (x.owner != -1) return EBUSY;
  x.owner = sim::current_task(); x.depth = 1;
  sim::race_acquire(m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!active()) return 0;
  sim::unlock(m);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) { if (active()) sim::T().mtx.erase(m); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) { if (active()) sim::T().cv.erase(c); return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!active()) return 0;
  auto& q = sim::T().cv[c].q;
  // atomically release and wait
  auto& x = sim::T().mtx[m];
  sim::race_release(m);
  x.owner = -1; x.depth = 0;
  sim::wake_one(x.q);
  sim::block(q, 0, "condition variable");
  sim::lock(m, false);
  return 0;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* ts) {
  if (!active()) return 0;
  auto& q = sim::T().cv[c].q;
  auto& x = sim::T().mtx[m];
  sim::race_release(m);
  x.owner = -1; x.depth = 0;
  sim::wake_one(x.q);
  bool ok = sim::block(q, sim::abs_to_us(ts), "condition variable (timed)");
  sim::lock(m, false);
  return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) { return pthread_cond_clockwait(c, m, CLOCK_REALTIME, ts); }
int pthread_cond_signal(pthread_cond_t* c) {
  if (!active()) return 0;
  sim::maybe_yield(sim::config().p_lock_yield);
  sim::wake_one(sim::T().cv[c].q);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!active()) return 0;
  sim::maybe_yield(sim::config().p_lock_yield);
  sim::wake_all(sim::T().cv[c].q);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!active()) return 0;
  sim::maybe_yield(sim::config().p_lock_yield);
  auto& x = sim::T().rw[l];
  while (x.writer != -1) sim::block(x.q, 0, "rwlock (read)");
  ++x.readers;
  sim::race_acquire(l);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!active()) return 0;
  sim::maybe_yield(sim::config().p_lock_yield);
  auto& x = sim::T().rw[l];
  while (x.writer != -1 || x.readers) sim::block(x.q, 0, "rwlock (write)");
  x.writer = sim::current_task();
  sim::race_acquire(l);
  sim::race_acquire(reinterpret_cast<char*>(l) + 1);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!active()) return 0;
  auto& x = sim::T().rw[l];
  sim::race_release(x.writer != -1 ? static_cast<void*>(l) : reinterpret_cast<char*>(l) + 1);
  if (x.writer != -1) x.writer = -1; else --x.readers;
  sim::wake_all(x.q);
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t* l) { if (active()) sim::T().rw.erase(l); return 0; }
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  // 0: fresh, 1: running, 2: done
  while (true) {
    if (*o == 2) { sim::race_acquire(o); return 0; }
    if (*o == 0) {
      *o = 1;
      try { fn(); } catch (...) { *o = 0; if (active()) sim::wake_all(sim::T().once[o]); throw; }
      *o = 2;
      sim::race_release(o);
      if (active()) sim::wake_all(sim::T().once[o]);
      return 0;
    }
    if (!active()) return 0;
    sim::block(sim::T().once[o], 0, "once");
  }
}
// one-time initialisation of function-local statics
int __cxa_guard_acquire(uint64_t* gp) {
  auto* b = reinterpret_cast<unsigned char*>(gp);
  while (true) {
    if (b[0]) { sim::race_acquire(gp); return 0; }
    if (!b[1]) { b[1] = 1; return 1; }
    if (!active()) { std::fprintf(stderr, "recursive static init\n"); std::abort(); }
    sim::block(sim::T().guard[gp], 0, "static initialisation");
  }
}
void __cxa_guard_release(uint64_t* gp) { auto* b = reinterpret_cast<unsigned char*>(gp); sim::race_release(gp); b[0] = 1; b[1] = 0; if (active()) sim::wake_all(sim::T().guard[gp]); }
void __cxa_guard_abort(uint64_t* gp) { auto* b = reinterpret_cast<unsigned char*>(gp); b[1] = 0; if (active()) sim::wake_all(sim::T().guard[gp]); }
int get_nprocs(void) { return 4; }
unsigned int sleep(unsigned int s) { if (active()) { sim::sleep_us(uint64_t(s) * 1000000); return 0; } timespec ts{time_t(s), 0}; syscall(SYS_nanosleep, &ts, nullptr); return 0; }
int usleep(useconds_t u) { if (active()) { sim::sleep_us(u); return 0; } timespec ts{0, long(u) * 1000}; syscall(SYS_nanosleep, &ts, nullptr); return 0; }
int nanosleep(const timespec* r, timespec* m) { if (active()) { sim::sleep_us(uint64_t(r->tv_sec) * 1000000 + r->tv_nsec / 1000); return 0; } return syscall(SYS_nanosleep, r, m); }
int sched_yield(void) { if (active()) sim::yield(); return 0; }
}  // extern "C"

namespace std {
// std::future / std::async waiting
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s, chrono::nanoseconds ns) {
  if (!active()) return true;
  if (__atomic_load_n(addr, __ATOMIC_ACQUIRE) != val) { sim::race_acquire(addr); return true; }
  uint64_t to = 0;
  if (has_timeout) { timespec ts{s.count(), ns.count()}; to = sim::abs_to_us(&ts); }
  const bool ok = sim::block(sim::T().fut[addr], to, "future");
  sim::race_acquire(addr);
  return ok;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s, chrono::nanoseconds ns) { return _M_futex_wait_until(addr, val, has_timeout, s, ns); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* addr) { sim::race_release(addr); if (active()) sim::wake_all(sim::T().fut[addr]); }
// clocks
namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(int64_t(sim::now_us() + 1000000000000ULL) * 1000)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(int64_t(sim::now_us() + 1000000000000ULL) * 1000)); }
} }
unsigned int thread::hardware_concurrency() noexcept { return 4; }
// entropy
void random_device::_M_init(const std::string&) {}
void random_device::_M_init_pretr1(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return static_cast<result_type>(sim::entropy_u64()); }
random_device::result_type random_device::_M_getval_pretr1() { return _M_getval(); }
double random_device::_M_getentropy() const noexcept { return 32; }
}  // namespace std
