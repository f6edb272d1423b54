// Simulated yacl: data-parallel loops. Under simulation every loop is cut into
// seeded chunks which run as tasks of the deterministic scheduler.
#pragma once
#include <cstdint>
#include <functional>
#include <vector>
namespace yacl {
int get_num_threads();
void set_num_threads(int);
inline void init_num_threads() {}
int get_thread_num();
bool in_parallel_region();
namespace internal {
// Cuts [begin,end) and runs fn(task_index, b, e) for each piece; returns the number of pieces.
void RunChunks(int64_t begin, int64_t end, int64_t grain, const std::function<void(int64_t)>& reserve, const std::function<void(int64_t, int64_t, int64_t)>& fn);
}
template <typename F>
void parallel_for(int64_t begin, int64_t end, int64_t grain_size, const F& f) {
  if (begin >= end) return;
  internal::RunChunks(begin, end, grain_size, {}, [&](int64_t, int64_t b, int64_t e) { f(b, e); });
}
template <typename F>
void parallel_for(int64_t begin, int64_t end, const F& f) { parallel_for(begin, end, 1, f); }
template <typename scalar_t, typename F, typename SF>
scalar_t parallel_reduce(int64_t begin, int64_t end, int64_t grain_size, const F& f, const SF& sf) {
  std::vector<scalar_t> r;
  if (begin >= end) return scalar_t{};
  internal::RunChunks(begin, end, grain_size, [&](int64_t n) { r.resize(n); }, [&](int64_t i, int64_t b, int64_t e) { r[i] = f(b, e); });
  scalar_t out = r[0];
  for (size_t i = 1; i < r.size(); ++i) out = sf(out, r[i]);
  return out;
}
}  // namespace yacl
