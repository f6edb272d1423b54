#pragma once
#include <utility>
namespace yacl {
template <typename F> class ScopeGuard {
 public:
  explicit ScopeGuard(F f) : f_(std::move(f)) {}
  ScopeGuard(ScopeGuard&& o) noexcept : f_(std::move(o.f_)), on_(std::exchange(o.on_, false)) {}
  ~ScopeGuard() { if (on_) f_(); }
  void Dismiss() { on_ = false; }
 private:
  F f_; bool on_ = true;
};
template <typename F> ScopeGuard<F> MakeScopeGuard(F f) { return ScopeGuard<F>(std::move(f)); }
enum class ScopeGuardOnExit {};
template <typename F> ScopeGuard<F> operator+(ScopeGuardOnExit, F&& f) { return ScopeGuard<F>(std::forward<F>(f)); }
}  // namespace yacl
#define YACL_SG_CAT_(a, b) a##b
#define YACL_SG_CAT(a, b) YACL_SG_CAT_(a, b)
#define ON_SCOPE_EXIT auto YACL_SG_CAT(yacl_sg_, __LINE__) = ::yacl::ScopeGuardOnExit() + [&]()
