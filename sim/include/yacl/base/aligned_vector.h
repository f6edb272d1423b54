#pragma once
#include <vector>
#include <cstdlib>
#include <memory>
#include <new>
#include <utility>
namespace yacl {
template <typename T, size_t A = 16> class AlignedAllocator {
 public:
  using value_type = T;
  AlignedAllocator() noexcept = default;
  template <typename U> AlignedAllocator(const AlignedAllocator<U, A>&) noexcept {}
  template <typename U> struct rebind { using other = AlignedAllocator<U, A>; };
  T* allocate(size_t n) { return static_cast<T*>(::operator new(n * sizeof(T), std::align_val_t(A))); }
  void deallocate(T* p, size_t) noexcept { ::operator delete(p, std::align_val_t(A)); }
  bool operator==(const AlignedAllocator&) const noexcept { return true; }
  bool operator!=(const AlignedAllocator&) const noexcept { return false; }
};
template <typename T, size_t A = 16> class UninitAlignedAllocator : public AlignedAllocator<T, A> {
 public:
  using value_type = T;
  template <typename U> struct rebind { using other = UninitAlignedAllocator<U, A>; };
  template <typename U> void construct(U* p) { ::new (static_cast<void*>(p)) U; }
  template <typename U, typename... Args> void construct(U* p, Args&&... a) { ::new (static_cast<void*>(p)) U(std::forward<Args>(a)...); }
};
template <typename T> using AlignedVector = std::vector<T, AlignedAllocator<T>>;
template <typename T> using UninitAlignedVector = std::vector<T, AlignedAllocator<T>>;
}  // namespace yacl
