#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <ostream>
#include <string>
#include <string_view>
#include "absl/types/span.h"
#include "yacl/base/exception.h"
namespace yacl {
// Owning byte buffer (or view with a custom deleter). Fresh memory is filled
// with a seeded pattern under simulation, so reads of uninitialised bytes are
// visible and reproducible.
namespace simhook { void FillFresh(void* p, size_t n); void* Alloc(size_t n); }
class Buffer final {
 public:
  Buffer() = default;
  explicit Buffer(int64_t size) { init(size); }
  explicit Buffer(std::string_view v) { init(v.size()); if (!v.empty()) std::memcpy(p_, v.data(), v.size()); }
  explicit Buffer(absl::Span<const uint8_t> v) { init(v.size()); if (!v.empty()) std::memcpy(p_, v.data(), v.size()); }
  Buffer(const void* p, size_t n) { init(n); if (n) std::memcpy(p_, p, n); }
  Buffer(void* p, size_t n, std::function<void(void*)> d) : p_(static_cast<std::byte*>(p)), n_(n), cap_(n), del_(std::move(d)) {}
  template <typename C, typename = decltype(std::declval<const C&>().data()), typename = decltype(std::declval<const C&>().size()),
            std::enable_if_t<!std::is_same_v<std::decay_t<C>, Buffer> && sizeof(typename C::value_type) == 1, int> = 0>
  explicit Buffer(const C& c) { init(c.size()); if (c.size()) std::memcpy(p_, c.data(), c.size()); }
  Buffer(const Buffer& o) { init(o.n_); if (o.n_) std::memcpy(p_, o.p_, o.n_); }
  Buffer(Buffer&& o) noexcept { swap(o); }
  Buffer& operator=(const Buffer& o) { if (this != &o) { Buffer t(o); swap(t); } return *this; }
  Buffer& operator=(Buffer&& o) noexcept { if (this != &o) { Buffer t(std::move(o)); swap(t); } return *this; }
  ~Buffer() { reset(); }
  void reset() { if (p_ != nullptr) { if (del_) del_(p_); else std::free(p_); } p_ = nullptr; n_ = cap_ = 0; del_ = nullptr; }
  template <typename T = void> T* data() { return reinterpret_cast<T*>(p_); }
  template <typename T = void> const T* data() const { return reinterpret_cast<const T*>(p_); }
  int64_t size() const { return n_; }
  int64_t capacity() const { return cap_; }
  void resize(int64_t n) { if (n > cap_) reserve(n); n_ = n; }
  void reserve(int64_t n) {
    if (n <= cap_) return;
    Buffer t; t.init(n); if (n_) std::memcpy(t.p_, p_, n_); t.n_ = n_; swap(t);
  }
  void* release() { void* r = p_; p_ = nullptr; n_ = cap_ = 0; del_ = nullptr; return r; }
  bool operator==(const Buffer& o) const { return n_ == o.n_ && (n_ == 0 || std::memcmp(p_, o.p_, n_) == 0); }
  bool operator!=(const Buffer& o) const { return !(*this == o); }
  operator std::string_view() const { return {reinterpret_cast<const char*>(p_), static_cast<size_t>(n_)}; }
  explicit operator std::string() const { return std::string(reinterpret_cast<const char*>(p_), n_); }
  operator absl::Span<const uint8_t>() const { return {reinterpret_cast<const uint8_t*>(p_), static_cast<size_t>(n_)}; }
 private:
  void init(int64_t n) {
    if (n < 0) YACL_THROW("negative buffer size {}", n);
    if (n == 0) return;
    p_ = static_cast<std::byte*>(simhook::Alloc(n));
    n_ = cap_ = n;
  }
  void swap(Buffer& o) noexcept { std::swap(p_, o.p_); std::swap(n_, o.n_); std::swap(cap_, o.cap_); std::swap(del_, o.del_); }
  std::byte* p_ = nullptr;
  int64_t n_ = 0, cap_ = 0;
  std::function<void(void*)> del_;
};
inline std::ostream& operator<<(std::ostream& os, const Buffer& v) { return os << fmt::format("Buffer<{}>", v.size()); }
}  // namespace yacl
