#pragma once
#include "absl/strings/string_view.h"
#include "absl/strings/ascii.h"
#include "absl/strings/numbers.h"
#include <array>
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/buffer.h"
namespace yacl {
class ByteContainerView {
 public:
  using value_type = uint8_t;
  using const_iterator = const uint8_t*;
  constexpr ByteContainerView() noexcept = default;
  constexpr ByteContainerView(const ByteContainerView&) noexcept = default;
  ByteContainerView& operator=(const ByteContainerView&) = default;
  template <typename Byte, std::enable_if_t<sizeof(Byte) == 1, int> = 0>
  ByteContainerView(const Byte* p, size_t n) noexcept : p_(reinterpret_cast<const uint8_t*>(p)), n_(n) {}
  ByteContainerView(const void* p, size_t n) noexcept : p_(static_cast<const uint8_t*>(p)), n_(n) {}
  template <size_t N>
  ByteContainerView(const char (&s)[N]) noexcept : p_(reinterpret_cast<const uint8_t*>(s)), n_(N - 1) {}
  ByteContainerView(const char* s) noexcept : p_(reinterpret_cast<const uint8_t*>(s)), n_(std::strlen(s)) {}
  template <typename C, typename = decltype(std::declval<const C&>().data()), typename = decltype(std::declval<const C&>().size()),
            std::enable_if_t<!std::is_same_v<std::decay_t<C>, ByteContainerView>, int> = 0>
  ByteContainerView(const C& c) noexcept : p_(reinterpret_cast<const uint8_t*>(c.data())), n_(bytes(c)) {}
  const uint8_t* data() const noexcept { return p_; }
  size_t size() const noexcept { return n_; }
  size_t length() const noexcept { return n_; }
  bool empty() const noexcept { return n_ == 0; }
  const uint8_t* begin() const noexcept { return p_; }
  const uint8_t* end() const noexcept { return p_ + n_; }
  uint8_t operator[](size_t i) const noexcept { return p_[i]; }
  ByteContainerView subspan(size_t pos, size_t n = size_t(-1)) const noexcept { return {p_ + pos, std::min(n, n_ - pos)}; }
  operator std::string_view() const noexcept { return {reinterpret_cast<const char*>(p_), n_}; }
  operator absl::Span<const uint8_t>() const noexcept { return {p_, n_}; }
  explicit operator std::string() const { return std::string(reinterpret_cast<const char*>(p_), n_); }
 private:
  template <typename C> static size_t bytes(const C& c) {
    using E = std::remove_cv_t<std::remove_pointer_t<decltype(c.data())>>;
    if constexpr (std::is_void_v<E>) return static_cast<size_t>(c.size());
    else { static_assert(sizeof(E) == 1, "ByteContainerView needs byte elements"); return static_cast<size_t>(c.size()); }
  }
  const uint8_t* p_ = nullptr;
  size_t n_ = 0;
};
inline bool operator==(ByteContainerView a, ByteContainerView b) { return a.size() == b.size() && (a.size() == 0 || std::memcmp(a.data(), b.data(), a.size()) == 0); }
inline bool operator!=(ByteContainerView a, ByteContainerView b) { return !(a == b); }
}  // namespace yacl
