// Minimal magic_enum: names and casts for small enums.
#pragma once
#include <array>
#include <optional>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
namespace magic_enum {
namespace detail {
template <typename E, E V> constexpr std::string_view raw() {
  std::string_view s = __PRETTY_FUNCTION__;  // ... [with E = X; E V = X::NAME; ...]
  auto p = s.find("E V = ");
  if (p == std::string_view::npos) { p = s.find("V = "); p += 4; } else p += 6;
  auto e = s.find_first_of(";]", p);
  s = s.substr(p, e - p);
  if (s.empty() || s[0] == '(' || (s[0] >= '0' && s[0] <= '9') || s[0] == '-') return {};
  auto c = s.rfind(':');
  return c == std::string_view::npos ? s : s.substr(c + 1);
}
constexpr int kLo = -16, kHi = 160;
template <typename E, int... I> std::array<std::string_view, sizeof...(I)> table(std::integer_sequence<int, I...>) {
  return {raw<E, static_cast<E>(I + kLo)>()...};
}
template <typename E> const auto& names() {
  static const auto t = table<E>(std::make_integer_sequence<int, kHi - kLo>());
  return t;
}
}  // namespace detail
template <typename E> std::string_view enum_name(E v) {
  int i = static_cast<int>(v) - detail::kLo;
  if (i < 0 || i >= detail::kHi - detail::kLo) return {};
  return detail::names<E>()[i];
}
template <typename E> std::optional<E> enum_cast(std::string_view s) {
  const auto& t = detail::names<E>();
  if (!s.empty()) for (size_t i = 0; i < t.size(); ++i) if (t[i] == s) return static_cast<E>(static_cast<int>(i) + detail::kLo);
  return std::nullopt;
}
template <typename E> std::optional<E> enum_cast(std::underlying_type_t<E> v) {
  if (enum_name(static_cast<E>(v)).empty()) return std::nullopt;
  return static_cast<E>(v);
}
template <typename E> bool enum_contains(E v) { return !enum_name(v).empty(); }
template <typename E> std::vector<E> enum_values() { std::vector<E> r; const auto& t = detail::names<E>(); for (size_t i = 0; i < t.size(); ++i) if (!t[i].empty()) r.push_back(static_cast<E>(static_cast<int>(i) + detail::kLo)); return r; }
template <typename E> size_t enum_count() { return enum_values<E>().size(); }
}  // namespace magic_enum
