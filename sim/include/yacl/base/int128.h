// Simulated yacl: 128-bit integer helpers (stub of the third-party library).
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <ostream>
#include <string>
#include <utility>
using int128_t = __int128;
using uint128_t = unsigned __int128;
namespace std {
inline std::ostream& operator<<(std::ostream& os, uint128_t x) {
  char b[44]; int p = 43; b[p] = 0;
  do { b[--p] = char('0' + int(x % 10)); x /= 10; } while (x);
  return os << (b + p);
}
inline std::ostream& operator<<(std::ostream& os, int128_t x) {
  if (x < 0) return os << '-' << (uint128_t(0) - static_cast<uint128_t>(x));
  return os << static_cast<uint128_t>(x);
}
}  // namespace std
namespace yacl {
constexpr uint128_t MakeUint128(uint64_t high, uint64_t low) { return (static_cast<uint128_t>(high) << 64) | low; }
constexpr int128_t MakeInt128(int64_t high, uint64_t low) { return static_cast<int128_t>((static_cast<uint128_t>(static_cast<uint64_t>(high)) << 64) | low); }
constexpr int128_t Int128Max() { return MakeInt128(0x7fffffffffffffffLL, ~0ULL); }
constexpr int128_t Int128Min() { return -Int128Max() - 1; }
constexpr uint128_t Uint128Max() { return ~static_cast<uint128_t>(0); }
constexpr uint128_t Uint128Min() { return 0; }
inline std::pair<int64_t, uint64_t> DecomposeInt128(int128_t v) { return {static_cast<int64_t>(v >> 64), static_cast<uint64_t>(v)}; }
inline std::pair<uint64_t, uint64_t> DecomposeUInt128(uint128_t v) { return {static_cast<uint64_t>(v >> 64), static_cast<uint64_t>(v)}; }
inline size_t GetBitWidth(uint128_t v) { size_t n = 0; while (v) { ++n; v >>= 1; } return n; }
}  // namespace yacl
