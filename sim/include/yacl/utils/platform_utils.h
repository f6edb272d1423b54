#pragma once
#include <cstdint>
namespace yacl {
inline bool hasAESni() { return true; } inline bool hasAVX2() { return false; } inline bool hasBMI2() { return true; } inline bool hasAVX512ifma() { return false; }
inline uint64_t pext_u64(uint64_t a, uint64_t m) { uint64_t r = 0; for (int k = 0; m; m &= m - 1, ++k) if (a & (m & -m)) r |= 1ULL << k; return r; }
inline uint64_t pdep_u64(uint64_t a, uint64_t m) { uint64_t r = 0; for (int k = 0; m; m &= m - 1, ++k) if ((a >> k) & 1) r |= (m & -m); return r; }
}  // namespace yacl
