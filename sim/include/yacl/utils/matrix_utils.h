#pragma once
#include <array>
#include <cstdint>
#include "yacl/base/int128.h"
namespace yacl {
// In-place transpose of a 128x128 bit matrix, bit j of row i <-> bit i of row j.
inline void NaiveTranspose(std::array<uint128_t, 128>* m) {
  std::array<uint128_t, 128> o{};
  for (int i = 0; i < 128; ++i) for (int j = 0; j < 128; ++j) o[j] |= (((*m)[i] >> j) & 1) << i;
  *m = o;
}
inline void EklundhTranspose128(std::array<uint128_t, 128>* m) { NaiveTranspose(m); }
inline void SseTranspose128(std::array<uint128_t, 128>* m) { NaiveTranspose(m); }
inline void AvxTranspose128(std::array<uint128_t, 128>* m) { NaiveTranspose(m); }
inline void MatrixTranspose128(std::array<uint128_t, 128>* m) { NaiveTranspose(m); }
inline void MatrixTranspose128(uint128_t* m) { NaiveTranspose(reinterpret_cast<std::array<uint128_t, 128>*>(m)); }
}
