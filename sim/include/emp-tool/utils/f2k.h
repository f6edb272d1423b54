// GF(2^128) helpers (x^128 + x^7 + x^2 + x + 1), carry-less multiplication.
#pragma once
#include "emp-tool/utils/block.h"
#include <vector>
namespace std { template <int = 0> void swap(const _Bit_reference& x, const _Bit_reference& y) noexcept { _Bit_reference a = x, b = y; bool t = a; a = static_cast<bool>(b); b = t; } }
namespace emp {
inline void mul128(block a, block b, block* lo, block* hi) {
  block t0 = _mm_clmulepi64_si128(a, b, 0x00), t3 = _mm_clmulepi64_si128(a, b, 0x11);
  block m = _mm_xor_si128(_mm_clmulepi64_si128(a, b, 0x10), _mm_clmulepi64_si128(a, b, 0x01));
  *lo = _mm_xor_si128(t0, _mm_slli_si128(m, 8));
  *hi = _mm_xor_si128(t3, _mm_srli_si128(m, 8));
}
inline block reduce(block lo, block hi) {
  using u128 = unsigned __int128;
  auto U = [](block x) { return (u128(uint64_t(_mm_extract_epi64(x, 1))) << 64) | uint64_t(_mm_extract_epi64(x, 0)); };
  u128 l = U(lo), h = U(hi);
  u128 ov = (h >> 127) ^ (h >> 126) ^ (h >> 121);
  u128 r = l ^ h ^ (h << 1) ^ (h << 2) ^ (h << 7);
  r ^= ov ^ (ov << 1) ^ (ov << 2) ^ (ov << 7);
  return makeBlock(uint64_t(r >> 64), uint64_t(r));
}
inline void gfmul(block a, block b, block* res) { block lo, hi; mul128(a, b, &lo, &hi); *res = reduce(lo, hi); }
inline void uni_hash_coeff_gen(block* coeff, block seed, int sz) {
  coeff[0] = seed;
  for (int i = 1; i < sz; ++i) gfmul(coeff[i - 1], seed, &coeff[i]);
}
inline void vector_inn_prdt_sum_red(block* res, const block* a, const block* b, int sz) {
  block r = zero_block, t;
  for (int i = 0; i < sz; ++i) { gfmul(a[i], b[i], &t); r = _mm_xor_si128(r, t); }
  *res = r;
}
}  // namespace emp
