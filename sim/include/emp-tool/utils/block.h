#pragma once
#include <immintrin.h>
#include <cstdint>
namespace emp {
using block = __m128i;
inline block makeBlock(uint64_t high, uint64_t low) { return _mm_set_epi64x(static_cast<long long>(high), static_cast<long long>(low)); }
const block zero_block = makeBlock(0, 0);
const block all_one_block = makeBlock(~0ULL, ~0ULL);
}  // namespace emp
