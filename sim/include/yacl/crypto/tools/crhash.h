#pragma once
#include <vector>
#include "yacl/crypto/tools/rp.h"
namespace yacl::crypto {
inline uint128_t CrHash_128(uint128_t x) { return simprf::prf(uint128_t(0x1234567), x) ^ x; }
inline void ParaCrHash_128(absl::Span<const uint128_t> x, absl::Span<uint128_t> o) { for (size_t i = 0; i < x.size(); ++i) o[i] = CrHash_128(x[i]); }
inline std::vector<uint128_t> ParaCrHash_128(absl::Span<const uint128_t> x) { std::vector<uint128_t> o(x.size()); ParaCrHash_128(x, absl::MakeSpan(o)); return o; }
inline void ParaCrHashInplace_128(absl::Span<uint128_t> x) { for (auto& v : x) v = CrHash_128(v); }
inline uint128_t CcrHash_128(uint128_t x) { return simprf::prf(uint128_t(0x7654321), x) ^ x; }
inline std::vector<uint128_t> ParaCcrHash_128(absl::Span<const uint128_t> x) { std::vector<uint128_t> o(x.size()); for (size_t i = 0; i < x.size(); ++i) o[i] = CcrHash_128(x[i]); return o; }
inline void ParaCcrHashInplace_128(absl::Span<uint128_t> x) { for (auto& v : x) v = CcrHash_128(v); }
}
