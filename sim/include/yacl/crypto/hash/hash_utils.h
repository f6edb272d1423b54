#pragma once
#include <array>
#include "yacl/crypto/hash/blake3.h"
namespace yacl::crypto {
inline std::vector<uint8_t> Blake3(ByteContainerView b, size_t n = 32) { SimHash h(HashAlgorithm::BLAKE3, n); h.Update(b); return h.CumulativeHash(); }
inline std::array<uint8_t, 32> Sha256(ByteContainerView b) { SimHash h(HashAlgorithm::SHA256, 32); h.Update(b); auto v = h.CumulativeHash(); std::array<uint8_t, 32> o; std::copy(v.begin(), v.end(), o.begin()); return o; }
inline uint128_t Blake3_128(ByteContainerView b) { auto v = Blake3(b); uint128_t r; std::memcpy(&r, v.data(), 16); return r; }
}
