// Simulated yacl: all entropy comes from the simulator's seed.
#pragma once
#include <algorithm>
#include <cstdint>
#include <random>
#include <type_traits>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/buffer.h"
#include "yacl/base/dynamic_bitset.h"
#include "yacl/base/int128.h"
#include "yacl/crypto/block_cipher/symmetric_crypto.h"
#include "yacl/crypto/tools/prg.h"
namespace yacl::crypto {
void FillRandBytes(void* p, size_t n);  // simulator entropy
inline void FillRand(char* buf, size_t len, bool = false) { FillRandBytes(buf, len); }
inline uint32_t FastRandU32() { uint32_t v; FillRandBytes(&v, sizeof(v)); return v; }
inline uint64_t FastRandU64() { uint64_t v; FillRandBytes(&v, sizeof(v)); return v; }
inline uint128_t FastRandU128() { uint128_t v; FillRandBytes(&v, sizeof(v)); return v; }
inline uint128_t FastRandSeed() { return FastRandU128(); }
inline uint32_t SecureRandU32() { return FastRandU32(); }
inline uint64_t SecureRandU64() { return FastRandU64(); }
inline uint128_t SecureRandU128() { return FastRandU128(); }
inline uint128_t SecureRandSeed() { return FastRandU128(); }
inline uint32_t RandU32(bool = false) { return FastRandU32(); }
inline uint64_t RandU64(bool = false) { return FastRandU64(); }
inline uint128_t RandU128(bool = false) { return FastRandU128(); }
inline uint128_t RandSeed(bool = false) { return FastRandU128(); }
inline std::vector<uint8_t> RandBytes(uint64_t len, bool = false) { std::vector<uint8_t> v(len); FillRandBytes(v.data(), len); return v; }
inline std::vector<uint8_t> FastRandBytes(uint64_t len) { return RandBytes(len); }
inline std::vector<uint8_t> SecureRandBytes(uint64_t len) { return RandBytes(len); }
template <typename T = dynamic_bitset<uint128_t>> T RandBits(uint64_t len, bool = false) {
  T r; r.resize(len); auto b = RandBytes((len + 7) / 8); for (uint64_t i = 0; i < len; ++i) r[i] = (b[i / 8] >> (i % 8)) & 1; return r;
}
template <typename T = dynamic_bitset<uint128_t>> T SecureRandBits(uint64_t len) { return RandBits<T>(len); }
template <typename T = dynamic_bitset<uint128_t>> T FastRandBits(uint64_t len) { return RandBits<T>(len); }
template <typename T, std::enable_if_t<std::is_standard_layout_v<T>, int> = 0> std::vector<T> RandVec(uint64_t n, bool = false) { std::vector<T> v(n); FillRandBytes(v.data(), n * sizeof(T)); return v; }
struct YaclStdUrbg {
  using result_type = uint64_t;
  static constexpr result_type min() { return 0; } static constexpr result_type max() { return ~0ULL; }
  result_type operator()() { return FastRandU64(); }
};
// Deterministic shuffle replayable from (seed, counter).
template <class It> void ReplayShuffle(It first, It last, uint128_t seed, uint64_t* ctr) {
  for (auto i = (last - first) - 1; i > 0; --i) {
    uint64_t r; *ctr = FillPRand(SymmetricCrypto::CryptoType::AES128_CTR, seed, 0, *ctr, absl::MakeSpan(&r, 1));
    std::swap(first[i], first[r % (i + 1)]);
  }
}
}  // namespace yacl::crypto
