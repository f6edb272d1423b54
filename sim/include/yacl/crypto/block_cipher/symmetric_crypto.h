#pragma once
#include <cstdint>
#include <cstring>
#include "absl/types/span.h"
#include "yacl/base/int128.h"
namespace yacl::crypto {
// Keyed pseudo-random functions of the simulator (not AES): fast, seeded, stable.
namespace simprf {
inline uint64_t mix(uint64_t z) { z += 0x9E3779B97F4A7C15ULL; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
inline uint128_t prf(uint128_t key, uint128_t x) {
  uint64_t k0 = uint64_t(key), k1 = uint64_t(key >> 64), x0 = uint64_t(x), x1 = uint64_t(x >> 64);
  uint64_t a = mix(x0 ^ mix(k0)); uint64_t b = mix(x1 + mix(k1 ^ a)); uint64_t c = mix(a ^ b ^ k0 ^ 0x5bd1e995);
  return (uint128_t(mix(b + k1 + c)) << 64) | c;
}
// keyed permutation on 128 bits (4-round Feistel)
inline uint64_t rf(uint64_t r, uint64_t k, int i) { return mix(r ^ mix(k + 0x1000193ULL * (i + 1))); }
inline uint128_t enc(uint128_t key, uint128_t x) {
  uint64_t l = uint64_t(x >> 64), r = uint64_t(x), k[2] = {uint64_t(key), uint64_t(key >> 64)};
  for (int i = 0; i < 4; ++i) { uint64_t t = l ^ rf(r, k[i & 1], i); l = r; r = t; }
  return (uint128_t(l) << 64) | r;
}
inline uint128_t dec(uint128_t key, uint128_t x) {
  uint64_t l = uint64_t(x >> 64), r = uint64_t(x), k[2] = {uint64_t(key), uint64_t(key >> 64)};
  for (int i = 3; i >= 0; --i) { uint64_t t = r ^ rf(l, k[i & 1], i); r = l; l = t; }
  return (uint128_t(l) << 64) | r;
}
}  // namespace simprf
class SymmetricCrypto {
 public:
  enum class CryptoType : int { AES128_ECB, AES128_CBC, AES128_CTR, SM4_ECB, SM4_CBC, SM4_CTR };
  SymmetricCrypto(CryptoType type, uint128_t key, uint128_t iv = 0) : type_(type), key_(key), iv_(iv) {}
  uint128_t Encrypt(uint128_t in) const { uint128_t o; Encrypt(absl::MakeConstSpan(&in, 1), absl::MakeSpan(&o, 1)); return o; }
  uint128_t Decrypt(uint128_t in) const { uint128_t o; Decrypt(absl::MakeConstSpan(&in, 1), absl::MakeSpan(&o, 1)); return o; }
  void Encrypt(absl::Span<const uint128_t> in, absl::Span<uint128_t> out) const {
    for (size_t i = 0; i < in.size(); ++i) out[i] = ctr() ? in[i] ^ simprf::prf(key_, iv_ + i) : simprf::enc(key_, in[i]);
  }
  void Decrypt(absl::Span<const uint128_t> in, absl::Span<uint128_t> out) const {
    for (size_t i = 0; i < in.size(); ++i) out[i] = ctr() ? in[i] ^ simprf::prf(key_, iv_ + i) : simprf::dec(key_, in[i]);
  }
  void Encrypt(absl::Span<const uint8_t> in, absl::Span<uint8_t> out) const { Encrypt(absl::MakeConstSpan(reinterpret_cast<const uint128_t*>(in.data()), in.size() / 16), absl::MakeSpan(reinterpret_cast<uint128_t*>(out.data()), out.size() / 16)); }
  void Decrypt(absl::Span<const uint8_t> in, absl::Span<uint8_t> out) const { Decrypt(absl::MakeConstSpan(reinterpret_cast<const uint128_t*>(in.data()), in.size() / 16), absl::MakeSpan(reinterpret_cast<uint128_t*>(out.data()), out.size() / 16)); }
  CryptoType GetType() const { return type_; }
  static constexpr int BlockSize() { return 16; }
 private:
  bool ctr() const { return type_ == CryptoType::AES128_CTR || type_ == CryptoType::SM4_CTR; }
  CryptoType type_; uint128_t key_, iv_;
};
class AesCbcCrypto : public SymmetricCrypto { public: AesCbcCrypto(uint128_t k, uint128_t iv) : SymmetricCrypto(CryptoType::AES128_CBC, k, iv) {} };
}  // namespace yacl::crypto
