#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/buffer.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/base/dynamic_bitset.h"
#include "yacl/crypto/block_cipher/symmetric_crypto.h"
namespace yacl::crypto {
// Counter-mode expansion: 16-byte block i is prf(seed ^ iv, count + i).
// Returns the next unused counter.
inline uint64_t FillPRandBytes(uint128_t seed, uint64_t iv, uint64_t count, char* out, size_t n) {
  size_t nb = (n + 15) / 16; uint128_t key = seed ^ (uint128_t(iv) << 64);
  for (size_t i = 0; i < nb; ++i) { uint128_t b = simprf::prf(key, count + i); std::memcpy(out + i * 16, &b, std::min<size_t>(16, n - i * 16)); }
  return count + nb;
}
template <typename T> uint64_t FillPRand(SymmetricCrypto::CryptoType, uint128_t seed, uint64_t iv, uint64_t count, absl::Span<T> out) {
  static_assert(std::is_trivially_copyable_v<T>);
  return FillPRandBytes(seed, iv, count, reinterpret_cast<char*>(out.data()), out.size() * sizeof(T));
}
inline uint64_t FillPRand(SymmetricCrypto::CryptoType, uint128_t seed, uint64_t iv, uint64_t count, char* buf, size_t len) { return FillPRandBytes(seed, iv, count, buf, len); }
template <typename T> uint64_t FillPRandWithLtN(SymmetricCrypto::CryptoType t, uint128_t seed, uint64_t iv, uint64_t count, absl::Span<T> out, T n) {
  count = FillPRand<T>(t, seed, iv, count, out); for (auto& x : out) x %= n; return count;
}
template <typename T> constexpr T simMersenne() { return sizeof(T) == 4 ? T((uint64_t(1) << 31) - 1) : sizeof(T) == 8 ? T((uint64_t(1) << 61) - 1) : T((uint128_t(1) << 127) - 1); }
template <typename T> uint64_t FillPRandWithMersennePrime(SymmetricCrypto::CryptoType t, uint128_t seed, uint64_t iv, uint64_t count, absl::Span<T> out) {
  count = FillPRand<T>(t, seed, iv, count, out); const T p = simMersenne<T>();
  for (auto& x : out) { x &= p; if (x == p) x = 0; } return count;
}
template <typename T> uint64_t PrgAesCtr(uint128_t seed, absl::Span<T> out) { return FillPRand<T>(SymmetricCrypto::CryptoType::AES128_CTR, seed, 0, 0, out); }
template <typename T> uint64_t PrgAesCtr(uint128_t seed, uint64_t iv, uint64_t c, absl::Span<T> out) { return FillPRand<T>(SymmetricCrypto::CryptoType::AES128_CTR, seed, iv, c, out); }
enum class PRG_MODE { kNistAesCtrDrbg, kGmSm4CtrDrbg, kAesEcb, kSm4Ecb };
template <typename T, size_t B = 128> class Prg {
 public:
  explicit Prg(uint128_t seed = 0, PRG_MODE = PRG_MODE::kAesEcb) : seed_(seed) {}
  T operator()() { T v; Fill(absl::MakeSpan(&v, 1)); return v; }
  void Fill(absl::Span<T> out) { n_ = FillPRandBytes(seed_, 0x5eed, n_, reinterpret_cast<char*>(out.data()), out.size() * sizeof(T)); }
  void SetSeed(uint128_t s) { seed_ = s; n_ = 0; }
  uint128_t Seed() const { return seed_; }
  uint64_t Counter() const { return n_; }
 private:
  uint128_t seed_; uint64_t n_ = 0;
};
template <size_t B> class Prg<bool, B> {
 public:
  explicit Prg(uint128_t seed = 0, PRG_MODE = PRG_MODE::kAesEcb) : p_(seed) {}
  bool operator()() { return p_() & 1; }
  void Fill(absl::Span<bool> o) { for (auto& x : o) x = (*this)(); }
  void SetSeed(uint128_t s) { p_.SetSeed(s); }
 private:
  Prg<uint8_t> p_;
};
}  // namespace yacl::crypto
