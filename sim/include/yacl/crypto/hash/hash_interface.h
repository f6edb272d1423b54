#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include "yacl/base/byte_container_view.h"
#include "yacl/crypto/block_cipher/symmetric_crypto.h"
namespace yacl::crypto {
enum class HashAlgorithm { SHA224, SHA256, SHA384, SHA512, SHA_1, SM3, BLAKE2B, BLAKE3 };
class HashInterface {
 public:
  virtual ~HashInterface() = default;
  virtual HashAlgorithm GetHashAlgorithm() const = 0;
  virtual size_t DigestSize() const = 0;
  virtual HashInterface& Reset() = 0;
  virtual HashInterface& Update(ByteContainerView data) = 0;
  virtual size_t CumulativeHash(uint8_t*, size_t) const { return 0; }
  virtual std::vector<uint8_t> CumulativeHash() const = 0;
};
// Seeded collision-resistant stand-in (256-bit state over the simulator PRF).
class SimHash : public HashInterface {
 public:
  explicit SimHash(HashAlgorithm a = HashAlgorithm::BLAKE3, size_t n = 32) : a_(a), n_(n) { Reset(); }
  HashAlgorithm GetHashAlgorithm() const override { return a_; }
  size_t DigestSize() const override { return n_; }
  HashInterface& Reset() override { buf_.clear(); return *this; }
  HashInterface& Update(ByteContainerView d) override { buf_.insert(buf_.end(), d.begin(), d.end()); return *this; }
  std::vector<uint8_t> CumulativeHash() const override {
    uint128_t h0 = 1 + int(a_), h1 = 77;
    for (size_t i = 0; i <= buf_.size(); i += 16) {
      uint128_t b = 0; if (i < buf_.size()) std::memcpy(&b, buf_.data() + i, std::min<size_t>(16, buf_.size() - i));
      h0 = simprf::prf(h0 ^ (h1 << 1), b) ; h1 = simprf::prf(h1 + h0, b ^ (uint128_t(i) << 64));
    }
    h0 = simprf::prf(h0, h1 ^ buf_.size()); h1 = simprf::prf(h1, h0);
    std::vector<uint8_t> o(std::max<size_t>(n_, 32)); std::memcpy(o.data(), &h0, 16); std::memcpy(o.data() + 16, &h1, 16);
    for (size_t i = 32; i < o.size(); ++i) o[i] = o[i - 32] ^ 0x5a;
    o.resize(n_); return o;
  }
 private: HashAlgorithm a_; size_t n_; std::vector<uint8_t> buf_;
};
}  // namespace yacl::crypto
