#pragma once
#include "yacl/crypto/block_cipher/symmetric_crypto.h"
namespace yacl::crypto {
// random permutation
class RP {
 public:
  using Ctype = SymmetricCrypto::CryptoType;
  explicit RP(Ctype c, uint128_t key, uint128_t iv = 0) : s_(c, key, iv) {}
  uint128_t Gen(uint128_t x) const { return s_.Encrypt(x); }
  void Gen(absl::Span<const uint128_t> x, absl::Span<uint128_t> o) const { s_.Encrypt(x, o); }
  uint128_t operator()(uint128_t x) const { return Gen(x); }
 private: SymmetricCrypto s_;
};
}
