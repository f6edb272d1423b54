#pragma once
#include <vector>
#include "yacl/base/byte_container_view.h"
#include "yacl/crypto/hash/hash_interface.h"
#include "yacl/crypto/hash/hash_utils.h"
namespace yacl::crypto {
class RandomOracle {
 public:
  explicit RandomOracle(HashAlgorithm, size_t n = 16) : n_(n) {}
  std::vector<uint8_t> operator()(ByteContainerView b) const { auto h = Blake3(b); h.resize(n_); return h; }
  template <typename T> T Gen(ByteContainerView b) const { auto h = Blake3(b); T t; std::memcpy(&t, h.data(), sizeof(T)); return t; }
  template <typename T> T Gen(T x, uint64_t y = 0) const { struct { T a; uint64_t b; } v{}; std::memset(&v, 0, sizeof(v)); v.a = x; v.b = y; return Gen<T>(ByteContainerView(&v, sizeof(v))); }
  static RandomOracle& GetDefault() { static RandomOracle r(HashAlgorithm::BLAKE3, 32); return r; }
 private: size_t n_;
};
inline uint128_t RO_Blake3_128(ByteContainerView b) { auto h = Blake3(b); uint128_t r; std::memcpy(&r, h.data(), 16); return r; }
}
