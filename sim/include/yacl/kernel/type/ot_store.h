#pragma once
#include <array>
#include <memory>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/aligned_vector.h"
#include "yacl/base/dynamic_bitset.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
namespace yacl::crypto {
enum class OtStoreType { Normal, Compact };
class OtRecvStore {
 public:
  OtRecvStore() = default;
  explicit OtRecvStore(uint64_t n, OtStoreType t = OtStoreType::Normal) : t_(t), c_(n), b_(n) {}
  OtRecvStore(dynamic_bitset<uint128_t> c, std::vector<uint128_t> b) : c_(std::move(c)), b_(std::move(b)) {}
  size_t Size() const { return b_.size(); }
  OtStoreType Type() const { return t_; }
  bool GetChoice(uint64_t i) const { return t_ == OtStoreType::Compact ? bool(b_[i] & 1) : c_[i]; }
  uint128_t GetBlock(uint64_t i) const { YACL_ENFORCE(i < b_.size()); return b_[i]; }
  void SetChoice(uint64_t i, bool v) { c_[i] = v; }
  void SetBlock(uint64_t i, uint128_t v) { b_[i] = v; }
  void FlipChoice(uint64_t i) { c_.flip(i); }
  dynamic_bitset<uint128_t> CopyChoice() const { return c_; }
  AlignedVector<uint128_t> CopyBlocks() const { return {b_.begin(), b_.end()}; }
  const uint128_t* data() const { return b_.data(); }
 private: OtStoreType t_ = OtStoreType::Normal; dynamic_bitset<uint128_t> c_; std::vector<uint128_t> b_;
};
class OtSendStore {
 public:
  OtSendStore() = default;
  explicit OtSendStore(uint64_t n, OtStoreType t = OtStoreType::Normal) : t_(t), b_(n) {}
  explicit OtSendStore(std::vector<std::array<uint128_t, 2>> b) : b_(std::move(b)) {}
  size_t Size() const { return b_.size(); }
  OtStoreType Type() const { return t_; }
  uint128_t GetDelta() const { return d_; }
  void SetDelta(uint128_t d) { d_ = d; }
  uint128_t GetBlock(uint64_t i, uint64_t j) const { YACL_ENFORCE(i < b_.size() && j < 2); return b_[i][j]; }
  void SetNormalBlock(uint64_t i, uint64_t j, uint128_t v) { b_[i][j] = v; }
  void SetCompactBlock(uint64_t i, uint128_t v) { b_[i][0] = v; b_[i][1] = v ^ d_; }
 private: OtStoreType t_ = OtStoreType::Normal; uint128_t d_ = 0; std::vector<std::array<uint128_t, 2>> b_;
};
inline OtRecvStore MakeOtRecvStore(const dynamic_bitset<uint128_t>& c, const std::vector<uint128_t>& b) { return OtRecvStore(c, b); }
template <typename A> OtRecvStore MakeOtRecvStore(const dynamic_bitset<uint128_t>& c, const std::vector<uint128_t, A>& b) { return OtRecvStore(c, std::vector<uint128_t>(b.begin(), b.end())); }
inline OtSendStore MakeOtSendStore(const std::vector<std::array<uint128_t, 2>>& b) { return OtSendStore(b); }
template <typename A> OtSendStore MakeOtSendStore(const std::vector<std::array<uint128_t, 2>, A>& b) { return OtSendStore(std::vector<std::array<uint128_t, 2>>(b.begin(), b.end())); }
}  // namespace yacl::crypto
