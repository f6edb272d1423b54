#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <algorithm>
#include "yacl/base/int128.h"
namespace yacl {
template <typename Block = uint128_t, typename Alloc = std::allocator<Block>>
class dynamic_bitset {
 public:
  static constexpr size_t bits_per_block = sizeof(Block) * 8;
  class reference {
   public:
    reference(Block& b, size_t i) : b_(b), m_(Block(1) << i) {}
    reference& operator=(bool v) { if (v) b_ |= m_; else b_ &= ~m_; return *this; }
    reference& operator=(const reference& o) { return *this = bool(o); }
    operator bool() const { return (b_ & m_) != 0; }
    bool operator~() const { return !bool(*this); }
    reference& operator|=(bool v) { if (v) b_ |= m_; return *this; }
    reference& operator&=(bool v) { if (!v) b_ &= ~m_; return *this; }
    reference& operator^=(bool v) { if (v) b_ ^= m_; return *this; }
   private:
    Block& b_; Block m_;
  };
  dynamic_bitset() = default;
  explicit dynamic_bitset(size_t n, unsigned long long init = 0) { resize(n); if (n) { for (size_t i = 0; i < std::min<size_t>(n, 64); ++i) (*this)[i] = (init >> i) & 1; } }
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  size_t num_blocks() const { return v_.size(); }
  void resize(size_t n, bool val = false) {
    size_t old = n_; n_ = n; v_.resize((n + bits_per_block - 1) / bits_per_block, Block(0));
    if (val) for (size_t i = old; i < n; ++i) (*this)[i] = true;
    trim();
  }
  void reserve(size_t) {}
  void push_back(bool b) { resize(n_ + 1); (*this)[n_ - 1] = b; }
  void append(Block b) { size_t o = n_; resize(n_ + bits_per_block); for (size_t i = 0; i < bits_per_block; ++i) (*this)[o + i] = (b >> i) & 1; }
  void clear() { n_ = 0; v_.clear(); }
  reference operator[](size_t i) { return reference(v_[i / bits_per_block], i % bits_per_block); }
  bool operator[](size_t i) const { return (v_[i / bits_per_block] >> (i % bits_per_block)) & 1; }
  bool test(size_t i) const { return (*this)[i]; }
  void set(size_t i, bool v = true) { (*this)[i] = v; }
  void flip(size_t i) { (*this)[i] = !(*this)[i]; }
  Block* data() { return v_.data(); }
  const Block* data() const { return v_.data(); }
  size_t count() const { size_t c = 0; for (size_t i = 0; i < n_; ++i) c += (*this)[i]; return c; }
  dynamic_bitset& operator^=(const dynamic_bitset& o) { for (size_t i = 0; i < v_.size(); ++i) v_[i] ^= o.v_[i]; return *this; }
  dynamic_bitset& operator&=(const dynamic_bitset& o) { for (size_t i = 0; i < v_.size(); ++i) v_[i] &= o.v_[i]; return *this; }
  dynamic_bitset& operator|=(const dynamic_bitset& o) { for (size_t i = 0; i < v_.size(); ++i) v_[i] |= o.v_[i]; return *this; }
  friend dynamic_bitset operator^(dynamic_bitset a, const dynamic_bitset& b) { a ^= b; return a; }
  friend dynamic_bitset operator&(dynamic_bitset a, const dynamic_bitset& b) { a &= b; return a; }
  dynamic_bitset operator~() const { auto r = *this; for (auto& b : r.v_) b = ~b; r.trim(); return r; }
  bool operator==(const dynamic_bitset& o) const { return n_ == o.n_ && v_ == o.v_; }
 private:
  void trim() { if (n_ % bits_per_block && !v_.empty()) v_.back() &= (Block(1) << (n_ % bits_per_block)) - 1; }
  size_t n_ = 0; std::vector<Block> v_;
};
}  // namespace yacl
