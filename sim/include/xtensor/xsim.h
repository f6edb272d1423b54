// A small owning/viewing n-d array with the part of the xtensor API that libspu uses.
#pragma once
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <memory>
#include <ostream>
#include <type_traits>
#include <utility>
#include <vector>
namespace xt {
struct no_ownership {};
template <typename D> class xexpression {
 public:
  const D& derived_cast() const & { return *static_cast<const D*>(this); }
};
template <typename T> class xarray;
// strided view over foreign memory
template <typename T> class xview_adapt : public xexpression<xview_adapt<T>> {
 public:
  using value_type = std::remove_const_t<T>;
  xview_adapt(T* p, std::vector<int64_t> sh, std::vector<int64_t> st) : p_(p), shape_(sh.begin(), sh.end()), st_(std::move(st)) {}
  const std::vector<size_t>& shape() const { return shape_; }
  size_t size() const { size_t n = 1; for (auto d : shape_) n *= d; return n; }
  size_t dimension() const { return shape_.size(); }
  T& flat(size_t i) const {
    int64_t off = 0;
    for (size_t d = shape_.size(); d-- > 0;) { off += static_cast<int64_t>(i % shape_[d]) * st_[d]; i /= shape_[d]; }
    return p_[off];
  }
  template <typename U> xview_adapt& operator=(const xarray<U>& o) { for (size_t i = 0; i < size(); ++i) flat(i) = static_cast<T>(o.flat(i)); return *this; }
  template <typename U> xview_adapt& operator=(const xview_adapt<U>& o) { for (size_t i = 0; i < size(); ++i) flat(i) = static_cast<T>(o.flat(i)); return *this; }
 private:
  T* p_;
  std::vector<size_t> shape_;
  std::vector<int64_t> st_;
};
template <typename T> class xarray : public xexpression<xarray<T>> {
 public:
  using value_type = T;
  using shape_type = std::vector<size_t>;
  xarray() : n_(1), d_(new T[1]()) {}
  explicit xarray(std::vector<size_t> sh) { alloc(std::move(sh)); }
  xarray(std::initializer_list<T> l) { alloc({l.size()}); size_t i = 0; for (auto& v : l) d_[i++] = v; }
  xarray(const xarray& o) { alloc(o.shape_); for (size_t i = 0; i < n_; ++i) d_[i] = o.d_[i]; }
  xarray(xarray&& o) noexcept = default;
  xarray& operator=(const xarray& o) { if (this != &o) { alloc(o.shape_); for (size_t i = 0; i < n_; ++i) d_[i] = o.d_[i]; } return *this; }
  xarray& operator=(xarray&& o) noexcept = default;
  template <typename U> xarray(const xview_adapt<U>& o) { alloc(o.shape()); for (size_t i = 0; i < n_; ++i) d_[i] = static_cast<T>(o.flat(i)); }  // NOLINT
  const std::vector<size_t>& shape() const { return shape_; }
  const std::vector<int64_t>& strides() const { return strides_; }
  size_t size() const { return n_; }
  size_t dimension() const { return shape_.size(); }
  const T* data() const { return d_.get(); }
  T* data() { return d_.get(); }
  T& operator[](size_t i) { return d_[i]; }
  const T& operator[](size_t i) const { return d_[i]; }
  const T& flat(size_t i) const { return d_[i]; }
  T& flat(size_t i) { return d_[i]; }
  const T& front() const { return d_[0]; }
  T* begin() { return d_.get(); }
  T* end() { return d_.get() + n_; }
  const T* begin() const { return d_.get(); }
  const T* end() const { return d_.get() + n_; }
 private:
  void alloc(std::vector<size_t> sh) { shape_ = std::move(sh); n_ = 1; for (auto d : shape_) n_ *= d; d_.reset(new T[n_ ? n_ : 1]());
    strides_.assign(shape_.size(), 0); int64_t st = 1;
    for (size_t i = shape_.size(); i-- > 0;) { strides_[i] = shape_[i] == 1 ? 0 : st; st *= static_cast<int64_t>(shape_[i]); } }
  std::vector<size_t> shape_;
  std::vector<int64_t> strides_;
  size_t n_ = 0;
  std::unique_ptr<T[]> d_;
};
template <typename T> std::ostream& operator<<(std::ostream& os, const xarray<T>& a) { os << '{'; for (size_t i = 0; i < a.size(); ++i) os << (i ? ", " : "") << +a[i]; return os << '}'; }
template <typename T> auto adapt(T* p, size_t, no_ownership, std::vector<int64_t> sh, std::vector<int64_t> st) { return xview_adapt<T>(p, std::move(sh), std::move(st)); }
template <typename T, typename U> xarray<T> cast(const xview_adapt<U>& v) { return xarray<T>(v); }
template <typename E> const E& eval(const E& e) { return e; }
template <typename T> xarray<T> eye(std::vector<size_t> sh, int k = 0) {
  xarray<T> r(sh);
  for (size_t i = 0; i < sh[0]; ++i) { int64_t j = static_cast<int64_t>(i) + k; if (j >= 0 && j < static_cast<int64_t>(sh[1])) r[i * sh[1] + j] = 1; }
  return r;
}
}  // namespace xt
