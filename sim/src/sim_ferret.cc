// Functional stand-ins for the silent-OT back ends (emp-ot / yacl Ferret are not
// installed): same interface and buffering discipline, correlations from a seed the
// sender shares at set-up, receivers derandomise with masked choices on the wire.
#include "libspu/mpc/cheetah/ot/emp/ferret.h"
#include "libspu/mpc/cheetah/ot/yacl/ferret.h"
#include "sim/sim.h"
#include "yacl/crypto/rand/rand.h"

namespace spu::mpc::cheetah {
namespace {
struct Io {  // buffers sends until a flush or a receive, like the real transport wrapper
  std::shared_ptr<Communicator> conn;
  std::vector<uint8_t> out, in;
  size_t used = 0;
  void flush() {
    if (out.empty()) return;
    conn->sendAsync<uint8_t>(conn->nextRank(), absl::MakeConstSpan(out), "ot");
    out.clear();
  }
  void send(const void* p, size_t n) {
    const auto* c = static_cast<const uint8_t*>(p);
    while (n) {
      size_t k = std::min<size_t>(n, (1 << 20) - out.size());
      out.insert(out.end(), c, c + k); c += k; n -= k;
      if (out.size() == (1 << 20)) flush();
    }
  }
  void recv(void* p, size_t n) {
    flush();
    auto* c = static_cast<uint8_t*>(p);
    while (n) {
      if (used == in.size()) { auto v = conn->recv<uint8_t>(conn->nextRank(), "ot"); in.assign(v.begin(), v.end()); used = 0; if (in.empty()) continue; }
      size_t k = std::min(n, in.size() - used);
      std::memcpy(c, in.data() + used, k); used += k; c += k; n -= k;
    }
  }
};
template <typename T> T mask_of(size_t bw) { return bw == 0 || bw >= 8 * sizeof(T) ? static_cast<T>(-1) : static_cast<T>((static_cast<T>(1) << bw) - 1); }
struct Ot {
  Io io;
  bool sender;
  uint64_t s0 = 0, s1 = 0, ctr = 0, priv = 0, pctr = 0;
  Ot(std::shared_ptr<Communicator> c, bool is_sender) : sender(is_sender) {
    io.conn = std::move(c);
    if (sender) { uint64_t b[2] = {yacl::crypto::FastRandU64(), yacl::crypto::FastRandU64()}; s0 = b[0]; s1 = b[1]; io.send(b, 16); io.flush(); }
    else { uint64_t b[2]; io.recv(b, 16); s0 = b[0]; s1 = b[1]; priv = yacl::crypto::FastRandU64(); }
  }
  ~Ot() { try { io.flush(); } catch (const std::exception&) {} }
  template <typename T> T pad(uint64_t i, uint64_t j) const {
    uint64_t a = sim::mix64(sim::mix64(s0 + i * 0x9E3779B97F4A7C15ULL) ^ sim::mix64(s1 + j));
    uint64_t b = sim::mix64(a ^ s1);
    if constexpr (sizeof(T) == 16) return yacl::MakeUint128(a, b); else return static_cast<T>(a);
  }
  // chosen choice: the receiver's random choice r comes out of its own stream, d = c - r goes out
  std::vector<uint8_t> send_derand(size_t n) { SPU_ENFORCE(sender); std::vector<uint8_t> d(n); io.recv(d.data(), n); return d; }
  std::vector<uint8_t> recv_derand(absl::Span<const uint8_t> c, size_t N) {
    SPU_ENFORCE(!sender);
    std::vector<uint8_t> d(c.size()), r(c.size());
    for (size_t i = 0; i < c.size(); ++i) {
      SPU_ENFORCE(c[i] < N, "choice out-of-bound N={}", N);
      r[i] = sim::mix64(priv + pctr++) % N;
      d[i] = static_cast<uint8_t>((c[i] + N - r[i]) % N);
    }
    io.send(d.data(), d.size());
    io.flush();
    return r;
  }
  template <typename T> void SendCMCC(absl::Span<const T> m, size_t N, size_t bw) {
    if (bw == 0) bw = 8 * sizeof(T);
    SPU_ENFORCE(N >= 2 && N <= 256 && bw <= 8 * sizeof(T) && !m.empty() && m.size() % N == 0);
    size_t n = m.size() / N;
    auto d = send_derand(n);
    std::vector<T> o(m.size());
    T mk = mask_of<T>(bw);
    for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < N; ++k) o[i * N + k] = (m[i * N + k] ^ pad<T>(ctr + i, (k + N - d[i] % N) % N)) & mk;
    ctr += n;
    io.send(o.data(), o.size() * sizeof(T));
  }
  template <typename T> void RecvCMCC(absl::Span<const uint8_t> c, size_t N, absl::Span<T> out, size_t bw) {
    if (bw == 0) bw = 8 * sizeof(T);
    SPU_ENFORCE(N >= 2 && N <= 256 && bw <= 8 * sizeof(T) && !c.empty());
    SPU_ENFORCE_EQ(c.size(), out.size());
    auto r = recv_derand(c, N);
    std::vector<T> b(c.size() * N);
    io.recv(b.data(), b.size() * sizeof(T));
    T mk = mask_of<T>(bw);
    for (size_t i = 0; i < c.size(); ++i) out[i] = (b[i * N + c[i]] ^ pad<T>(ctr + i, r[i])) & mk;
    ctr += c.size();
  }
  template <typename T> void SendRMRC(absl::Span<T> o0, absl::Span<T> o1, size_t bw) {
    SPU_ENFORCE(sender && !o0.empty()); SPU_ENFORCE_EQ(o0.size(), o1.size());
    T mk = mask_of<T>(bw);
    uint64_t blind = 0; io.recv(&blind, 8);
    for (size_t i = 0; i < o0.size(); ++i) { o0[i] = pad<T>(ctr + i, 0) & mk; o1[i] = pad<T>(ctr + i, 1) & mk; }
    ctr += o0.size();
  }
  template <typename T> void RecvRMRC(absl::Span<uint8_t> c, absl::Span<T> o, size_t bw) {
    SPU_ENFORCE(!sender && !c.empty()); SPU_ENFORCE_EQ(c.size(), o.size());
    T mk = mask_of<T>(bw);
    uint64_t blind = sim::mix64(priv + pctr++); io.send(&blind, 8); io.flush();
    for (size_t i = 0; i < c.size(); ++i) { c[i] = sim::mix64(priv + pctr++) & 1; o[i] = pad<T>(ctr + i, c[i]) & mk; }
    ctr += c.size();
  }
  template <typename T> void SendRMCC(absl::Span<T> o0, absl::Span<T> o1, size_t bw) {
    SPU_ENFORCE(!o0.empty()); SPU_ENFORCE_EQ(o0.size(), o1.size());
    auto d = send_derand(o0.size());
    T mk = mask_of<T>(bw);
    for (size_t i = 0; i < o0.size(); ++i) { o0[i] = pad<T>(ctr + i, d[i] & 1) & mk; o1[i] = pad<T>(ctr + i, (d[i] & 1) ^ 1) & mk; }
    ctr += o0.size();
  }
  template <typename T> void RecvRMCC(absl::Span<const uint8_t> c, absl::Span<T> o, size_t bw) {
    SPU_ENFORCE(!c.empty()); SPU_ENFORCE_EQ(c.size(), o.size());
    auto r = recv_derand(c, 2);
    T mk = mask_of<T>(bw);
    for (size_t i = 0; i < c.size(); ++i) o[i] = pad<T>(ctr + i, r[i]) & mk;
    ctr += c.size();
  }
  // (x, x + corr * choice), bits above the requested width carry no meaning
  template <typename T> void SendCAMCC(absl::Span<const T> corr, absl::Span<T> out, int bw, int levels) {
    size_t n = corr.size();
    SPU_ENFORCE_EQ(n, out.size());
    if (bw == 0) bw = 8 * sizeof(T);
    SPU_ENFORCE(bw > 0 && bw <= (int)(8 * sizeof(T)) && levels > 0 && n % levels == 0 && bw >= levels);
    auto d = send_derand(n);
    std::vector<T> c(n);
    for (size_t i = 0; i < n; ++i) {
      T mk = mask_of<T>(bw - i / (n / levels));
      out[i] = pad<T>(ctr + i, d[i] & 1);
      c[i] = (pad<T>(ctr + i, (d[i] & 1) ^ 1) + corr[i] + out[i]) & mk;
    }
    ctr += n;
    io.send(c.data(), n * sizeof(T));
    if (levels > 1) io.flush();
  }
  template <typename T> void RecvCAMCC(absl::Span<const uint8_t> c, absl::Span<T> out, int bw, int levels) {
    size_t n = c.size();
    SPU_ENFORCE_EQ(n, out.size());
    if (bw == 0) bw = 8 * sizeof(T);
    SPU_ENFORCE(bw > 0 && bw <= (int)(8 * sizeof(T)) && levels > 0 && n % levels == 0 && bw >= levels);
    auto r = recv_derand(c, 2);
    std::vector<T> b(n);
    io.recv(b.data(), n * sizeof(T));
    for (size_t i = 0; i < n; ++i) { T p = pad<T>(ctr + i, r[i]); out[i] = c[i] ? static_cast<T>(b[i] - p) : p; }
    ctr += n;
  }
};
}  // namespace

struct EmpFerretOt::Impl : Ot { using Ot::Ot; };
struct YaclFerretOt::Impl : Ot { using Ot::Ot; };
EmpFerretOt::EmpFerretOt(std::shared_ptr<Communicator> c, bool s, bool) : impl_(std::make_shared<Impl>(std::move(c), s)) {}
YaclFerretOt::YaclFerretOt(std::shared_ptr<Communicator> c, bool s, bool) : impl_(std::make_shared<Impl>(std::move(c), s)) {}

#define DEF_T(C, T)                                                                                                              \
  void C::SendCMCC(absl::Span<const T> m, size_t N, size_t bw) { impl_->SendCMCC<T>(m, N, bw); }                                 \
  void C::RecvCMCC(absl::Span<const uint8_t> c, size_t N, absl::Span<T> o, size_t bw) { impl_->RecvCMCC<T>(c, N, o, bw); }       \
  void C::SendRMRC(absl::Span<T> a, absl::Span<T> b, size_t bw) { impl_->SendRMRC<T>(a, b, bw); }                                \
  void C::RecvRMRC(absl::Span<uint8_t> c, absl::Span<T> o, size_t bw) { impl_->RecvRMRC<T>(c, o, bw); }                          \
  void C::SendCAMCC(absl::Span<const T> c, absl::Span<T> o, int bw) { impl_->SendCAMCC<T>(c, o, bw, 1); }                        \
  void C::RecvCAMCC(absl::Span<const uint8_t> c, absl::Span<T> o, int bw) { impl_->RecvCAMCC<T>(c, o, bw, 1); }                  \
  void C::SendCAMCC_Collapse(absl::Span<const T> c, absl::Span<T> o, int bw, int l) { impl_->SendCAMCC<T>(c, o, bw, l); Flush(); } \
  void C::RecvCAMCC_Collapse(absl::Span<const uint8_t> c, absl::Span<T> o, int bw, int l) { impl_->RecvCAMCC<T>(c, o, bw, l); }  \
  void C::SendRMCC(absl::Span<T> a, absl::Span<T> b, size_t bw) { impl_->SendRMCC<T>(a, b, bw); }                                \
  void C::RecvRMCC(absl::Span<const uint8_t> c, absl::Span<T> o, size_t bw) { impl_->RecvRMCC<T>(c, o, bw); }
#define DEF(C)                                             \
  C::~C() = default;                                       \
  int C::Rank() const { return impl_->io.conn->getRank(); } \
  void C::Flush() { impl_->io.flush(); }                   \
  DEF_T(C, uint8_t) DEF_T(C, uint32_t) DEF_T(C, uint64_t) DEF_T(C, uint128_t)
DEF(EmpFerretOt)
DEF(YaclFerretOt)
}  // namespace spu::mpc::cheetah
