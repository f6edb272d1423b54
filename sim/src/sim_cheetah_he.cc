// Functional stand-ins for the two homomorphic sub-protocols of CHEETAH (SEAL is not
// available): same interface, same message directions, additive shares of the product
// under fresh masks from the evaluator. Ciphertexts are the blinded plaintexts.
#include <future>
#include "yacl/crypto/rand/rand.h"
#include "yacl/crypto/tools/prg.h"
#include "libspu/mpc/cheetah/arith/cheetah_dot.h"
#include "libspu/mpc/cheetah/arith/cheetah_mul.h"
#include "libspu/mpc/utils/ring_ops.h"

namespace spu::mpc::cheetah {
namespace {
// "encryption" under a key both sides share: keeps the bytes on the wire uniform.
NdArrayRef pad_of(FieldType f, const Shape& s, uint64_t k) { uint64_t c = 0; return ring_rand(f, s, uint128_t(k) << 7 | 0x5a, &c); }
yacl::Buffer enc(const NdArrayRef& x, FieldType f) {
  NdArrayRef fx = x.reshape({x.numel()});
  uint64_t k = yacl::crypto::FastRandU64();
  NdArrayRef c = ring_add(fx.as(makeType<RingTy>(f)), pad_of(f, {x.numel()}, k));
  yacl::Buffer b(8 + c.numel() * c.elsize());
  std::memcpy(b.data<char>(), &k, 8);
  std::memcpy(b.data<char>() + 8, c.data(), c.numel() * c.elsize());
  return b;
}
NdArrayRef dec(const yacl::Buffer& b, FieldType f) {
  SPU_ENFORCE(b.size() >= 8 && (b.size() - 8) % SizeOf(f) == 0, "malformed ciphertext");
  int64_t n = (b.size() - 8) / SizeOf(f);
  uint64_t k; std::memcpy(&k, b.data<char>(), 8);
  NdArrayRef c(makeType<RingTy>(f), {n});
  std::memcpy(c.data(), b.data<char>() + 8, n * SizeOf(f));
  return ring_sub(c, pad_of(f, {n}, k));
}
NdArrayRef flat(const NdArrayRef& x) { return x.reshape({x.numel()}).as(makeType<RingTy>(x.eltype().as<Ring2k>()->field())); }
}  // namespace

struct CheetahMul::Impl { std::shared_ptr<yacl::link::Context> lctx; std::mutex lock; int keys = 0; };
CheetahMul::CheetahMul(std::shared_ptr<yacl::link::Context> l, bool) { impl_ = std::make_unique<Impl>(); impl_->lctx = std::move(l); }
CheetahMul::~CheetahMul() = default;
int CheetahMul::Rank() const { return impl_->lctx->Rank(); }
size_t CheetahMul::OLEBatchSize() const { return 8192; }
void CheetahMul::LazyInitKeys(FieldType f, uint32_t) {
  // the real keys are exchanged on the main link the first time a field is used
  if (impl_->keys >> static_cast<int>(f) & 1) return;
  impl_->keys |= 1 << static_cast<int>(f);
  auto* c = impl_->lctx.get();
  uint64_t k = yacl::crypto::FastRandU64();
  if (c->Rank() == 0) { c->Send(c->NextRank(), yacl::ByteContainerView(&k, 8), "rank0 pk"); c->Recv(c->NextRank(), "rank1 pk"); }
  else { c->Recv(c->NextRank(), "rank0 pk"); c->Send(c->NextRank(), yacl::ByteContainerView(&k, 8), "rank1 pk"); }
}
NdArrayRef CheetahMul::MulOLE(const NdArrayRef& x, bool ev, uint32_t h) { return MulOLE(x, nullptr, ev, h); }
NdArrayRef CheetahMul::MulShare(const NdArrayRef& x, const NdArrayRef& y, bool ev, uint32_t h) { return MulShare(x, y, nullptr, ev, h); }
NdArrayRef CheetahMul::MulOLE(const NdArrayRef& x, yacl::link::Context* conn, bool evaluator, uint32_t) {
  if (!conn) conn = impl_->lctx.get();
  SPU_ENFORCE(x.eltype().isa<Ring2k>() && x.numel() > 0);
  auto f = x.eltype().as<Ring2k>()->field();
  if (evaluator) {
    yacl::Buffer b;
    auto io = std::async(std::launch::async, [&] { b = conn->Recv(conn->NextRank(), ""); });
    auto mask = ring_rand(f, {x.numel()});
    io.get();
    auto peer = dec(b, f);
    SPU_ENFORCE_EQ(peer.numel(), x.numel());
    conn->SendAsync(conn->NextRank(), enc(ring_sub(ring_mul(peer, flat(x)), mask), f), "MulOLE resp");
    return mask.reshape(x.shape()).as(x.eltype());
  }
  conn->SendAsync(conn->NextRank(), enc(x, f), "MulOLE ct");
  return dec(conn->Recv(conn->NextRank(), ""), f).reshape(x.shape()).as(x.eltype());
}
NdArrayRef CheetahMul::MulShare(const NdArrayRef& x, const NdArrayRef& y, yacl::link::Context* conn, bool evaluator, uint32_t) {
  if (!conn) conn = impl_->lctx.get();
  SPU_ENFORCE(x.eltype().isa<Ring2k>() && y.eltype().isa<Ring2k>() && x.numel() > 0);
  SPU_ENFORCE_EQ(x.shape(), y.shape());
  auto f = x.eltype().as<Ring2k>()->field();
  NdArrayRef out;
  auto fx = flat(x), fy = flat(y);
  if (evaluator) {
    yacl::Buffer bx, by;
    auto io = std::async(std::launch::async, [&] { bx = conn->Recv(conn->NextRank(), ""); by = conn->Recv(conn->NextRank(), ""); });
    auto mask = ring_rand(f, {x.numel()});
    io.get();
    auto px = dec(bx, f), py = dec(by, f);
    SPU_ENFORCE_EQ(px.numel(), x.numel());
    auto cross = ring_add(ring_mul(px, fy), ring_mul(fx, py));
    conn->SendAsync(conn->NextRank(), enc(ring_sub(cross, mask), f), "MulShare resp");
    out = ring_add(mask, ring_mul(fx, fy));
  } else {
    conn->SendAsync(conn->NextRank(), enc(x, f), "MulShare ct x");
    conn->SendAsync(conn->NextRank(), enc(y, f), "MulShare ct y");
    out = ring_add(dec(conn->Recv(conn->NextRank(), ""), f), ring_mul(fx, fy));
  }
  return out.reshape(x.shape()).as(x.eltype());
}

struct CheetahDot::Impl { std::shared_ptr<yacl::link::Context> lctx; int keys = 0; };
CheetahDot::CheetahDot(const std::shared_ptr<yacl::link::Context>& l, bool) { impl_ = std::make_unique<Impl>(); impl_->lctx = l->Spawn(); }
CheetahDot::~CheetahDot() = default;
void CheetahDot::LazyInitKeys(FieldType f) {
  if (impl_->keys >> static_cast<int>(f) & 1) return;
  impl_->keys |= 1 << static_cast<int>(f);
  auto* c = impl_->lctx.get();
  uint64_t k = yacl::crypto::FastRandU64();
  if (c->Rank() == 0) { c->Send(c->NextRank(), yacl::ByteContainerView(&k, 8), "rank0 pk"); c->Recv(c->NextRank(), "rank1 pk"); }
  else { c->Recv(c->NextRank(), "rank0 pk"); c->Send(c->NextRank(), yacl::ByteContainerView(&k, 8), "rank1 pk"); }
}
NdArrayRef CheetahDot::DotOLE(const NdArrayRef& p, const Shape3D& d, bool lhs) { return DotOLE(p, impl_->lctx.get(), d, lhs); }
NdArrayRef CheetahDot::DotOLE(const NdArrayRef& p, yacl::link::Context* conn, const Shape3D& d, bool lhs) {
  if (!conn) conn = impl_->lctx.get();
  SPU_ENFORCE(p.eltype().isa<Ring2k>() && p.numel() > 0 && p.ndim() == 2);
  SPU_ENFORCE_EQ(p.numel(), lhs ? d[0] * d[1] : d[1] * d[2]);
  auto f = p.eltype().as<Ring2k>()->field();
  Shape os = {d[0], d[2]};
  // the larger operand's holder evaluates; both sides agree from the public shape
  bool ev = (d[0] * d[1] >= d[1] * d[2]) == lhs;
  if (!ev) {
    conn->SendAsync(conn->NextRank(), enc(p, f), "DotOLE ct");
    auto r = dec(conn->Recv(conn->NextRank(), ""), f);
    SPU_ENFORCE_EQ(r.numel(), d[0] * d[2]);
    return r.reshape(os).as(p.eltype());
  }
  auto peer = dec(conn->Recv(conn->NextRank(), ""), f);
  SPU_ENFORCE_EQ(peer.numel(), lhs ? d[1] * d[2] : d[0] * d[1]);
  auto own = flat(p);
  auto prod = lhs ? ring_mmul(own.reshape({d[0], d[1]}), peer.reshape({d[1], d[2]}))
                  : ring_mmul(peer.reshape({d[0], d[1]}), own.reshape({d[1], d[2]}));
  auto mask = ring_rand(f, os);
  conn->SendAsync(conn->NextRank(), enc(ring_sub(prod, mask), f), "DotOLE resp");
  return mask.as(p.eltype());
}
NdArrayRef CheetahDot::BatchDotOLE(const NdArrayRef&, yacl::link::Context*, const Shape4D&, bool) { SPU_THROW("BatchDotOLE: not simulated"); }
}  // namespace spu::mpc::cheetah
