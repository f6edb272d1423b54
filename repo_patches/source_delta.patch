From d85d5e17b6fd458dea3fc9c6974b7d93695588ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:28 +0000
Subject: [PATCH 01/43] fix: bit reversal up to the full ring width drops low
 bits (shift by full width)

---
 src/libspu/mpc/utils/ring_ops.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/mpc/utils/ring_ops.cc b/src/libspu/mpc/utils/ring_ops.cc
index e0e67b2..a1ac3ae 100644
--- a/src/libspu/mpc/utils/ring_ops.cc
+++ b/src/libspu/mpc/utils/ring_ops.cc
@@ -148,13 +148,14 @@ void ring_bitrev_impl(NdArrayRef& ret, const NdArrayRef& x, size_t start,
     // optimize: use faster reverse method.
     auto bitrev_fn = [&](U in) -> U {
       U tmp = 0U;
+      U mask = 0U;  // bits [start, end), end may be the full width of U.
       for (size_t idx = start; idx < end; idx++) {
+        mask |= (U)1 << idx;
         if (in & ((U)1 << idx)) {
           tmp |= (U)1 << (end - 1 - idx + start);
         }
       }
 
-      U mask = ((U)1U << end) - ((U)1U << start);
       return (in & ~mask) | tmp;
     };
 
-- 
2.43.0


From 0fa4896798d8c4efc2a44c1d4f09403b430769d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:28 +0000
Subject: [PATCH 02/43] fix: aby3 right shift of a narrow boolean share past
 its storage width gives garbage

---
 src/libspu/mpc/aby3/boolean.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libspu/mpc/aby3/boolean.cc b/src/libspu/mpc/aby3/boolean.cc
index d83066a..da80998 100644
--- a/src/libspu/mpc/aby3/boolean.cc
+++ b/src/libspu/mpc/aby3/boolean.cc
@@ -419,7 +419,8 @@ NdArrayRef RShiftB::proc(KernelEvalContext*, const NdArrayRef& in,
   bool is_splat = bits.size() == 1;
 
   return DISPATCH_UINT_PT_TYPES(in_ty->getBacktype(), [&]() {
-    using in_shr_t = std::array<ScalarT, 2>;
+    using in_el_t = ScalarT;
+    using in_shr_t = std::array<in_el_t, 2>;
     NdArrayView<in_shr_t> _in(in);
 
     return DISPATCH_UINT_PT_TYPES(out_btype, [&]() {
@@ -432,6 +433,12 @@ NdArrayRef RShiftB::proc(KernelEvalContext*, const NdArrayRef& in,
       pforeach(0, in.numel(), [&](int64_t idx) {
         const auto& v = _in[idx];
         auto shift_bit = is_splat ? bits[0] : bits[idx];
+        // the storage may be narrower than the ring, shift everything out.
+        if (static_cast<size_t>(shift_bit) >= sizeof(in_el_t) * 8) {
+          _out[idx][0] = 0;
+          _out[idx][1] = 0;
+          return;
+        }
         _out[idx][0] = static_cast<out_el_t>(v[0] >> shift_bit);
         _out[idx][1] = static_cast<out_el_t>(v[1] >> shift_bit);
       });
-- 
2.43.0


From 7cddc9f19b5831e390edd362ab78645ac0525f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:28 +0000
Subject: [PATCH 03/43] fix: aby3 bit reversal up to the full storage width
 drops low bits

---
 src/libspu/mpc/aby3/boolean.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/mpc/aby3/boolean.cc b/src/libspu/mpc/aby3/boolean.cc
index da80998..c92a7a4 100644
--- a/src/libspu/mpc/aby3/boolean.cc
+++ b/src/libspu/mpc/aby3/boolean.cc
@@ -503,13 +503,14 @@ NdArrayRef BitrevB::proc(KernelEvalContext*, const NdArrayRef& in, size_t start,
 
       auto bitrev_fn = [&](out_el_t el) -> out_el_t {
         out_el_t tmp = 0U;
+        out_el_t mask = 0U;  // bits [start, end), end may be the full width.
         for (size_t idx = start; idx < end; idx++) {
+          mask |= (out_el_t)1 << idx;
           if (el & ((out_el_t)1 << idx)) {
             tmp |= (out_el_t)1 << (end - 1 - idx + start);
           }
         }
 
-        out_el_t mask = ((out_el_t)1U << end) - ((out_el_t)1U << start);
         return (el & ~mask) | tmp;
       };
 
-- 
2.43.0


From 1ddb78f76107fb37936888007b2ebc84bc7ce637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:28 +0000
Subject: [PATCH 04/43] fix: swift rand_a takes gamma from the wrong PRSS seed
 on the third party

---
 src/libspu/mpc/experimental/swift/arithmetic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/mpc/experimental/swift/arithmetic.cc b/src/libspu/mpc/experimental/swift/arithmetic.cc
index 9e178b4..82ce827 100644
--- a/src/libspu/mpc/experimental/swift/arithmetic.cc
+++ b/src/libspu/mpc/experimental/swift/arithmetic.cc
@@ -635,7 +635,7 @@ NdArrayRef RandA::proc(KernelEvalContext* ctx, const Shape& shape) const {
   if (rank == 2) {
     alpha2 = r1;
     beta = r0;
-    gamma = r3;
+    gamma = r2;
   }
 
   auto beta_plus_gamma = ring_add(beta, gamma);
-- 
2.43.0


From a7ea1c461398d52a39ef05a7e7eedc61331aab92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:28 +0000
Subject: [PATCH 05/43] fix: securenn rand_a leaves a share on the helper
 party, which multiplication ignores

---
 src/libspu/mpc/securenn/arithmetic.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libspu/mpc/securenn/arithmetic.cc b/src/libspu/mpc/securenn/arithmetic.cc
index 2bb7bb6..b570ec3 100644
--- a/src/libspu/mpc/securenn/arithmetic.cc
+++ b/src/libspu/mpc/securenn/arithmetic.cc
@@ -109,8 +109,13 @@ NdArrayRef RandA::proc(KernelEvalContext* ctx, const Shape& shape) const {
   // - https://eprint.iacr.org/2019/599.pdf
   // It's safer to keep the number within [-2**(k-2), 2**(k-2)) for comparison
   // operations.
-  return ring_rshift(prg_state->genPriv(field, shape), {2})
-      .as(makeType<AShrTy>(field));
+  auto r = ring_rshift(prg_state->genPriv(field, shape), {2});
+
+  // P2 is the helper party, a valid sharing is held by P0 and P1 only.
+  if (ctx->getState<Communicator>()->getRank() == 2) {
+    r = ring_zeros(field, shape);
+  }
+  return r.as(makeType<AShrTy>(field));
 }
 
 NdArrayRef P2A::proc(KernelEvalContext* ctx, const NdArrayRef& in) const {
-- 
2.43.0


From f1c24cdece5ef9588c17171fecf1636ca36f6bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:28 +0000
Subject: [PATCH 06/43] fix: cheetah and_bb on a zero-bit boolean share fails
 instead of giving zeros

---
 src/libspu/mpc/cheetah/boolean.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libspu/mpc/cheetah/boolean.cc b/src/libspu/mpc/cheetah/boolean.cc
index d6ad486..4ecb6f1 100644
--- a/src/libspu/mpc/cheetah/boolean.cc
+++ b/src/libspu/mpc/cheetah/boolean.cc
@@ -17,6 +17,8 @@
 #include "libspu/core/ndarray_ref.h"
 #include "libspu/mpc/cheetah/ot/basic_ot_prot.h"
 #include "libspu/mpc/cheetah/state.h"
+#include "libspu/mpc/cheetah/type.h"
+#include "libspu/mpc/utils/ring_ops.h"
 
 namespace spu::mpc::cheetah {
 
@@ -29,6 +31,12 @@ NdArrayRef AndBB::proc(KernelEvalContext* ctx, const NdArrayRef& lhs,
     return NdArrayRef(lhs.eltype(), lhs.shape());
   }
 
+  const auto* lhs_ty = lhs.eltype().as<BShrTy>();
+  if (lhs_ty->nbits() == 0) {
+    // nothing but zeros, e.g. all the valid bits are shifted out.
+    return ring_zeros(lhs_ty->field(), lhs.shape()).as(lhs.eltype());
+  }
+
   return TiledDispatchOTFunc(
              ctx, lhs, rhs,
              [&](const NdArrayRef& input0, const NdArrayRef& input1,
-- 
2.43.0


From 18685bfd9ee33a75a38f174524e956fdbfa27f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:28 +0000
Subject: [PATCH 07/43] fix: cheetah truncation by one bit of a negative value
 is refused

---
 src/libspu/mpc/cheetah/ot/basic_ot_prot.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/mpc/cheetah/ot/basic_ot_prot.cc b/src/libspu/mpc/cheetah/ot/basic_ot_prot.cc
index 54f9b70..b9d7b64 100644
--- a/src/libspu/mpc/cheetah/ot/basic_ot_prot.cc
+++ b/src/libspu/mpc/cheetah/ot/basic_ot_prot.cc
@@ -220,7 +220,7 @@ NdArrayRef BasicOTProtocols::B2ASingleBitWithSize(const NdArrayRef &inp,
   const auto *share_t = inp.eltype().as<BShrTy>();
   SPU_ENFORCE(share_t->nbits() == 1, "Support for 1bit boolean only");
   auto field = inp.eltype().as<Ring2k>()->field();
-  SPU_ENFORCE(bit_width > 1 && bit_width < (int)(8 * SizeOf(field)),
+  SPU_ENFORCE(bit_width > 0 && bit_width < (int)(8 * SizeOf(field)),
               "bit_width={} is invalid", bit_width);
   return SingleB2A(inp, bit_width);
 }
-- 
2.43.0


From db4a3e0d2edeb385071a3572c7e08ee2c639c34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:12 +0000
Subject: [PATCH 08/43] hook: task size and replay chunk size are chosen per
 run in simulation builds (SPU_SIM)

---
 src/libspu/core/parallel_utils.h                           | 5 +++++
 .../semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc  | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/src/libspu/core/parallel_utils.h b/src/libspu/core/parallel_utils.h
index 90c8c63..0e10af2 100644
--- a/src/libspu/core/parallel_utils.h
+++ b/src/libspu/core/parallel_utils.h
@@ -21,7 +21,12 @@
 
 namespace spu {
 
+#ifdef SPU_SIM
+// Simulation builds choose the task size per run.
+extern int64_t kMinTaskSize;
+#else
 constexpr int64_t kMinTaskSize = 50000;
+#endif
 
 template <class F>
 inline auto pforeach(int64_t begin, int64_t end, F&& f) -> std::enable_if_t<
diff --git a/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc b/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc
index 28f2311..c8f0f89 100644
--- a/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc
+++ b/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc
@@ -43,9 +43,16 @@ DECLARE_int64(socket_max_unwritten_bytes);
 
 namespace spu::mpc::semi2k::beaver::ttp_server {
 
+#ifdef SPU_SIM
+// Simulation builds choose the chunk size per run.
+extern int64_t kReplayChunkSize;
+#endif
+
 namespace {
 
+#ifndef SPU_SIM
 const int64_t kReplayChunkSize = 32L * 1024 * 1024;
+#endif
 
 inline size_t CeilDiv(size_t a, size_t b) { return (a + b - 1) / b; }
 
-- 
2.43.0


From a0819fc22516253936cd3020760e169a076d24e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:04 +0000
Subject: [PATCH 09/43] fix: TTP truncation pair larger than one chunk is
 streamed interleaved and garbled

---
 .../mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc       |  4 ++--
 .../beaver/beaver_impl/ttp_server/beaver_server.cc    | 11 +++++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
index 9a60889..0339dbc 100644
--- a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
+++ b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
@@ -254,8 +254,8 @@ class ProgressiveReader : public brpc::ProgressiveReader {
         SPU_THROW("response size mismatch, outof index");
       }
       auto& buffer = receive_buffers_[current_buffer_idx_];
-      auto cp_size =
-          std::min<size_t>(length, buffer.size() - current_buffer_pos_);
+      auto cp_size = std::min<size_t>(length - data_pos,
+                                      buffer.size() - current_buffer_pos_);
       std::memcpy(buffer.data<uint8_t>() + current_buffer_pos_,
                   reinterpret_cast<const uint8_t*>(data) + data_pos, cp_size);
       current_buffer_pos_ += cp_size;
diff --git a/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc b/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc
index c8f0f89..25982a9 100644
--- a/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc
+++ b/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc
@@ -367,6 +367,9 @@ void AdjustAndSend(
       int64_t left_elements = ops[0].desc.shape.at(0);
       int64_t chunk_elements =
           beaver::ttp_server::kReplayChunkSize / SizeOf(ops[0].desc.field);
+      // The client fills its buffers one after the other, so all chunks of the
+      // first adjust go before the chunks of the following ones.
+      std::vector<std::vector<NdArrayRef>> later_adjusts;
       while (left_elements > 0) {
         int64_t cur_elements = std::min(left_elements, chunk_elements);
         left_elements -= cur_elements;
@@ -374,12 +377,20 @@ void AdjustAndSend(
           op.desc.shape[0] = cur_elements;
         }
         auto adjusts = AdjustImpl(request, absl::MakeSpan(ops), perm);
+        later_adjusts.resize(adjusts.size() - 1);
+        for (size_t idx = 1; idx < adjusts.size(); idx++) {
+          later_adjusts[idx - 1].push_back(std::move(adjusts[idx]));
+        }
+        adjusts.resize(1);
         if (left_elements > 0) {
           SendStreamData(adjusts, pa);
         } else {
           SendStreamData(adjusts, pa, pad_length);
         }
       }
+      for (const auto& adjusts : later_adjusts) {
+        SendStreamData(adjusts, pa);
+      }
     }
   } catch (const yacl::IoError& e) {
     // streaming write error, we can do nothing but logging
-- 
2.43.0


From 0225046ab65d9e561770f67add8027e88cb747cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:38 +0000
Subject: [PATCH 10/43] hook: element accesses of parallel loops are preemption
 points in simulation builds (SPU_SIM)

---
 src/libspu/core/ndarray_ref.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/libspu/core/ndarray_ref.h b/src/libspu/core/ndarray_ref.h
index a797d80..d90abc5 100644
--- a/src/libspu/core/ndarray_ref.h
+++ b/src/libspu/core/ndarray_ref.h
@@ -411,6 +411,17 @@ NdArrayRef makeConstantArrayRef(const Type& eltype, const Shape& shape);
 
 std::ostream& operator<<(std::ostream& out, const NdArrayRef& v);
 
+#ifdef SPU_SIM
+// Simulation builds may switch tasks at every element access of a parallel
+// loop.
+extern bool kSimPreemptElements;
+void simPreemptElement();
+#define SPU_SIM_ELEMENT_ACCESS() \
+  if (kSimPreemptElements) simPreemptElement()
+#else
+#define SPU_SIM_ELEMENT_ACCESS()
+#endif
+
 template <typename T>
 class NdArrayView {
  private:
@@ -431,6 +442,7 @@ class NdArrayView {
   int64_t numel() const { return arr_->numel(); }
 
   T& operator[](size_t idx) {
+    SPU_SIM_ELEMENT_ACCESS();
     if (arr_->canUseFastIndexing()) {
       return *reinterpret_cast<T*>(arr_->data<std::byte>() +
                                    elsize_ * idx * arr_->fastIndexingStride());
@@ -442,6 +454,7 @@ class NdArrayView {
   }
 
   T const& operator[](size_t idx) const {
+    SPU_SIM_ELEMENT_ACCESS();
     if (arr_->canUseFastIndexing()) {
       return *reinterpret_cast<T*>(arr_->data<std::byte>() +
                                    elsize_ * idx * arr_->fastIndexingStride());
-- 
2.43.0


From 5206bde027c11dac103f6bee10f2217432481706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:14 +0000
Subject: [PATCH 11/43] fix: securenn share conversion and msb share scratch
 variables between the tasks of a parallel loop

---
 src/libspu/mpc/securenn/arithmetic.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/libspu/mpc/securenn/arithmetic.cc b/src/libspu/mpc/securenn/arithmetic.cc
index b570ec3..ef04313 100644
--- a/src/libspu/mpc/securenn/arithmetic.cc
+++ b/src/libspu/mpc/securenn/arithmetic.cc
@@ -675,14 +675,12 @@ NdArrayRef ShareConvert::proc(KernelEvalContext* ctx,
       NdArrayRef c(ty, {size * k});
       NdArrayView<U> _c(c);
 
-      size_t w;
-      size_t w_total;
-
       pforeach(0, size, [&](int64_t idx) {
         auto r_bits = bitDecompose(_r[idx], k);
         auto t_bits = bitDecompose(_t[idx], k);
 
-        w_total = 0;
+        size_t w;
+        size_t w_total = 0;
         for (int i = (int)(k - 1); i >= 0; i--) {
           if (_eta__[idx] == 0) {
             w = (p + _dp_x[idx * k + i] + rank * r_bits[i] -
@@ -1091,14 +1089,12 @@ NdArrayRef Msb::proc(KernelEvalContext* ctx, const NdArrayRef& in) const {
       NdArrayRef c(ty, {size * k});
       NdArrayView<U> _c(c);
 
-      size_t w;
-      size_t w_total;
-
       pforeach(0, in.numel(), [&](int64_t idx) {
         auto r_bits = bitDecompose(_r[idx], k);
         auto t_bits = bitDecompose(_t[idx], k);
         _lsb_r[idx] = static_cast<U>(r_bits[0]);
-        w_total = 0;
+        size_t w;
+        size_t w_total = 0;
         for (int i = (int)(k - 1); i >= 0; i--) {
           if (_beta[idx] == 0) {
             w = (p + _dp_x[idx * k + i] + rank * r_bits[i] -
-- 
2.43.0


From 89ccab26ae911fbb810940529cd3900c26b2256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:30 +0000
Subject: [PATCH 12/43] fix: cheetah product of an arithmetic share view and a
 private bit fails on strided inputs

---
 src/libspu/mpc/cheetah/ot/basic_ot_prot.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libspu/mpc/cheetah/ot/basic_ot_prot.cc b/src/libspu/mpc/cheetah/ot/basic_ot_prot.cc
index b9d7b64..1f03e08 100644
--- a/src/libspu/mpc/cheetah/ot/basic_ot_prot.cc
+++ b/src/libspu/mpc/cheetah/ot/basic_ot_prot.cc
@@ -507,8 +507,9 @@ NdArrayRef BasicOTProtocols::PrivateMulxRecv(const NdArrayRef &msg,
   return recv.as(msg.eltype());
 }
 
-NdArrayRef BasicOTProtocols::PrivateMulxSend(const NdArrayRef &msg) {
-  SPU_ENFORCE(msg.isCompact());
+NdArrayRef BasicOTProtocols::PrivateMulxSend(const NdArrayRef &input) {
+  // Strided inputs (e.g. slices or reversed views) are compacted first.
+  const NdArrayRef msg = input.isCompact() ? input : input.clone();
 
   const auto field = msg.eltype().as<Ring2k>()->field();
   const int64_t size = msg.numel();
-- 
2.43.0


From b0cd3748f4eb7342e7662cf8e099f920a196efa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:51 +0000
Subject: [PATCH 13/43] fix: securenn opens values masked by the helper's own
 randomness to the helper (and_bb, b2a)

---
 src/libspu/mpc/securenn/boolean.cc    | 23 +++++++++++++++-
 src/libspu/mpc/securenn/conversion.cc | 39 +++++++++++++++++----------
 2 files changed, 47 insertions(+), 15 deletions(-)

diff --git a/src/libspu/mpc/securenn/boolean.cc b/src/libspu/mpc/securenn/boolean.cc
index c122b9e..00e99b2 100644
--- a/src/libspu/mpc/securenn/boolean.cc
+++ b/src/libspu/mpc/securenn/boolean.cc
@@ -212,7 +212,28 @@ NdArrayRef AndBB::proc(KernelEvalContext* ctx, const NdArrayRef& lhs,
         mask[numel + idx] = _rhs[idx] ^ _b[idx];
       });
 
-      mask = comm->allReduce<V, std::bit_xor>(mask, "open(x^a,y^b)");
+      // P2 knows the triple, hence x^a and y^b are opened to P0 and P1 only. P2
+      // re-randomizes its shares, which may not be random towards one of them.
+      auto [z_first, z_second] = prg_state->genPrssPair(
+          field, {numField * 2}, PrgState::GenPrssCtrl::Both);
+      auto zero = ring_xor(z_first, z_second);
+      NdArrayView<V> _zero(zero);
+      pforeach(0, numel * 2, [&](int64_t idx) { mask[idx] ^= _zero[idx]; });
+
+      const std::vector<V> mine = mask;
+      for (size_t peer = 0; peer < 2; peer++) {
+        if (rank != peer) {
+          comm->sendAsync<V>(peer, mine, "open(x^a,y^b)");
+        }
+      }
+      for (size_t peer = 0; rank <= 1 && peer < 3; peer++) {
+        if (rank != peer) {
+          const auto theirs = comm->recv<V>(peer, "open(x^a,y^b)");
+          pforeach(0, numel * 2,
+                   [&](int64_t idx) { mask[idx] ^= theirs[idx]; });
+        }
+      }
+      comm->addCommStatsManually(1, numel * 2 * sizeof(V) * 2);
 
       // Zi = Ci ^ ((X ^ A) & Bi) ^ ((Y ^ B) & Ai) ^ <(X ^ A) & (Y ^ B)>
       NdArrayView<T> _z(out);
diff --git a/src/libspu/mpc/securenn/conversion.cc b/src/libspu/mpc/securenn/conversion.cc
index cc78358..fa86e73 100644
--- a/src/libspu/mpc/securenn/conversion.cc
+++ b/src/libspu/mpc/securenn/conversion.cc
@@ -123,9 +123,10 @@ NdArrayRef B2A_Randbit::proc(KernelEvalContext* ctx,
     randbits0 = randbits0.reshape(randbits.shape());
     auto randbits1 = comm->recv(1, makeType<AShrTy>(field), "randbits1");
     randbits1 = randbits1.reshape(randbits.shape());
-    auto randbits_recon = ring_add(ring_add(randbits, randbits0), randbits1);
-    auto adjust =
-        ring_sub(ring_randbit(field, randbits.shape()), randbits_recon);
+    // P2 knows the random bits, so it keeps no share of them.
+    auto adjust = ring_sub(ring_randbit(field, randbits.shape()),
+                           ring_add(randbits0, randbits1));
+    randbits = ring_zeros(field, randbits.shape());
     comm->sendAsync(0, adjust, "adjust");
   }
   if (rank == 0) {
@@ -155,8 +156,27 @@ NdArrayRef B2A_Randbit::proc(KernelEvalContext* ctx,
       x_xor_r[idx] = _x[idx] ^ mask;
     });
 
-    // open c = x ^ r
-    x_xor_r = comm->allReduce<U, std::bit_xor>(x_xor_r, "open(x^r)");
+    // open c = x ^ r to P0 and P1 only, since P2 knows r. P2 re-randomizes its
+    // share of x, which may not be random towards one of them.
+    auto [z_first, z_second] =
+        prg_state->genPrssPair(field, {numel}, PrgState::GenPrssCtrl::Both);
+    auto zero = ring_xor(z_first, z_second);
+    NdArrayView<U> _zero(zero);
+    pforeach(0, numel, [&](int64_t idx) { x_xor_r[idx] ^= _zero[idx]; });
+
+    const std::vector<U> mine = x_xor_r;
+    for (size_t peer = 0; peer < 2; peer++) {
+      if (rank != peer) {
+        comm->sendAsync<U>(peer, mine, "open(x^r)");
+      }
+    }
+    for (size_t peer = 0; rank <= 1 && peer < 3; peer++) {
+      if (rank != peer) {
+        const auto theirs = comm->recv<U>(peer, "open(x^r)");
+        pforeach(0, numel, [&](int64_t idx) { x_xor_r[idx] ^= theirs[idx]; });
+      }
+    }
+    comm->addCommStatsManually(1, numel * sizeof(U) * 2);
 
     NdArrayView<U> _res(res);
     pforeach(0, numel, [&](int64_t idx) {
@@ -173,15 +193,6 @@ NdArrayRef B2A_Randbit::proc(KernelEvalContext* ctx,
     });
   });
 
-  if (comm->getRank() == 2) {
-    comm->sendAsync(0, res, "res");
-    res = ring_zeros(field, x.shape()).as(makeType<AShrTy>(field));
-  }
-  if (comm->getRank() == 0) {
-    auto tmp = comm->recv(2, makeType<AShrTy>(field), "res");
-    tmp = tmp.reshape(x.shape());
-    res = ring_add(res, tmp);
-  }
   return res;
 }
 
-- 
2.43.0


From 2d26bd528cdb8417dfda59816c3bced371a6a891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:51 +0000
Subject: [PATCH 14/43] fix: swift truncation opens x - r to the party that
 knows r

---
 .../mpc/experimental/swift/arithmetic.cc      | 30 ++++++++-----------
 .../mpc/experimental/swift/arithmetic.h       |  4 +--
 2 files changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/libspu/mpc/experimental/swift/arithmetic.cc b/src/libspu/mpc/experimental/swift/arithmetic.cc
index 82ce827..30d61e4 100644
--- a/src/libspu/mpc/experimental/swift/arithmetic.cc
+++ b/src/libspu/mpc/experimental/swift/arithmetic.cc
@@ -2096,7 +2096,7 @@ NdArrayRef TruncA::proc(KernelEvalContext* ctx, const NdArrayRef& x,
 
   NdArrayRef out(makeType<AShrTy>(field), x.shape());
   auto numel = x.numel();
-  auto a2p = A2P();
+  auto a2v = A2V();
   auto negate = NegateA();
   auto add = AddAA();
 
@@ -2111,25 +2111,21 @@ NdArrayRef TruncA::proc(KernelEvalContext* ctx, const NdArrayRef& x,
 
   auto negate_r = negate.proc(ctx, r);
   auto x_minux_r_share = add.proc(ctx, x, negate_r);
-  auto x_minus_r = a2p.proc(ctx, x_minux_r_share);  // x - r
+
+  // P0 knows r (it samples r1 and r2), hence x - r is opened to P1 and P2 only.
+  auto x_minus_r_1 = a2v.proc(ctx, x_minux_r_share, 1);
+  auto x_minus_r_2 = a2v.proc(ctx, x_minux_r_share, 2);
+  auto x_minus_r = ring_zeros(field, x.shape());
+  if (rank == 1) x_minus_r = x_minus_r_1.as(makeType<RingTy>(field));
+  if (rank == 2) x_minus_r = x_minus_r_2.as(makeType<RingTy>(field));
+
   auto x_minus_r_d =
       ring_arshift(x_minus_r, {static_cast<int64_t>(bits)});  // (x - r) / 2^d
 
-  DISPATCH_ALL_FIELDS(field, [&]() {
-    using el_t = ring2k_t;
-    using shr_t = std::array<el_t, 3>;
-
-    NdArrayView<shr_t> _out(out);
-    NdArrayView<shr_t> _rd(rd);
-    NdArrayView<el_t> _x_minus_r_d(x_minus_r_d);
-    pforeach(0, numel, [&](int64_t idx) {
-      _out[idx][0] = _rd[idx][0];
-      _out[idx][1] = _rd[idx][1];
-      _out[idx][2] = _rd[idx][2];
-      if (rank == 0) _out[idx][2] += _x_minus_r_d[idx];
-      if (rank == 1 || rank == 2) _out[idx][1] += _x_minus_r_d[idx];
-    });
-  });
+  // P1 and P2 jointly share (x - r) / 2^d
+  auto x_minus_r_d_share =
+      JointSharing(ctx, x_minus_r_d, 1, 2, "x_minus_r_d share");
+  out = add.proc(ctx, x_minus_r_d_share, rd);
 
   return out.as(x.eltype());
 }
diff --git a/src/libspu/mpc/experimental/swift/arithmetic.h b/src/libspu/mpc/experimental/swift/arithmetic.h
index d933cd7..8faec98 100644
--- a/src/libspu/mpc/experimental/swift/arithmetic.h
+++ b/src/libspu/mpc/experimental/swift/arithmetic.h
@@ -229,9 +229,9 @@ class TruncA : public TruncAKernel {
     // offline: MatMulAA * 2
     // dimension of the MatMulAA are:
     // {numel, k - bits, numel} and {numel, k, numel}
-    // online: A2P
+    // online: A2V * 2
     // only count online for now
-    return ce::K() * 3;
+    return ce::K() * 2;
   }
 
   Kind kind() const override { return Kind::Dynamic; }
-- 
2.43.0


From 892d10683e6a5a94fc7a06524d8e20ead33aa0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:10 +0000
Subject: [PATCH 15/43] fix: matrix products with a beaver cache reuse one mask
 for both operands

---
 src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc | 2 +-
 src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc
index a8d19e4..d0707ed 100644
--- a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc
+++ b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc
@@ -227,7 +227,7 @@ BeaverTfpUnsafe::Triple BeaverTfpUnsafe::Dot(FieldType field, int64_t m,
   shapes[2] = {m, n};
 
   auto if_replay = [&](const ReplayDesc* replay_desc, size_t idx) {
-    if (replay_desc == nullptr) {
+    if (replay_desc == nullptr || replay_desc->status == Beaver::Init) {
       ops[idx].seeds = seeds_;
       return prgCreateArray(field, shapes[idx], seed_, &counter_,
                             &ops[idx].desc);
diff --git a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
index 0339dbc..35d64d1 100644
--- a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
+++ b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
@@ -569,7 +569,7 @@ BeaverTtp::Triple BeaverTtp::Dot(FieldType field, int64_t m, int64_t n,
   shapes[2] = {m, n};
 
   auto if_replay = [&](const ReplayDesc* replay_desc, size_t idx) {
-    if (replay_desc == nullptr) {
+    if (replay_desc == nullptr || replay_desc->status == Beaver::Init) {
       return prgCreateArray(field, shapes[idx], seed_, &counter_, &descs[idx]);
     } else {
       SPU_ENFORCE(replay_desc->field == field);
-- 
2.43.0


From ff04ffaffb2692eeccdfa8930d05c790026d27e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:33 +0000
Subject: [PATCH 16/43] fix: beaver client may notify a condition variable that
 its waiter has already destroyed

---
 .../semi2k/beaver/beaver_impl/beaver_ttp.cc   | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
index 35d64d1..2066124 100644
--- a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
+++ b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
@@ -174,20 +174,20 @@ class ProgressiveReader : public brpc::ProgressiveReader {
   }
 
   void OnEndOfMessage(const butil::Status& status) final {
-    {
-      std::lock_guard lk(lock_);
-      if (current_state_ == End) {
-        // received all data.
-        read_status_ = status;
-      } else if (status.ok()) {
-        // rpc streaming finished, but we expected more data
-        read_status_ =
-            butil::Status(-1, "response size mismatch, need more data");
-      } else {
-        // some error happend in network or OnReadOnePart
-        read_status_ = status;
-      }
+    std::lock_guard lk(lock_);
+    if (current_state_ == End) {
+      // received all data.
+      read_status_ = status;
+    } else if (status.ok()) {
+      // rpc streaming finished, but we expected more data
+      read_status_ =
+          butil::Status(-1, "response size mismatch, need more data");
+    } else {
+      // some error happend in network or OnReadOnePart
+      read_status_ = status;
     }
+    // notify under the lock: the waiter destroys this reader as soon as it sees
+    // the status.
     cond_.notify_all();
   }
 
-- 
2.43.0


From 5d3985a65561c5b06206cd35b62c574b466c9bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:56 +0000
Subject: [PATCH 17/43] fix: malformed requests crash the beaver server or make
 it read past its inputs

---
 .../semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc b/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc
index 25982a9..4cafe01 100644
--- a/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc
+++ b/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc
@@ -100,6 +100,7 @@ BuildOperand(const AdjustRequest& req, uint32_t field_size,
   if constexpr (std::is_same_v<AdjustRequest, AdjustDotRequest>) {
     shapes.resize(req.prg_inputs().size());
     SPU_ENFORCE(shapes.size() == 3);
+    SPU_ENFORCE(req.transpose_inputs().size() == 3);
     shapes[0] = {static_cast<int64_t>(req.m()), static_cast<int64_t>(req.k())};
     shapes[1] = {static_cast<int64_t>(req.k()), static_cast<int64_t>(req.n())};
     shapes[2] = {static_cast<int64_t>(req.m()), static_cast<int64_t>(req.n())};
@@ -109,6 +110,7 @@ BuildOperand(const AdjustRequest& req, uint32_t field_size,
       }
     }
   } else {
+    SPU_ENFORCE(!req.prg_inputs().empty());
     const auto& prg = req.prg_inputs()[0];
     auto buffer_len = prg.buffer_len();
     SPU_ENFORCE(buffer_len > 0);
@@ -157,6 +159,9 @@ BuildOperand(const AdjustRequest& req, uint32_t field_size,
     for (const auto& c : prg.encrypted_seeds()) {
       seed.push_back(try_decrypt(c));
     }
+    SPU_ENFORCE(!seed.empty());
+    SPU_ENFORCE(seeds.empty() || seed.size() == seeds[0].size(),
+                "seeds size mismatch {} <> {}", seed.size(), seeds[0].size());
     seeds.emplace_back(std::move(seed));
     ops.push_back(
         TrustedParty::Operand{{shape, type, prg_count, eltype}, seeds.back()});
@@ -173,6 +178,7 @@ BuildOperand(const AdjustRequest& req, uint32_t field_size,
     const PrgRandPermMeta& perm_meta = req.perm();
     perm.prg_count = perm_meta.prg_count();
     perm.size = perm_meta.size();
+    SPU_ENFORCE(perm.size == shapes[0].numel());
     perm.seed = try_decrypt(perm_meta.encrypted_seeds());
   }
 
-- 
2.43.0


From 847de58854b2add501557ec558240b3d5e68e483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:32 +0000
Subject: [PATCH 18/43] fix: adding a public value to a cached share makes the
 beaver caches of the parties disagree

---
 src/libspu/mpc/semi2k/arithmetic.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/mpc/semi2k/arithmetic.cc b/src/libspu/mpc/semi2k/arithmetic.cc
index 5f03ef1..c211ad1 100644
--- a/src/libspu/mpc/semi2k/arithmetic.cc
+++ b/src/libspu/mpc/semi2k/arithmetic.cc
@@ -134,7 +134,8 @@ NdArrayRef AddAP::proc(KernelEvalContext* ctx, const NdArrayRef& lhs,
     return ring_add(lhs, rhs).as(lhs.eltype());
   }
 
-  return lhs;
+  // do not alias lhs: the beaver cache goes by buffer, and rank 0 has a new one.
+  return lhs.clone();
 }
 
 NdArrayRef AddAA::proc(KernelEvalContext*, const NdArrayRef& lhs,
-- 
2.43.0


From b5f0981427266e1616ab187221a0ca2ccedaedb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:38 +0000
Subject: [PATCH 19/43] fix: aby3 B2A writes packed choice bits from concurrent
 tasks

---
 src/libspu/mpc/aby3/conversion.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libspu/mpc/aby3/conversion.cc b/src/libspu/mpc/aby3/conversion.cc
index 8154aca..d922a38 100644
--- a/src/libspu/mpc/aby3/conversion.cc
+++ b/src/libspu/mpc/aby3/conversion.cc
@@ -253,11 +253,11 @@ NdArrayRef B2AByPPA::proc(KernelEvalContext* ctx, const NdArrayRef& in) const {
 }
 
 template <typename T>
-static std::vector<bool> bitDecompose(const NdArrayRef& in, size_t nbits) {
+static std::vector<uint8_t> bitDecompose(const NdArrayRef& in, size_t nbits) {
   auto numel = in.numel();
   // decompose each bit of an array of element.
-  // FIXME: this is not thread-safe.
-  std::vector<bool> dep(numel * nbits);
+  // note: not std::vector<bool>, its elements can not be written concurrently.
+  std::vector<uint8_t> dep(numel * nbits);
 
   NdArrayView<T> _in(in);
 
@@ -265,7 +265,7 @@ static std::vector<bool> bitDecompose(const NdArrayRef& in, size_t nbits) {
     const auto& v = _in[idx];
     for (size_t bit = 0; bit < nbits; bit++) {
       size_t flat_idx = idx * nbits + bit;
-      dep[flat_idx] = static_cast<bool>((v >> bit) & 0x1);
+      dep[flat_idx] = static_cast<uint8_t>((v >> bit) & 0x1);
     }
   });
   return dep;
-- 
2.43.0


From 0e005e90ec134a899424775698279b2cfedabf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:38 +0000
Subject: [PATCH 20/43] fix: spdz2k writes packed choice bits from concurrent
 tasks

---
 src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc b/src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc
index f8d090f..24a137a 100644
--- a/src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc
+++ b/src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc
@@ -120,11 +120,10 @@ std::vector<bool> ring_cast_vector_boolean(const NdArrayRef& x) {
   std::vector<bool> res(x.numel());
   DISPATCH_ALL_FIELDS(field, [&]() {
     NdArrayView<ring2k_t> _x(x);
-    yacl::parallel_for(0, x.numel(), 4096, [&](size_t start, size_t end) {
-      for (size_t i = start; i < end; i++) {
-        res[i] = static_cast<bool>(_x[i] & 0x1);
-      }
-    });
+    // note: elements of std::vector<bool> can not be written concurrently.
+    for (int64_t i = 0; i < x.numel(); i++) {
+      res[i] = static_cast<bool>(_x[i] & 0x1);
+    }
   });
   return res;
 }
-- 
2.43.0


From 4b2804153033d582a9497684233083f7c7ad1846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 21/43] hook: simulation builds choose how much work one
 cheetah OT instance gets

---
 src/libspu/mpc/cheetah/state.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libspu/mpc/cheetah/state.cc b/src/libspu/mpc/cheetah/state.cc
index dded2f5..5ed4e79 100644
--- a/src/libspu/mpc/cheetah/state.cc
+++ b/src/libspu/mpc/cheetah/state.cc
@@ -23,10 +23,17 @@
 
 namespace spu::mpc::cheetah {
 
+#ifdef SPU_SIM
+// Simulation builds choose the share of an OT worker per run.
+extern size_t kMinWorkSize;
+#endif
+
 namespace {
 // Return num_workers for the given size of jobs
 size_t InitOTState(KernelEvalContext* ctx, size_t njobs) {
+#ifndef SPU_SIM
   constexpr size_t kMinWorkSize = 2048;
+#endif
   if (njobs == 0) {
     return 0;
   }
-- 
2.43.0


From c24cad5559b7c0e1e729657de89405e9ae043c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 22/43] fix: parallel execution starts operations without
 operands before the side effects they follow

---
 src/libspu/device/executor.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libspu/device/executor.cc b/src/libspu/device/executor.cc
index 5d03db2..efd99ed 100644
--- a/src/libspu/device/executor.cc
+++ b/src/libspu/device/executor.cc
@@ -200,8 +200,9 @@ class OpExecTask final {
   }
 
   void run(const ExecutionOptions &opts) {
-    // wait for this operation ready.
-    if (op_->getNumOperands() > 0) {
+    // wait for this operation ready, an operation without operands may still
+    // depend on other values.
+    {
       std::unique_lock lk(event_->mutex);
       event_->cv.wait(lk, [this] { return ready(); });
     }
-- 
2.43.0


From ac6d796ff46809c43f6b785ab1589d1432eae5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 23/43] fix: an error in a parallel block ends the process
 instead of being reported

---
 src/libspu/device/executor.cc | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/libspu/device/executor.cc b/src/libspu/device/executor.cc
index efd99ed..6acb2ee 100644
--- a/src/libspu/device/executor.cc
+++ b/src/libspu/device/executor.cc
@@ -16,6 +16,7 @@
 
 #include <algorithm>
 #include <condition_variable>
+#include <exception>
 #include <mutex>
 
 #include "mlir/IR/Operation.h"
@@ -153,6 +154,8 @@ std::vector<spu::Value> runBlock(OpExecutor *executor, SPUContext *sctx,
 struct SymbolTableEvent {
   std::condition_variable cv;
   std::mutex mutex;
+  // the first error of any operation, protected by mutex.
+  std::exception_ptr error;
 };
 
 class OpExecTask final {
@@ -204,11 +207,25 @@ class OpExecTask final {
     // depend on other values.
     {
       std::unique_lock lk(event_->mutex);
-      event_->cv.wait(lk, [this] { return ready(); });
+      event_->cv.wait(
+          lk, [this] { return event_->error != nullptr || ready(); });
+      if (event_->error != nullptr) {
+        // this operation may never become ready.
+        return;
+      }
+    }
+
+    std::exception_ptr error;
+    try {
+      executor_->runKernel(sctx_.get(), sscope_, *op_, opts);
+    } catch (...) {
+      error = std::current_exception();
     }
 
-    executor_->runKernel(sctx_.get(), sscope_, *op_, opts);
     std::unique_lock lk(event_->mutex);
+    if (error != nullptr && event_->error == nullptr) {
+      event_->error = error;
+    }
     event_->cv.notify_all();
   }
 };
@@ -262,6 +279,10 @@ class BlockParallelRunner final {
       }
     }
 
+    if (st_event.error != nullptr) {
+      std::rethrow_exception(st_event.error);
+    }
+
     if (auto *termOp = block.getTerminator()) {
       // TODO: enforce ReturnLike
       std::vector<spu::Value> results;
-- 
2.43.0


From c4567ae5e655cf763db2ccae4a0bc02a22c7fbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:29 +0000
Subject: [PATCH 24/43] fix: rng_uniform returns a tensor of the requested
 shape

---
 src/libspu/kernel/hal/random.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/random.cc b/src/libspu/kernel/hal/random.cc
index ddf0b59..e6a4941 100644
--- a/src/libspu/kernel/hal/random.cc
+++ b/src/libspu/kernel/hal/random.cc
@@ -55,7 +55,10 @@ Value rng_uniform(SPUContext* ctx, const Value& lo, const Value& hi,
     ele = dist(gen);
   }
 
-  return constant(ctx, buffer, lo.dtype());
+  return constant(ctx,
+                  PtBufferView(static_cast<const float*>(buffer.data()), PT_F32,
+                               to_shape, makeCompactStrides(to_shape)),
+                  lo.dtype(), to_shape);
 }
 
 Value random(SPUContext* ctx, Visibility vis, DataType dtype,
-- 
2.43.0


From d9e35b64cce9b3d643d2a8e40c1e6ba0416307df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:29 +0000
Subject: [PATCH 25/43] fix: fixed point to integer cast overflows for 31 or
 more fraction bits

---
 src/libspu/kernel/hal/type_cast.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/type_cast.cc b/src/libspu/kernel/hal/type_cast.cc
index b432b86..294dcf2 100644
--- a/src/libspu/kernel/hal/type_cast.cc
+++ b/src/libspu/kernel/hal/type_cast.cc
@@ -51,7 +51,8 @@ Value fxp2int(SPUContext* ctx, const Value& x, DataType to_type) {
   SPU_ENFORCE(x.isFxp());
 
   const int64_t fxp_bits = ctx->getFxpBits();
-  const Value kOneMinusEps = _constant(ctx, (1 << fxp_bits) - 1, x.shape());
+  const Value kOneMinusEps = _constant(
+      ctx, (static_cast<uint128_t>(1) << fxp_bits) - 1, x.shape());
 
   // (x + 0.99 * (x < 0)) >> fxp_bits
   return _arshift(ctx, _add(ctx, x, _mul(ctx, kOneMinusEps, _msb(ctx, x))),
-- 
2.43.0


From d23814a7c8efc7af162c313c28b83b8565e9c443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:29 +0000
Subject: [PATCH 26/43] fix: atan2 of a boolean shared and a public or private
 operand

---
 src/libspu/kernel/hal/fxp_approx.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/libspu/kernel/hal/fxp_approx.cc b/src/libspu/kernel/hal/fxp_approx.cc
index 6fa4208..8dc60b2 100644
--- a/src/libspu/kernel/hal/fxp_approx.cc
+++ b/src/libspu/kernel/hal/fxp_approx.cc
@@ -856,9 +856,15 @@ Value AtanApproxLocal(SPUContext* ctx, const Value& x) {
 }
 
 Value atan2_minimax(SPUContext* ctx, const Value& y, const Value& x) {
-  auto common_type = _common_type(ctx, x.storage_type(), y.storage_type());
-  std::vector<Value> xy = {_cast_type(ctx, x, common_type).setDtype(x.dtype()),
-                           _cast_type(ctx, y, common_type).setDtype(y.dtype())};
+  std::vector<Value> xy = {x, y};
+  // casting a public or private value to a secret type does not always give
+  // exactly that share type, so unify until both agree.
+  while (xy[0].storage_type() != xy[1].storage_type()) {
+    auto common_type =
+        _common_type(ctx, xy[0].storage_type(), xy[1].storage_type());
+    xy = {_cast_type(ctx, xy[0], common_type).setDtype(x.dtype()),
+          _cast_type(ctx, xy[1], common_type).setDtype(y.dtype())};
+  }
   // vectorize the computation of the msb and abs of x and y
   std::vector<Value> msb_xy;
   spu::vmap(xy.begin(), xy.end(), std::back_inserter(msb_xy),
-- 
2.43.0


From 396c147753ceb883ae0211979a1a3feadfd49f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:29 +0000
Subject: [PATCH 27/43] fix: aby3 arithmetic right shift of a share narrower
 than the ring

---
 src/libspu/mpc/aby3/boolean.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libspu/mpc/aby3/boolean.cc b/src/libspu/mpc/aby3/boolean.cc
index c92a7a4..3b840b2 100644
--- a/src/libspu/mpc/aby3/boolean.cc
+++ b/src/libspu/mpc/aby3/boolean.cc
@@ -454,8 +454,11 @@ NdArrayRef ARShiftB::proc(KernelEvalContext* ctx, const NdArrayRef& in,
   const auto* in_ty = in.eltype().as<BShrTy>();
   bool is_splat = bits.size() == 1;
 
-  // arithmetic right shift expects to work on ring, or the behaviour is
-  // undefined.
+  // a share narrower than the ring is zero extended, its sign bit is zero.
+  if (in_ty->nbits() < SizeOf(field) * 8) {
+    return RShiftB().proc(ctx, in, bits);
+  }
+
   SPU_ENFORCE(in_ty->nbits() == SizeOf(field) * 8, "in.type={}, field={}",
               in.eltype(), field);
   const PtType out_btype = in_ty->getBacktype();
-- 
2.43.0


From 674795fcb663960f2e4f76f5143406790ccd864e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 28/43] fix: a negative public index of a dynamic slice that
 also has secret ones

---
 src/libspu/kernel/hlo/indexing.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hlo/indexing.cc b/src/libspu/kernel/hlo/indexing.cc
index c233b55..f16e4a4 100644
--- a/src/libspu/kernel/hlo/indexing.cc
+++ b/src/libspu/kernel/hlo/indexing.cc
@@ -796,7 +796,8 @@ spu::Value SecretDynamicSlice(SPUContext *ctx, const spu::Value &operand,
     for (size_t rank = 0; rank < operand.shape().size(); ++rank) {
       if (start_indices[rank].isPublic()) {
         start[rank] = hal::getScalarValue<int64_t>(ctx, start_indices[rank]);
-        start[rank] = std::min(limit[rank] - slice_size[rank], start[rank]);
+        start[rank] = std::min(limit[rank] - slice_size[rank],
+                               std::max(start[rank], static_cast<int64_t>(0)));
         limit[rank] = start[rank] + slice_size[rank];
         new_start_indices[rank] = zero_s;
       } else {
-- 
2.43.0


From 0ad319607977cb5c2e8a80831cbf9e258bc0e43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 29/43] fix: a dynamic update slice reveals its secret indices
 when the first one is public

---
 src/libspu/kernel/hlo/indexing.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/libspu/kernel/hlo/indexing.cc b/src/libspu/kernel/hlo/indexing.cc
index f16e4a4..f2359a3 100644
--- a/src/libspu/kernel/hlo/indexing.cc
+++ b/src/libspu/kernel/hlo/indexing.cc
@@ -536,7 +536,8 @@ spu::Value DynamicUpdateSlice(SPUContext *ctx, const spu::Value &operand,
   SPU_ENFORCE_EQ(start_indices.size(), update.shape().size());
   SPU_ENFORCE(!start_indices.empty());
 
-  if (start_indices[0].isSecret()) {
+  if (std::any_of(start_indices.begin(), start_indices.end(),
+                  [](const spu::Value &v) { return !v.isPublic(); })) {
     // flatten first
     spu::Value flattened_operand =
         hal::reshape(ctx, operand, {operand.numel()});
@@ -562,11 +563,6 @@ spu::Value DynamicUpdateSlice(SPUContext *ctx, const spu::Value &operand,
     Index start_indices_i64(start_indices.size());
     for (const auto &idx : llvm::enumerate(start_indices)) {
       auto v_idx = idx.value();
-      if (v_idx.isSecret()) {
-        v_idx = hal::reveal(ctx, v_idx);
-        SPDLOG_WARN("Reveal {}th start index of DynamicUpdateSlice",
-                    idx.index());
-      }
       start_indices_i64[idx.index()] = getIndices(ctx, v_idx)[0];
       // Transform start_indices
       // start_indices[i] = clamp(start_indices[i], 0, operand.dimension_size[i]
-- 
2.43.0


From b90f5b6bdb9cfb351cb34a531f4907771a327402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 30/43] fix: broadcasting a strided slice of one element reads
 beside it

---
 src/libspu/core/ndarray_ref.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libspu/core/ndarray_ref.cc b/src/libspu/core/ndarray_ref.cc
index 7fc7bc4..1eeb0d0 100644
--- a/src/libspu/core/ndarray_ref.cc
+++ b/src/libspu/core/ndarray_ref.cc
@@ -247,15 +247,21 @@ NdArrayRef NdArrayRef::broadcast_to(const Shape& to_shape,
 
   Strides new_strides(to_shape.size(), 0);
 
+  // The stride of a dimension with one element may be anything (a strided slice
+  // keeps its step), it must not be taken to visit the broadcasted elements.
+  auto stride_of = [this](size_t idx) {
+    return shape()[idx] == 1 ? 0 : strides()[idx];
+  };
+
   // TODO: check to_shape match broadcasting rules.
   if (!in_dims.empty()) {
     for (size_t idx = 0; idx < in_dims.size(); ++idx) {
-      new_strides[in_dims[idx]] = strides()[idx];
+      new_strides[in_dims[idx]] = stride_of(idx);
     }
   } else {
     for (size_t idx = 0; idx < strides().size(); ++idx) {
       new_strides[new_strides.size() - 1 - idx] =
-          strides()[strides().size() - 1 - idx];
+          stride_of(strides().size() - 1 - idx);
     }
   }
 
-- 
2.43.0


From a3413afcb795538156def651ddaabcf1b75389db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 31/43] fix: ref2k refuses the common type of two private
 values

---
 src/libspu/mpc/ref2k/ref2k.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libspu/mpc/ref2k/ref2k.cc b/src/libspu/mpc/ref2k/ref2k.cc
index 17c66a9..51b3a66 100644
--- a/src/libspu/mpc/ref2k/ref2k.cc
+++ b/src/libspu/mpc/ref2k/ref2k.cc
@@ -73,8 +73,8 @@ class Ref2kCommonTypeV : public Kernel {
     const Type& rhs = ctx->getParam<Type>(1);
 
     SPU_TRACE_MPC_DISP(ctx, lhs, rhs);
-    SPU_ENFORCE(lhs.isa<Ref2kSecrTy>(), "invalid type, got={}", lhs);
-    SPU_ENFORCE(rhs.isa<Ref2kSecrTy>(), "invalid type, got={}", rhs);
+    SPU_ENFORCE(lhs.isa<Priv2kTy>(), "invalid type, got={}", lhs);
+    SPU_ENFORCE(rhs.isa<Priv2kTy>(), "invalid type, got={}", rhs);
 
     const auto* lhs_v = lhs.as<Priv2kTy>();
     const auto* rhs_v = rhs.as<Priv2kTy>();
-- 
2.43.0


From c0115dbdfab3dd8932a1bb921623cc311f276491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 32/43] fix: cheetah cannot permute a single element

---
 src/libspu/mpc/cheetah/permute.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libspu/mpc/cheetah/permute.cc b/src/libspu/mpc/cheetah/permute.cc
index 72d3fe2..730c873 100644
--- a/src/libspu/mpc/cheetah/permute.cc
+++ b/src/libspu/mpc/cheetah/permute.cc
@@ -74,6 +74,10 @@ NdArrayRef SecureInvPerm(KernelEvalContext* ctx, NdArrayRef& x,
   const auto field = x.eltype().as<RingTy>()->field();
   const auto num_packets = pv.size();
   SPU_ENFORCE(num_packets > 0, "permutation vector should not be empty.");
+  if (num_packets == 1) {
+    // there is nothing to route
+    return x;
+  }
   // build graph structure
   const auto graph = generate_as_waksman_topology(num_packets);
   const auto width = graph.size();
-- 
2.43.0


From 7c0e3008af72f5742b38883ecb28a517e5e7742b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 33/43] fix: oram lookup of a boolean shared table or by a
 private index of a public one

---
 src/libspu/kernel/hal/ring.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libspu/kernel/hal/ring.cc b/src/libspu/kernel/hal/ring.cc
index 1c5895b..2b70bb6 100644
--- a/src/libspu/kernel/hal/ring.cc
+++ b/src/libspu/kernel/hal/ring.cc
@@ -671,7 +671,7 @@ std::optional<Value> _oramonehot(SPUContext* ctx, const Value& x,
                                  int64_t db_size, bool db_is_public) {
   std::optional<Value> ret;
   if (db_is_public) {
-    ret = _oramonehot_sp(ctx, x, db_size);
+    ret = _oramonehot_sp(ctx, x.isPrivate() ? _v2s(ctx, x) : x, db_size);
   } else {
     if (x.isPrivate()) {
       ret = _oramonehot_ss(ctx, _v2s(ctx, x), db_size);
@@ -698,7 +698,7 @@ Value _oramread(SPUContext* ctx, const Value& x, const Value& y,
 
   Value ret;
   if (y.isSecret()) {
-    ret = _oramread_ss(ctx, reshaped_x, reshaped_y, offset);
+    ret = _oramread_ss(ctx, reshaped_x, _prefer_a(ctx, reshaped_y), offset);
   } else if (y.isPublic()) {
     ret = _oramread_sp(ctx, reshaped_x, reshaped_y, offset);
   } else if (y.isPrivate()) {
-- 
2.43.0


From 1a7735dbbe7d021ab8134c1148c2d137a5184a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 34/43] fix: top k of a private operand, and of a public one in
 a 32-bit ring

---
 src/libspu/kernel/hal/permute.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/libspu/kernel/hal/permute.cc b/src/libspu/kernel/hal/permute.cc
index d2f2013..08e47f4 100644
--- a/src/libspu/kernel/hal/permute.cc
+++ b/src/libspu/kernel/hal/permute.cc
@@ -743,7 +743,8 @@ std::vector<spu::Value> PrepareInput(SPUContext *ctx, const Value &input,
 
   // shuffle with random permutation to break link of values
   auto rand_perm = _rand_perm_s(ctx, input.shape());
-  inp.push_back(_perm_ss(ctx, input, rand_perm).setDtype(input.dtype()));
+  inp.push_back(
+      _perm_ss(ctx, _2s(ctx, input), rand_perm).setDtype(input.dtype()));
 
   // we concate random value to hide the data-dependant running pattern
   // for quick select;
@@ -1791,10 +1792,14 @@ std::vector<Value> topk_1d(SPUContext *ctx, const spu::Value &input,
         Index(indices_to_sort.begin(), indices_to_sort.begin() + config.k_hi);
     ret.push_back(internal::_permute_1d(ctx, input, topk_indices));
     if (!config.value_only) {
-      auto dt =
-          ctx->config().field == FieldType::FM32 ? spu::DT_I32 : spu::DT_I64;
-      ret.push_back(constant(ctx, topk_indices, dt,
-                             {static_cast<int64_t>(topk_indices.size())}));
+      const Shape shape{static_cast<int64_t>(topk_indices.size())};
+      if (ctx->config().field == FieldType::FM32) {
+        // a 32-bit ring does not encode 64-bit integers
+        std::vector<int32_t> indices(topk_indices.begin(), topk_indices.end());
+        ret.push_back(constant(ctx, indices, spu::DT_I32, shape));
+      } else {
+        ret.push_back(constant(ctx, topk_indices, spu::DT_I64, shape));
+      }
     }
 
     return ret;
-- 
2.43.0


From 937ba045526dccb71df8b88af532ee56e78cb8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 35/43] fix: a chunk longer than the announced total is copied
 past the value's buffer

---
 src/libspu/core/value.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libspu/core/value.cc b/src/libspu/core/value.cc
index 46e1626..0d8330c 100644
--- a/src/libspu/core/value.cc
+++ b/src/libspu/core/value.cc
@@ -185,6 +185,9 @@ Value Value::fromProto(const ValueProto& value) {
   for (const auto& [offset, chunk] : ordered_chunks) {
     SPU_ENFORCE(offset == chunk_end_pos,
                 "offset {} is not match to last chunk's end pos", offset);
+    SPU_ENFORCE(chunk->content().size() <= total_bytes - offset,
+                "chunk at offset {} exceeds total_bytes {}", offset,
+                total_bytes);
     memcpy(data.data<uint8_t>() + offset, chunk->content().data(),
            chunk->content().size());
     chunk_end_pos += chunk->content().size();
-- 
2.43.0


From bc35cb2b7580090480d036f45caf313f3f0e2cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 36/43] fix: announced share size ignores that an owner may be
 disregarded

---
 src/libspu/device/io.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libspu/device/io.cc b/src/libspu/device/io.cc
index a9f0def..246e2af 100644
--- a/src/libspu/device/io.cc
+++ b/src/libspu/device/io.cc
@@ -37,6 +37,9 @@ size_t IoClient::getShareSize(const PtBufferView &bv, Visibility vtype,
       base_io_->hasBitSecretSupport()) {
     return base_io_->getBitSecretShareSize(bv.shape.numel());
   } else {
+    if (!config_.experimental_enable_colocated_optimization) {
+      owner_rank = -1;
+    }
     return base_io_->getShareType(vtype, owner_rank).size() * bv.shape.numel();
   }
 }
-- 
2.43.0


From f648c8d60c5ea8a8a5aa85dc28929d2911915bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 37/43] fix: securenn io drops shares that are not contiguous

---
 src/libspu/mpc/securenn/io.cc | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/libspu/mpc/securenn/io.cc b/src/libspu/mpc/securenn/io.cc
index 28a8c3c..ab86933 100644
--- a/src/libspu/mpc/securenn/io.cc
+++ b/src/libspu/mpc/securenn/io.cc
@@ -88,11 +88,6 @@ NdArrayRef SecurennIo::fromShares(const std::vector<NdArrayRef>& shares) const {
     auto res = ring_zeros(field, shares[0].shape());
 
     for (const auto& share : shares) {
-      // Currently, only packed zeros are not compact, this is for colocation
-      // optimization
-      if (!share.isCompact()) {
-        continue;
-      }
       if (eltype.isa<AShare>()) {
         ring_add_(res, share);
       } else if (eltype.isa<BShare>()) {
-- 
2.43.0


From 72c69ab83d7fbf0ce03969412a3a30e0b1c88c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 38/43] fix: spdz2k matrix product opens masked operands
 without a MAC check

---
 src/libspu/mpc/spdz2k/arithmetic.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libspu/mpc/spdz2k/arithmetic.cc b/src/libspu/mpc/spdz2k/arithmetic.cc
index ceb7e75..0591385 100644
--- a/src/libspu/mpc/spdz2k/arithmetic.cc
+++ b/src/libspu/mpc/spdz2k/arithmetic.cc
@@ -537,7 +537,9 @@ NdArrayRef MatMulAA::proc(KernelEvalContext* ctx, const NdArrayRef& lhs,
   const auto s_bits = ctx->getState<Spdz2kState>()->s();
 
   const auto& x = getValueShare(lhs);
+  const auto& x_mac = GetMacShare(ctx, lhs);
   const auto& y = getValueShare(rhs);
+  const auto& y_mac = GetMacShare(ctx, rhs);
 
   // generate beaver multiple triple.
   auto [vec, mac_vec] = beaver->AuthDot(field, lhs.shape()[0], rhs.shape()[1],
@@ -551,6 +553,12 @@ NdArrayRef MatMulAA::proc(KernelEvalContext* ctx, const NdArrayRef& lhs,
   });
   auto p_e = std::move(res[0]);
   auto p_f = std::move(res[1]);
+
+  // the opened values go into the MAC of the result, check them here as in
+  // MulAA, nothing does it later.
+  SPU_ENFORCE(beaver->BatchMacCheck(p_e, ring_sub(x_mac, a_mac), k_bits, s_bits));
+  SPU_ENFORCE(beaver->BatchMacCheck(p_f, ring_sub(y_mac, b_mac), k_bits, s_bits));
+
   auto p_ef = ring_mmul(p_e, p_f);
 
   // z = p_e dot b + a dot p_f + c;
-- 
2.43.0


From f0e109f69f31ca5c95afad4c4cfa7ca374260f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 39/43] fix: sorting keys of different owners before a secret
 key are merged as if one party had them

---
 src/libspu/kernel/hal/permute.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libspu/kernel/hal/permute.cc b/src/libspu/kernel/hal/permute.cc
index 08e47f4..47f1b03 100644
--- a/src/libspu/kernel/hal/permute.cc
+++ b/src/libspu/kernel/hal/permute.cc
@@ -1156,6 +1156,7 @@ std::vector<size_t> _find_mergeable_keys(SPUContext *ctx,
     // secret key cannot be merged
     if (pre_key.isSecret()) {
       split_indices.push_back(idx + 1);
+      pre_owner = cur_key.isPrivate() ? _get_owner(cur_key) : -1;
     } else {
       // if current key are not belong to different owners of previous
       // keys, they cannot be merged
-- 
2.43.0


From 0430f1df93014c2360dbf934c99a34871a13072c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:10 +0000
Subject: [PATCH 40/43] fix: concurrent matrix products write Eigen's
 process-wide thread limit

---
 src/libspu/mpc/utils/linalg.h | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/libspu/mpc/utils/linalg.h b/src/libspu/mpc/utils/linalg.h
index 1751d97..2b81448 100644
--- a/src/libspu/mpc/utils/linalg.h
+++ b/src/libspu/mpc/utils/linalg.h
@@ -22,6 +22,28 @@
 
 namespace spu::mpc::linalg {
 
+namespace detail {
+
+// The limit is a process-wide Eigen setting, so that it is written once, not by
+// every product: products run concurrently.
+inline void setEigenThreadsOnce() {
+  static const bool done = [] {
+#ifdef __MACOS_NO_PARA__
+    // There is a bug in Eigen+libomp under macos: there is a small probability of
+    // core or stuck. Try to roll back eigen/libomp to the old version in recent
+    // years, the problem still exists. For the time being, you can only bypass
+    // this problem by not concurrently.
+    Eigen::setNbThreads(1);
+#else
+    Eigen::setNbThreads(4);
+#endif
+    return true;
+  }();
+  (void)done;
+}
+
+}  // namespace detail
+
 /**
  * @brief C := op( A )*op( B )
  *
@@ -86,15 +108,7 @@ void matmul(int64_t M, int64_t N, int64_t K, const T* A, int64_t LDA,
   // auto expected_num_threads = std::max((M * K + kMinTaskSize) / kMinTaskSize,
   //                                     (N * K + kMinTaskSize) / kMinTaskSize);
 
-#ifdef __MACOS_NO_PARA__
-  // There is a bug in Eigen+libomp under macos: there is a small probability of
-  // core or stuck. Try to roll back eigen/libomp to the old version in recent
-  // years, the problem still exists. For the time being, you can only bypass
-  // this problem by not concurrently.
-  Eigen::setNbThreads(1);
-#else
-  Eigen::setNbThreads(4);
-#endif
+  detail::setEigenThreadsOnce();
 
   c.noalias() = a * b;
 }
-- 
2.43.0


From 48b99f26cc399f01282102e2f58705cba95a0007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:10 +0000
Subject: [PATCH 41/43] fix: concurrent BeaverTtp constructions write brpc's
 process-wide flags

---
 .../mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc       | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
index 2066124..9c88087 100644
--- a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
+++ b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
@@ -383,9 +383,14 @@ BeaverTtp::BeaverTtp(std::shared_ptr<yacl::link::Context> lctx, Options ops)
       seed_(yacl::crypto::SecureRandSeed()),
       counter_(0),
       options_(std::move(ops)) {
-  brpc::FLAGS_max_body_size = std::numeric_limits<uint64_t>::max();
-  brpc::FLAGS_socket_max_unwritten_bytes =
-      std::numeric_limits<int64_t>::max() / 2;
+  // process-wide flags: instances may be created concurrently, see Spawn.
+  static const bool flags_set = [] {
+    brpc::FLAGS_max_body_size = std::numeric_limits<uint64_t>::max();
+    brpc::FLAGS_socket_max_unwritten_bytes =
+        std::numeric_limits<int64_t>::max() / 2;
+    return true;
+  }();
+  (void)flags_set;
   // init remote connection.
   SPU_ENFORCE(lctx_);
   {
-- 
2.43.0


From 6a5b47df3bb5f4cf27840f6131c54fa5f213060e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:19 +0000
Subject: [PATCH 42/43] fix: a fork copies its parent's tracer while the parent
 may write it

---
 src/libspu/core/context.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libspu/core/context.cc b/src/libspu/core/context.cc
index abdde9a..85ce4d8 100644
--- a/src/libspu/core/context.cc
+++ b/src/libspu/core/context.cc
@@ -66,6 +66,10 @@ std::unique_ptr<SPUContext> SPUContext::fork() const {
       lctx_ ? lctx_->Spawn() : nullptr;
   auto new_sctx = std::make_unique<SPUContext>(config_, new_lctx);
   new_sctx->prot_ = prot_->fork();
+  // The fork traces like its parent: take over the tracer's state here, on the
+  // thread of the parent, which may go on (and write it) once the fork runs.
+  getTracer(prot_->id(), prot_->pid());
+  getTracer(new_sctx->prot_->id(), prot_->id());
   return new_sctx;
 }
 
-- 
2.43.0


From d6f8daaefcc20ff7cfc0b3429ec4aaf017ff4d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 43/43] fix: zero to an integer power of the ring's width gives
 one

---
 src/libspu/kernel/hal/polymorphic.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/libspu/kernel/hal/polymorphic.cc b/src/libspu/kernel/hal/polymorphic.cc
index 21680cc..b62fef1 100644
--- a/src/libspu/kernel/hal/polymorphic.cc
+++ b/src/libspu/kernel/hal/polymorphic.cc
@@ -356,7 +356,6 @@ Value power(SPUContext* ctx, const Value& x, const Value& y) {
     const auto bit_width = SizeOf(ctx->getField()) * 8;
 
     auto y_b = _prefer_b(ctx, y);
-    auto msb_y = _rshift(ctx, y_b, {static_cast<int64_t>(bit_width - 1)});
     auto x_abs1 = _equal(ctx, abs(ctx, x), k1);
 
     auto ret = _constant(ctx, 1, x.shape());
@@ -368,7 +367,8 @@ Value power(SPUContext* ctx, const Value& x, const Value& y) {
     //   2. if |x|=1:
     //      a). x=1, then we always get `ret`=1;
     //      b). x=-1, then the sign of `ret` is decided on the LSB of y;
-    // So we can "truncate" y to `y_bits` bits safely.
+    // So we can "truncate" y to `y_bits` bits safely, except that x=0 gives 0
+    // where y has other bits set, see the end.
     const size_t y_bits = Log2Ceil(bit_width - 1);
 
     auto base = x;
@@ -388,8 +388,11 @@ Value power(SPUContext* ctx, const Value& x, const Value& y) {
       }
     }
 
-    // when x=-1 and y<0, we can still get a correct result
-    return _mux(ctx, _and(ctx, msb_y, _not(ctx, x_abs1)), k0, ret)
+    // y<0, or y has bits that were left out above: the result is 0, but when
+    // |x|=1, where we can still get a correct result.
+    auto y_in_bits = _equal(
+        ctx, _rshift(ctx, y_b, {static_cast<int64_t>(y_bits)}), k0);
+    return _mux(ctx, _or(ctx, y_in_bits, x_abs1), ret, k0)
         .setDtype(x.dtype());
   }
   if (x.isPublic() && y.isPublic()) {
-- 
2.43.0

