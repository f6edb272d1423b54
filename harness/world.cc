#include "world.h"

#include "brpc/server.h"
#include "sim/disk.h"
#include "sim/net.h"
#include "sim/rpc.h"
#include "yacl/crypto/key_utils.h"
#include "yacl/link/link.h"
#include "yacl/link/test_util.h"

#include "libspu/core/config.h"
#include "libspu/mpc/common/pv2k.h"
#include "libspu/mpc/factory.h"
#include "libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.h"
#include "libspu/mpc/spdz2k/io.h"
#include "libspu/mpc/spdz2k/protocol.h"

namespace spu {
int64_t kMinTaskSize = 50000;  // SPU_SIM hook
}
namespace spu::mpc::cheetah { size_t kMinWorkSize = 2048; }  // SPU_SIM hook
namespace spu::mpc::semi2k::beaver::ttp_server {
int64_t kReplayChunkSize = 32L * 1024 * 1024;  // SPU_SIM hook
}
namespace h {
using namespace spu;
const char* proto_name(int p) {
  static const char* n[] = {"ref2k", "semi2k", "aby3", "cheetah", "securenn", "spdz2k", "swift"};
  return n[p];
}
std::string Spec::str() const {
  static const char* b[] = {"tfp", "ttp", "mp"};
  return cat(proto_name(proto), "/FM", k(), "/", npc, "pc", proto == kSemi2k || proto == kSpdz2k ? cat("/", b[beaver]) : "");
}
Spec pick_spec(Run& r, const std::vector<Proto>& allowed, bool ttp_ok) {
  Spec s;
  auto g = r.rng("spec");
  std::vector<int64_t> w;
  // semi2k, aby3 and cheetah are the production protocols
  for (auto p : allowed) { int n = p == kSemi2k ? 4 : p == kAby3 ? 3 : p == kCheetah ? 3 : p == kSecurenn ? 2 : 1; for (int i = 0; i < n; ++i) w.push_back(p); }
  int64_t p = g.pick(w);
  p = r.knob("proto", p, p);
  s.proto = static_cast<Proto>(p);
  std::vector<int64_t> fields{FM64, FM32, FM128};
  if (p == kCheetah) fields = {FM64, FM32};
  if (p == kSpdz2k) fields = {FM64};
  if (p == kSwift) fields = {FM64, FM32};
  s.field = static_cast<FieldType>(r.pick("field", fields));
  std::vector<int64_t> npc{2};
  if (p == kRef2k) npc = {2, 1, 3, 5};
  if (p == kSemi2k) npc = {2, 2, 3, 3, 5};
  if (p == kAby3 || p == kSecurenn || p == kSwift) npc = {3};
  s.npc = static_cast<int>(r.pick("npc", npc));
  if (p == kSemi2k && ttp_ok) s.beaver = static_cast<int>(r.pick("beaver", {0, 0, 1}));
  auto& c = s.conf;
  c.protocol = p == kRef2k ? REF2K : p == kSemi2k ? SEMI2K : p == kAby3 ? ABY3 : p == kCheetah ? CHEETAH : p == kSecurenn ? SECURENN : p == kSwift ? SWIFT : SEMI2K;
  c.field = s.field;
  if (p == kSemi2k || p == kSpdz2k) {
    if (s.field == FM64) c.fxp_fraction_bits = 17;
    if (s.field == FM128) c.fxp_fraction_bits = 40;
  }
  c.beaver_type = static_cast<RuntimeConfig::BeaverType>(s.beaver);
  // knobs of the runtime itself
  c.max_concurrency = static_cast<int32_t>(r.pick("max_concurrency", {1, 2, 4, 8}));
  c.experimental_disable_mmul_split = r.coin("disable_mmul_split", 0.3);
  c.experimental_enable_intra_op_par = r.coin("intra_op_par", 0.4);
  c.experimental_disable_vectorization = r.coin("disable_vectorization", 0.2);
  c.trunc_allow_msb_error = r.coin("trunc_allow_msb_error", 0.3);
  c.enable_hal_profile = r.coin("hal_profile", 0.2);
  if (p == kCheetah) {
    auto cc = std::make_shared<CheetahConfig>();
    cc->ot_kind = static_cast<CheetahOtKind>(r.pick("ot_kind", {1, 0, 2}));
    cc->disable_matmul_pack = r.coin("disable_matmul_pack", 0.3);
    c.cheetah_2pc_config = *cc;
  }
  kMinTaskSize = r.pick("task_size", {50000, 50000, 2, 3, 5, 8, 17});
  // The tiles are laid out assuming a worker's share exceeds the number of workers (2048 > 48).
  if (p == kCheetah) mpc::cheetah::kMinWorkSize = static_cast<size_t>(r.pick("ot_work_size", {2048, 2048, c.max_concurrency, c.max_concurrency, 2 * c.max_concurrency + 1}));
  mpc::semi2k::beaver::ttp_server::kReplayChunkSize = r.pick("ttp_chunk", {32L << 20, 32L << 20, 128, 256, 1024});
  populateRuntimeConfig(c);
  r.tag("spec:" + s.str());
  return s;
}
std::unique_ptr<SPUContext> make_ctx(const Spec& s, const std::shared_ptr<yacl::link::Context>& lctx) {
  if (s.proto == kSpdz2k) return mpc::makeSpdz2kProtocol(s.conf, lctx);
  auto c = std::make_unique<SPUContext>(s.conf, lctx);
  mpc::Factory::RegisterProtocol(c.get(), lctx);
  if (s.conf.enable_hal_profile) setupTrace(c.get(), s.conf);
  return c;
}
std::unique_ptr<mpc::IoInterface> make_io(const Spec& s) {
  if (s.proto == kSpdz2k) return mpc::spdz2k::makeSpdz2kIo(s.field, s.npc);
  return mpc::Factory::CreateIO(s.conf, s.npc);
}
std::string Outcome::errors() const {
  std::string e;
  for (size_t i = 0; i < party.size(); ++i) if (!party[i].error.empty()) e += cat(e.empty() ? "" : " | ", "party ", i, ": ", party[i].error.substr(0, 600));
  if (hang) e += cat(" hang: ", hang_what);
  return e;
}
static std::unique_ptr<brpc::Server> g_server;
void start_ttp_server(Spec& s) {
  sim::rpc_faults().server_party = 90;
  auto kp = yacl::crypto::GenSm2KeyPairToPemBuf();
  mpc::semi2k::beaver::ttp_server::ServerOptions o;
  o.asym_crypto_schema = "sm2";
  o.server_private_key = kp.second;
  o.port = 7001;
  g_server = mpc::semi2k::beaver::ttp_server::RunServer(o);
  s.conf.ttp_beaver_config = std::make_shared<TTPBeaverConfig>("127.0.0.1:7001", s.npc - 1, "SM2", std::string(kp.first.data<char>(), kp.first.size()), "");
}
void stop_ttp_server() { g_server.reset(); }

Outcome run_links(Run& r, int n, const sim::Config& cfg, const LinkFn& fn, const std::function<void()>& before) {
  Outcome out;
  out.party.resize(n);
  sim::rpc_reset();
  sim::disk_faults() = {};
  try {
    simulate(r, cfg, [&] {
      auto w = yacl::link::test::SetupWorld("w", n);
      if (before) before();
      std::vector<sim::Task> ts;
      for (int i = 0; i < n; ++i) ts.push_back(sim::spawn([&, i] { auto l = w[i]; fn(l, i); }, cat("party", i), i));
      for (int i = 0; i < n; ++i) {
        sim::join(ts[i]);
        auto x = sim::result(ts[i]);
        out.party[i].done = x.done; out.party[i].crashed = x.crashed;
        if (x.error) out.party[i].error = x.what.empty() ? "exception" : x.what;
      }
      stop_ttp_server();
    });
  } catch (const sim::Hang& e) { out.hang = true; out.hang_what = e.what; }
  if (out.hang && g_server) g_server.release();
  return out;
}
Outcome run_parties(Run& r, Spec& s, const sim::Config& cfg, const PartyFn& fn, const std::function<void()>& before) {
  return run_links(r, s.npc, cfg, [&](const std::shared_ptr<yacl::link::Context>& l, int rank) {
    auto ctx = make_ctx(s, l);
    fn(ctx.get(), rank);
  }, [&] { if (s.beaver == 1) start_ttp_server(s); if (before) before(); });
}

// ---- ring helpers --------------------------------------------------------
NdArrayRef ring_array(FieldType f, const Type& ty, const std::vector<int64_t>& shape, const Ten& v) {
  NdArrayRef a(ty, Shape(shape.begin(), shape.end()));
  size_t e = SizeOf(f);
  SPU_ENFORCE(a.numel() == static_cast<int64_t>(v.size()));
  for (size_t i = 0; i < v.size(); ++i) std::memcpy(a.data<char>() + i * e, &v[i], e);
  return a;
}
Ten ring_values(const NdArrayRef& a) {
  Ten out(a.numel());
  size_t e = a.elsize();
  SPU_ENFORCE(e <= 16, "element of {} bytes", e);
  for (int64_t i = 0; i < a.numel(); ++i) { u128 x = 0; std::memcpy(&x, &a.at(i), e); out[i] = x; }
  return out;
}
Value make_pub(const Spec& s, const std::vector<int64_t>& shape, const Ten& v) {
  return Value(ring_array(s.field, makeType<mpc::Pub2kTy>(s.field), shape, v), DT_INVALID);
}
std::string ten_str(const Ten& v) {
  std::string o = "[";
  for (size_t i = 0; i < v.size() && i < 12; ++i) o += (i ? "," : "") + u128s(v[i]);
  return o + (v.size() > 12 ? ",...]" : "]");
}
}  // namespace h
