// Runs several parties of one protocol in this process, one seeded schedule per call.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "sim/sim.h"
#include "yacl/link/link.h"
#include "yacl/link/test_util.h"
#include "libspu/core/config.h"
#include "libspu/core/context.h"
#include "libspu/core/parallel_utils.h"
#include "libspu/core/type_util.h"
#include "libspu/core/value.h"
#include "libspu/mpc/ab_api.h"
#include "libspu/mpc/api.h"
#include "libspu/mpc/common/communicator.h"
#include "libspu/mpc/common/prg_state.h"
#include "libspu/mpc/common/pv2k.h"
#include "libspu/mpc/utils/ring_ops.h"
namespace spu { int64_t kMinTaskSize = 50000; }
namespace spu::mpc::cheetah { size_t kMinWorkSize = 2048; }
namespace spu::mpc::semi2k::beaver::ttp_server { int64_t kReplayChunkSize = 32L << 20; }
using namespace spu;
using u128 = unsigned __int128;
using Vec = std::vector<u128>;
using Link = std::shared_ptr<yacl::link::Context>;
#define DIE(...) do { std::printf(__VA_ARGS__); std::printf("\n"); std::fflush(stdout); std::_Exit(1); } while (0)
#define MUST(c, ...) do { if (!(c)) DIE(__VA_ARGS__); } while (0)

struct Result { std::vector<std::string> error; bool hang = false; std::string what; bool ok() const { for (auto& e : error) if (!e.empty()) return false; return !hang; } };
inline sim::Config schedule(uint64_t seed) {
  sim::Config c; c.seed = seed; c.entropy = seed * 7919 + 13; c.policy = sim::Policy::kRandom; c.p_lock_yield = 0.3; return c;
}
inline Result run_links(int n, const sim::Config& cfg, const std::function<void(const Link&, int)>& fn, const std::function<void()>& before = {}, const std::function<void()>& after = {}) {
  Result out; out.error.resize(n);
  try {
    sim::run(cfg, [&] {
      auto w = yacl::link::test::SetupWorld("w", n);
      if (before) before();
      std::vector<sim::Task> ts;
      for (int i = 0; i < n; ++i) ts.push_back(sim::spawn([&, i] { auto l = w[i]; fn(l, i); }, "party" + std::to_string(i), i));
      for (int i = 0; i < n; ++i) {
        sim::join(ts[i]);
        auto x = sim::result(ts[i]);
        if (x.error) out.error[i] = x.what.empty() ? "exception" : x.what; else if (x.crashed) out.error[i] = "crashed";
      }
      if (after) after();
    });
  } catch (const sim::Hang& e) { out.hang = true; out.what = e.what; }
  return out;
}
inline RuntimeConfig conf(FieldType f, ProtocolKind p) {
  RuntimeConfig c; c.protocol = p; c.field = f;
  if (f == FM64) c.fxp_fraction_bits = 17;
  if (f == FM128) c.fxp_fraction_bits = 40;
  populateRuntimeConfig(c); return c;
}
inline NdArrayRef arr(const Type& ty, const Shape& s, const Vec& v) {
  NdArrayRef a(ty, s); for (size_t i = 0; i < v.size(); ++i) std::memcpy(a.data<char>() + i * a.elsize(), &v[i], a.elsize()); return a;
}
inline Value pub(FieldType f, const Shape& s, const Vec& v) { return Value(arr(makeType<mpc::Pub2kTy>(f), s, v), DT_INVALID); }
inline Vec vals(const NdArrayRef& a) { Vec o(a.numel()); for (int64_t i = 0; i < a.numel(); ++i) std::memcpy(&o[i], &a.at(i), a.elsize()); return o; }
inline Vec vals(const Value& v) { return vals(v.data()); }
