// Protocol instances under simulation.
#pragma once
#include <memory>
#include "h.h"
#include "libspu/core/context.h"
#include "libspu/core/value.h"
#include "libspu/mpc/io_interface.h"

namespace h {
enum Proto { kRef2k = 0, kSemi2k, kAby3, kCheetah, kSecurenn, kSpdz2k, kSwift };
const char* proto_name(int p);
struct Spec {
  Proto proto = kSemi2k;
  spu::FieldType field = spu::FM64;
  int npc = 2;
  int beaver = 0;  // 0 trusted first party, 1 trusted third party, 2 multi party
  spu::RuntimeConfig conf;
  int k() const { return field == spu::FM32 ? 32 : field == spu::FM64 ? 64 : 128; }
  u128 mask() const { return k() == 128 ? ~u128(0) : ((u128(1) << k()) - 1); }
  std::string str() const;
};
// Weighted choice among protocol configurations that the repository supports.
Spec pick_spec(Run& r, const std::vector<Proto>& allowed, bool ttp_ok = true);
std::unique_ptr<spu::SPUContext> make_ctx(const Spec& s, const std::shared_ptr<yacl::link::Context>& lctx);
std::unique_ptr<spu::mpc::IoInterface> make_io(const Spec& s);

struct PartyOut { bool done = false, crashed = false; std::string error; };
struct Outcome {
  std::vector<PartyOut> party;
  bool hang = false;
  std::string hang_what;
  bool all_ok() const { for (auto& p : party) if (!p.done || !p.error.empty()) return false; return !hang; }
  std::string errors() const;
};
using PartyFn = std::function<void(spu::SPUContext*, int)>;
// One execution with all parties (and the beaver server where the spec has one).
// `make` defaults to make_ctx.
Outcome run_parties(Run& r, Spec& s, const sim::Config& cfg, const PartyFn& fn, const std::function<void()>& before = {});
// Same, but on bare link contexts.
using LinkFn = std::function<void(const std::shared_ptr<yacl::link::Context>&, int)>;
Outcome run_links(Run& r, int n, const sim::Config& cfg, const LinkFn& fn, const std::function<void()>& before = {});
void start_ttp_server(Spec& s);  // inside a simulation
void stop_ttp_server();

// ring helpers
using Ten = std::vector<u128>;
spu::NdArrayRef ring_array(spu::FieldType f, const spu::Type& ty, const std::vector<int64_t>& shape, const Ten& v);
Ten ring_values(const spu::NdArrayRef& a);  // any 4/8/16 byte element array
spu::Value make_pub(const Spec& s, const std::vector<int64_t>& shape, const Ten& v);
std::string ten_str(const Ten& v);
}  // namespace h
