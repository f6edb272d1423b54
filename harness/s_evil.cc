// A party that deviates: what the honest party opens under SPDZ-2k is right, or it stops.
#include <cstring>

#include "libspu/mpc/spdz2k/commitment.h"
#include "libspu/mpc/spdz2k/type.h"
#include "prog.h"
#include "sim/net.h"
using namespace h;

namespace {
u128 rand128(sim::Rng& g) { return (u128(g.next()) << 64) | g.next(); }
u128 gen_delta(sim::Rng& g) {
  switch (g.below(5)) {
    case 0: return u128(1) << g.below(128);
    case 1: return 1;
    case 2: return u128(1) << g.pick(std::vector<int>{63, 64, 62, 127});
    case 3: return rand128(g) & ~u128(0) >> 64;
    default: return rand128(g);
  }
}
// A deviating party may hold whatever it likes: moves one element of its share, or of its tag.
bool corrupt(sim::Rng& g, std::optional<spu::Value>& v) {
  if (!v || !v->isSecret() || v->numel() == 0) return false;
  auto a = v->data().clone();
  if (!a.eltype().isa<spu::mpc::spdz2k::AShrTy>()) return false;
  const int64_t e = static_cast<int64_t>(g.below(a.numel()));
  const int part = g.chance(0.75) ? 0 : 1;
  u128 d = gen_delta(g), x;
  char* p = a.data<char>() + e * 32 + part * 16;
  std::memcpy(&x, p, 16); x += d; std::memcpy(p, &x, 16);
  v = spu::Value(a, v->dtype());
  return true;
}
}  // namespace

SCENARIO(evil_spdz2k) {
  Spec s = pick_spec(r, {kSpdz2k});
  ProgOpt o;
  o.boolean = o.cmp = o.perm = o.shapes = o.rnd = false;
  o.big = false; o.max_numel = 8; o.max_ops = 6; o.min_ops = 2;
  Prog p = gen_prog(r, s, o);
  // Rank 0 deals the correlated randomness and is trusted by design; rank 1 deviates. Its own
  // inputs are its own business, so every secret is the honest party's.
  auto g = r.rng("evil");
  for (auto& op : p.ops) {
    if (op.name == "in" && op.p[0] != 0) { op.p[1] = 0; op.p[0] = op.p[0] == 3 || g.chance(0.6) ? 3 : 4; }
    if (op.name == "in" && op.p[0] == 0 && g.chance(0.6)) { op.p[0] = 3; op.p[1] = 0; }
    if (op.name == "s2v") op.p[0] = 0;
    if (op.name == "toP" && g.chance(0.7)) op.name = "toS";
  }
  deal_inputs(s, p);
  // mode 0: nothing (the honest run), 1: what it sends, 2: what it holds
  const int kind = static_cast<int>(r.pick("attack", {2, 1, 2, 1, 2, 0}));
  auto cfg = sim_config(r, 0);
  cfg.recv_timeout_ms = 60000;
  int at = -1;
  const int n = static_cast<int>(p.ops.size());
  if (kind == 1) {
    cfg.evil_party = 1;
    // how much does it send at all?
    auto plain = cfg;
    plain.evil_party = -1;
    uint64_t sends = 0;
    auto oc0 = run_parties(r, s, plain, [&](spu::SPUContext* ctx, int rank) {
      ProgRun st;
      exec_prog(ctx, s, p, rank, st);
      reveal_all(ctx, p, st);
      if (rank == 1) sends = sim::net_sends(1);
    });
    r.check(oc0.all_ok(), "error", cat(s.str(), " ", oc0.errors(), " in ", p.str()));
    if (sends == 0) throw Discard{};
    cfg.evil_at = static_cast<uint64_t>(r.draw("evil_at", 0, static_cast<int64_t>(sends) - 1));
    cfg.evil_count = static_cast<uint64_t>(r.pick("evil_count", {1, 1, 1, 3, 1000}));
    cfg.evil_mode = static_cast<int>(r.draw("evil_mode", 0, 3));
  } else if (kind == 2) {
    std::vector<bool> sec(n, false); std::vector<int64_t> c;
    for (int i = 0; i < n; ++i) {
      auto& op = p.ops[i];
      if (p.dead[i]) continue;
      if (op.name == "in") sec[i] = op.p[0] == 4;
      else if (op.name == "toS") sec[i] = true;
      else if (op.name != "toP" && op.name != "s2v") for (int x : op.in) sec[i] = sec[i] || sec[x];
      if (sec[i]) c.push_back(i);
    }
    if (c.empty()) throw Discard{};
    at = static_cast<int>(r.pick("evil_reg", c));
  }
  std::vector<RegOut> out(n);
  // order in which results are opened: any register may be the only one looked at
  std::vector<int> order;
  for (int i = 0; i < n; ++i) if (!p.dead[i]) order.push_back(i);
  for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[g.below(i)]);
  const size_t shown = g.chance(0.6) ? std::min<size_t>(order.size(), 2) : order.size();
  if (kind == 2 && g.chance(0.6)) {  // look at the end of the program rather than at what was changed
    order.clear();
    for (int i = n - 1; i >= 0; --i) if (!p.dead[i]) order.push_back(i);
  }
  order.resize(std::min(shown, order.size()));
  bool corrupted = false;
  r.note = cat(s.str(), " attack ", kind, kind == 1 ? cat(" sends ", cfg.evil_at, "+", cfg.evil_count, " mode ", cfg.evil_mode) : cat(" register ", at), ": ", p.str().substr(0, 300));
  auto oc = run_parties(r, s, cfg, [&](spu::SPUContext* ctx, int rank) {
    ProgRun st;
    auto ge = r.rng("delta");
    for (int i = 0; i < n; ++i) {
      exec_op(ctx, s, p, i, rank, st);
      if (rank == 1 && i == at && !p.dead[i]) corrupted = corrupt(ge, st.regs[i]);
    }
    st.regs.resize(n);
    for (int i : order) { auto v = reveal_reg(ctx, st.regs[i]); if (rank == 0) out[i] = v; }
  });
  const bool deviated = kind == 1 ? r.faults.count("tamper") != 0 : kind == 2 && corrupted;
  const bool stopped = !oc.party[0].done || !oc.party[0].error.empty();
  if (!deviated) {
    r.check(oc.all_ok() && !oc.hang, "error", cat(r.note, " ", oc.errors()));
    r.tag("evil:none");
  } else {
    if (kind == 2) r.faults["share_changed"]++;
    r.tag(cat(stopped ? "evil:detected " : "evil:no_effect ", kind == 1 ? "sent" : "held"));
    if (stopped && oc.party[0].error.find("timeout") == std::string::npos) r.tag("evil:check_failed");
    r.check(stopped || !oc.hang, "hang", cat(r.note, " ", oc.hang_what));
  }
  // The plaintext model of the whole program; after a truncation only its own result is bounded.
  std::vector<Ten> ref(n); std::vector<int> know(n, 0);
  for (int i = 0; i < n; ++i) {
    if (p.dead[i]) continue;
    std::vector<const Ten*> in; std::vector<const std::vector<int64_t>*> sh;
    int kn = 2;
    for (int x : p.ops[i].in) { kn = std::min(kn, know[x]); in.push_back(&ref[x]); sh.push_back(&p.ops[x].shape); }
    if (kn < 2) continue;
    auto v = ref_op(s, p.ops[i], in, sh, false);
    if (!v) continue;
    ref[i] = *v; know[i] = p.ops[i].name == "trunc" ? 1 : 2;
  }
  for (int i : order) {
    if (!out[i].present || !know[i]) continue;
    for (size_t e = 0; e < ref[i].size(); ++e) {
      u128 d = (out[i].v[e] - ref[i][e]) & s.mask(), d2 = (ref[i][e] - out[i].v[e]) & s.mask();
      bool ok = know[i] == 2 ? d == 0 : (d < d2 ? d : d2) <= 4;
      r.check(ok, "wrong_value_accepted", cat(s.str(), " the honest party accepted ", u128s(out[i].v[e]), " where the plaintext ring gives ", u128s(ref[i][e]), " in r", i, "=", p.ops[i].name, " element ", e, "; ", r.note));
    }
    r.tag("evil:opened");
  }
}

// ---- commitments ------------------------------------------------------------
SCENARIO(commit_open) {
  const int n = static_cast<int>(r.pick("npc", {2, 3, 4, 5}));
  auto g = r.rng("msg");
  auto cfg = sim_config(r, 0);
  cfg.recv_timeout_ms = 60000;
  const int evil = r.coin("attack", 0.75) ? static_cast<int>(g.below(n)) : -1;
  const int rounds = static_cast<int>(r.draw("rounds", 1, 3));
  const size_t len = static_cast<size_t>(g.pick(std::vector<int64_t>{16, 1, 8, 64, 200}));
  std::vector<std::vector<std::string>> msg(rounds, std::vector<std::string>(n));
  for (auto& m : msg) for (auto& x : m) { x.resize(len); for (auto& c : x) c = static_cast<char>(g.next()); }
  if (evil >= 0) {
    cfg.evil_party = evil;
    cfg.evil_at = static_cast<uint64_t>(r.draw("evil_at", 0, 2 * rounds * (n - 1) - 1));
    cfg.evil_count = static_cast<uint64_t>(r.pick("evil_count", {1, 1, 2, 100}));
    cfg.evil_mode = static_cast<int>(r.draw("evil_mode", 0, 3));
  }
  r.note = cat(n, " parties, ", rounds, " rounds of ", len, " bytes", evil >= 0 ? cat(", party ", evil, " tampers ", cfg.evil_at, "+", cfg.evil_count, " mode ", cfg.evil_mode) : "");
  std::vector<std::vector<int>> res(n, std::vector<int>(rounds, -1));
  std::vector<std::vector<std::vector<std::string>>> got(n, std::vector<std::vector<std::string>>(rounds));
  auto oc = run_links(r, n, cfg, [&](const std::shared_ptr<yacl::link::Context>& lctx, int rank) {
    for (int q = 0; q < rounds; ++q) {
      res[rank][q] = spu::mpc::commit_and_open(lctx, msg[q][rank], &got[rank][q]);
    }
  });
  const bool tampered = r.faults.count("tamper") != 0;
  r.check(!oc.hang, "hang", cat(r.note, " ", oc.hang_what));
  if (!tampered) r.check(oc.all_ok(), "error", cat(r.note, " ", oc.errors()));
  bool refused = false;
  for (int i = 0; i < n; ++i) {
    if (i == evil) continue;
    for (int q = 0; q < rounds; ++q) {
      if (res[i][q] != 1) { refused = true; if (!tampered) r.fail("honest_refused", cat(r.note, ": party ", i, " refuses round ", q)); continue; }
      r.check(got[i][q] == msg[q], "uncommitted_accepted", cat(r.note, ": party ", i, " accepts in round ", q, " something other than what was committed to"));
    }
  }
  r.tag(tampered ? (refused ? "commit:refused" : "commit:unharmed") : "commit:honest");
}
