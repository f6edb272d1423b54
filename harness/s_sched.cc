// Schedules and faults: determinism of results and traffic, concurrent contexts,
// crashes, lost messages and stalls.
#include <algorithm>
#include <thread>

#include "prog.h"
#include "sim/net.h"
using namespace h;

namespace {
const std::vector<Proto> kAll{kSemi2k, kAby3, kCheetah, kSecurenn, kSwift};

ProgOpt small_for(const Spec& s, ProgOpt o) {
  if (s.proto == kCheetah || s.proto == kSecurenn || s.proto == kSwift) o.max_ops = std::min(o.max_ops, 5);
  return o;
}
// Traffic per receiving party and link context, in the order of reception.
struct Traffic {
  std::map<std::string, std::vector<std::string>> shape, full;
};
Traffic traffic() {
  Traffic t;
  for (auto& m : sim::messages()) {
    std::string ch = cat(m.ctx, "@", m.dst);
    t.shape[ch].push_back(cat(m.src, " ", m.key, " ", m.tag, " ", m.size));
    t.full[ch].push_back(cat(m.src, " ", m.key, " ", m.tag, " ", m.hash));
  }
  return t;
}
std::string diff(const std::map<std::string, std::vector<std::string>>& a, const std::map<std::string, std::vector<std::string>>& b) {
  for (auto& x : a) {
    auto it = b.find(x.first);
    if (it == b.end()) return cat("channel ", x.first, " is used in the first run only");
    size_t n = std::min(x.second.size(), it->second.size());
    for (size_t i = 0; i < n; ++i) if (x.second[i] != it->second[i]) return cat("channel ", x.first, " message ", i, ": '", x.second[i], "' against '", it->second[i], "'");
    if (x.second.size() != it->second.size()) return cat("channel ", x.first, ": ", x.second.size(), " messages against ", it->second.size());
  }
  for (auto& x : b) if (!a.count(x.first)) return cat("channel ", x.first, " is used in the second run only");
  return "";
}
}  // namespace

// ---- same program, same randomness, different schedules ---------------------
static void confluence(Run& r, const std::vector<Proto>& protos) {
  Spec s = pick_spec(r, protos);
  Prog p = gen_prog(r, s, small_for(s, {}));
  r.note = cat(s.str(), ": ", p.str().substr(0, 300));
  // Tasks of one party that run at the same time draw that party's fresh randomness in schedule order.
  const bool conc = s.conf.experimental_enable_intra_op_par || s.proto == kCheetah || s.proto == kSecurenn;
  std::vector<std::vector<RegOut>> first;
  Traffic t0;
  int runs = 2 + static_cast<int>(r.draw("extra_runs", 0, 1));
  for (int q = 0; q < runs; ++q) {
    auto cfg = q == 0 ? sim_config(r, 0, "a_") : sim_config(r, 1, cat("b", q, "_"));
    if (q == 0) { cfg.policy = sim::Policy::kFifo; cfg.zero_latency = true; cfg.p_chunk = 0; cfg.p_yield = 0; }
    else { auto a = sim_config(r, 0, "a_"); cfg.entropy = a.entropy; cfg.num_threads = a.num_threads; }
    cfg.record_msgs = true;
    std::vector<std::vector<RegOut>> out(s.npc);
    auto oc = run_parties(r, s, cfg, [&](spu::SPUContext* ctx, int rank) {
      ProgRun st;
      exec_prog(ctx, s, p, rank, st);
      out[rank] = reveal_all(ctx, p, st);
    });
    r.check(!oc.hang, "hang", cat(s.str(), " ", oc.hang_what, " in ", p.str()));
    r.check(oc.all_ok(), "error", cat(s.str(), " ", oc.errors(), " in ", p.str()));
    Traffic t = traffic();
    if (q == 0) { first = out; t0 = std::move(t); check_prog(r, s, p, out); continue; }
    auto ds = diff(t0.shape, t.shape);
    r.check(ds.empty(), "traffic_depends_on_schedule", cat(s.str(), " ", ds, " in ", p.str()));
    if (!conc) {
      auto df = diff(t0.full, t.full);
      r.check(df.empty(), "payload_depends_on_schedule", cat(s.str(), " ", df, " in ", p.str()));
      r.tag("payloads_compared");
    }
    bool tainted[4096] = {false};
    for (size_t i = 0; i < p.ops.size(); ++i) {
      if (p.dead[i]) continue;
      // fresh randomness of concurrent tasks may differ, and what is computed from it
      bool bad = conc && (p.ops[i].name == "rand_s" || p.ops[i].name == "trunc");
      for (int x : p.ops[i].in) bad = bad || tainted[x];
      tainted[i] = bad;
      if (bad) continue;
      for (int w = 0; w < s.npc; ++w) r.check(out[w][i].v == first[w][i].v && out[w][i].shape == first[w][i].shape && out[w][i].vis == first[w][i].vis, "result_depends_on_schedule",
            cat(s.str(), " r", i, "=", p.ops[i].name, " party ", w, ": ", ten_str(first[w][i].v), " against ", ten_str(out[w][i].v), " in ", p.str()));
    }
  }
}
SCENARIO(confluence_semi2k) { confluence(r, {kSemi2k}); }
SCENARIO(confluence_aby3) { confluence(r, {kAby3}); }
SCENARIO(confluence_other) { confluence(r, {kCheetah, kSecurenn, kSwift}); }

// ---- forked contexts on concurrent threads ----------------------------------
static void forks(Run& r, const std::vector<Proto>& protos) {
  Spec s = pick_spec(r, protos);
  ProgOpt o = small_for(s, {});
  o.max_ops = 4;
  const int n = static_cast<int>(r.draw("forks", 2, 5));
  std::vector<Prog> ps;
  for (int i = 0; i < n; ++i) ps.push_back(gen_prog(r, s, o, cat("f", i, "_")));
  Prog mp = gen_prog(r, s, o, "main_");
  const bool nested = r.coin("nested", 0.3);
  r.note = cat(s.str(), " ", n, " forks: ", ps[0].str().substr(0, 200));
  auto cfg = sim_config(r, 1);
  std::vector<std::vector<std::vector<RegOut>>> out(n, std::vector<std::vector<RegOut>>(s.npc));
  std::vector<std::vector<RegOut>> mout(s.npc);
  auto oc = run_parties(r, s, cfg, [&](spu::SPUContext* ctx, int rank) {
    std::vector<std::unique_ptr<spu::SPUContext>> sub;
    for (int i = 0; i < n; ++i) sub.push_back(nested && i ? sub[(i - 1) / 2]->fork() : ctx->fork());
    std::vector<std::thread> th;
    std::vector<std::exception_ptr> err(n);
    for (int i = 0; i < n; ++i) th.emplace_back([&, i] {
      try {
        ProgRun st;
        exec_prog(sub[i].get(), s, ps[i], rank, st);
        out[i][rank] = reveal_all(sub[i].get(), ps[i], st);
      } catch (...) { err[i] = std::current_exception(); }
    });
    {  // the parent goes on meanwhile
      ProgRun st;
      exec_prog(ctx, s, mp, rank, st);
      mout[rank] = reveal_all(ctx, mp, st);
    }
    for (auto& t : th) t.join();
    for (auto& e : err) if (e) std::rethrow_exception(e);
  });
  r.check(!oc.hang, "hang", cat(s.str(), " ", oc.hang_what));
  r.check(oc.all_ok(), "error", cat(s.str(), " ", oc.errors()));
  for (int i = 0; i < n; ++i) check_prog(r, s, ps[i], out[i], cat("fork ", i, " "));
  check_prog(r, s, mp, mout, "parent ");
}
SCENARIO(forks_semi2k) { forks(r, {kSemi2k}); }
SCENARIO(forks_aby3) { forks(r, {kAby3}); }
SCENARIO(forks_other) { forks(r, {kSecurenn, kSwift, kRef2k}); }

// ---- permanent faults --------------------------------------------------------
static void permanent(Run& r, const std::vector<Proto>& protos) {
  Spec s = pick_spec(r, protos);
  ProgOpt o = small_for(s, {});
  o.rnd = false;
  // messages of one size: one that arrives in the place of another is not given away by its length
  if (r.coin("one_shape", 0.5)) {
    o.fixed = r.draw("shape", 0, 1) ? std::vector<int64_t>{2, 2} : std::vector<int64_t>{3};
    o.shapes = false;
    o.min_ops = 2; o.max_ops = 5;
    // ... and of one protocol step after the other
    const std::vector<std::vector<std::string>> families{{}, {}, {"mmul"}, {"mul", "square"}, {"and", "xor"}, {"trunc", "mul"}, {"mmul", "mul", "add"}};
    o.only = families[r.draw("family", 0, static_cast<int64_t>(families.size()) - 1)];
    if (s.proto == kRef2k) o.only.clear();
  }
  const bool as_you_go = r.coin("reveal_as_you_go", 0.5);
  Prog p = gen_prog(r, s, o);
  r.note = cat(s.str(), ": ", p.str().substr(0, 300));
  auto body = [&](spu::SPUContext* ctx, int rank, std::vector<RegOut>& out) {
    ProgRun st;
    if (as_you_go) {
      st.regs.resize(p.ops.size());
      for (size_t i = 0; i < p.ops.size(); ++i) if (!p.dead[i]) { exec_op(ctx, s, p, static_cast<int>(i), rank, st); out[i] = reveal_reg(ctx, st.regs[i]); }
    } else {
      exec_prog(ctx, s, p, rank, st);
      st.regs.resize(p.ops.size());
      for (size_t i = 0; i < p.ops.size(); ++i) out[i] = reveal_reg(ctx, st.regs[i]);
    }
  };
  std::vector<std::vector<RegOut>> out0(s.npc, std::vector<RegOut>(p.ops.size()));
  // A calm run tells how many operations there are, so that faults land anywhere in the run.
  std::vector<uint64_t> nops(s.npc), nops0(s.npc), sends(s.npc), sends0(s.npc);
  {
    auto cfg = sim_config(r, 0, "a_");
    auto oc = run_parties(r, s, cfg, [&](spu::SPUContext* ctx, int rank) {
      nops0[rank] = sim::net_ops(rank); sends0[rank] = sim::net_sends(rank);
      body(ctx, rank, out0[rank]);
      nops[rank] = sim::net_ops(rank); sends[rank] = sim::net_sends(rank);
    });
    r.check(oc.all_ok(), "error", cat("without faults: ", s.str(), " ", oc.errors(), " in ", p.str()));
  }
  auto cfg = sim_config(r, 1, "b_");
  cfg.recv_timeout_ms = 30000;
  const int kind = static_cast<int>(std::vector<int>{0, 1, 2, 1}[r.draw("fault", 0, 3)]);
  const int victim = static_cast<int>(r.draw("victim", 0, s.npc - 1));
  // mostly in the program, now and then while the contexts are made
  const bool in_setup = r.coin("in_setup", 0.15);
  const int64_t last = static_cast<int64_t>(kind == 1 ? sends[victim] : nops[victim]) - 1, from = static_cast<int64_t>(in_setup ? 0 : kind == 1 ? sends0[victim] : nops0[victim]);
  const int64_t at = r.draw("fault_at", std::min(from, std::max<int64_t>(0, last)), std::max<int64_t>(0, last));
  if (kind == 0) { cfg.crash_party = victim; cfg.crash_at = at; }
  if (kind == 1) { cfg.lose_party = victim; cfg.lose_at = at; }
  if (kind == 2) { cfg.stall_party = victim; cfg.stall_at = at; }
  std::vector<std::vector<RegOut>> out(s.npc, std::vector<RegOut>(p.ops.size()));
  std::vector<uint64_t> end_us(s.npc, 0);
  const uint64_t msgs0 = r.msgs;
  auto oc = run_parties(r, s, cfg, [&](spu::SPUContext* ctx, int rank) {
    struct At { uint64_t* t; ~At() { *t = sim::now_us(); } } at{&end_us[rank]};
    body(ctx, rank, out[rank]);
  });
  const bool fired = r.faults.count("crash") || r.faults.count("message_lost") || r.faults.count("stall");
  r.check(!oc.hang, "hang", cat(s.str(), " after a ", kind == 0 ? "crash" : kind == 1 ? "lost message" : "stall", " of party ", victim, ": ", oc.hang_what, " in ", p.str()));
  int finished = 0;
  for (int q = 0; q < s.npc; ++q) {
    if (oc.party[q].crashed) continue;
    r.check(oc.party[q].done, "unfinished", cat(s.str(), " party ", q, " neither finished nor failed"));
    if (oc.party[q].error.empty()) ++finished; else r.tag("peer_reported_error");
    // whatever was revealed before the error is right
    check_prog(r, s, p, {out[q]}, cat("after a fault, party ", q, ": "));
  }
  if (fired && finished < s.npc) r.tag("fault_surfaced_as_error");
  if (fired && finished == s.npc) r.tag("fault_without_effect");
  // Progress: all survivors are done within a few timeouts of the fault (stall: three timeouts).
  uint64_t bound = (kind == 2 ? 3 : 0) * 30000000ULL + 30000000ULL * 4 + 600ULL * 1000000 + (r.msgs - msgs0) * 100000ULL;  // and a delay for each message
  for (int q = 0; q < s.npc; ++q) if (!oc.party[q].crashed) r.check(end_us[q] <= bound, "late", cat(s.str(), " party ", q, " ended after ", end_us[q] / 1000000, "s of simulated time"));
}
SCENARIO(permanent_semi2k) { permanent(r, {kSemi2k}); }
SCENARIO(permanent_aby3) { permanent(r, {kAby3}); }
SCENARIO(permanent_other) { permanent(r, {kCheetah, kSecurenn, kSwift}); }
