#include "h.h"
#include <algorithm>
#include <cstring>
namespace h {
std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }
uint64_t hash_bytes(const void* p, size_t n) {
  const auto* c = static_cast<const unsigned char*>(p);
  uint64_t x = 0x9e1f ^ n;
  while (n >= 8) { uint64_t w; std::memcpy(&w, c, 8); x = sim::mix64(x ^ w); c += 8; n -= 8; }
  uint64_t w = 0; std::memcpy(&w, c, n);
  return sim::mix64(x ^ w);
}
std::string u128s(u128 v) {
  char b[64]; std::snprintf(b, sizeof b, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v);
  if (!(v >> 64)) std::snprintf(b, sizeof b, "0x%llx", (unsigned long long)v);
  return b;
}
void simulate(Run& r, const sim::Config& cfg, const std::function<void()>& fn) {
  auto fold = [&] {
    const auto& s = sim::stats();
    ++r.sims; r.switches += s.switches; r.choices += s.sched_choices; r.msgs += s.msgs; r.bytes += s.bytes;
    r.virt_us += s.virt_us; r.chunks += s.chunk_pieces; r.threads += s.threads; r.locks += s.locks;
    for (auto& f : s.faults) r.faults[f.first] += f.second;
    for (auto& p : s.probes) r.tags["probe:" + p.first] += p.second;
    if (s.access_switches) r.tags["switches_at_memory_accesses"] += s.access_switches;
  r.interleavings.push_back(s.interleaving);
    r.mixhash(s.hash); r.mixhash(s.interleaving);
  };
  sim::Config c = cfg;
  if (r.races) { c.races = true; c.p_chunk = 1; }
  std::exception_ptr err;
  try { sim::run(c, fn); } catch (...) { err = std::current_exception(); }
  fold();
  if (r.races) { r.tag("executions_checked_for_races"); r.check(sim::race_report().empty(), "race", sim::race_report()); }
  if (err) std::rethrow_exception(err);
}
sim::Config sim_config(Run& r, int weather, const std::string& px) {
  sim::Config c;
  auto g = r.rng(px + "sim");
  c.entropy = static_cast<uint64_t>(r.knob(px + "entropy", static_cast<int64_t>(g.next() >> 1), 1));
  c.seed = static_cast<uint64_t>(r.knob(px + "sched_seed", static_cast<int64_t>(g.next() >> 1), 1));
  c.policy = static_cast<sim::Policy>(r.pick(px + "policy", {0, 1, 1, 1, 1, 2, 3, 3}));
  c.zero_latency = r.knob(px + "zero_latency", r.rng(px + "zl").chance(0.1), 1) != 0;
  c.jitter_us = static_cast<uint64_t>(r.pick(px + "jitter_us", {0, 100, 2000, 20000, 200000}));
  c.p_yield = r.pick(px + "yield_pct", {0, 10, 30, 60, 90}) / 100.0;
  c.p_lock_yield = r.pick(px + "lock_yield_pct", {0, 20, 50, 90}) / 100.0;
  c.p_chunk = r.pick(px + "chunk_pct", {0, 10, 50, 100}) / 100.0;
  c.p_chunk_conc = r.pick(px + "chunk_conc_pct", {0, 0, 50, 100}) / 100.0;
  c.p_preempt = r.pick(px + "preempt_pct", {2, 10, 30}) / 100.0;
  c.num_threads = static_cast<int>(r.pick(px + "num_threads", {1, 2, 4, 8}));
  c.access_gap = static_cast<uint64_t>(r.pick(px + "access_gap", {0, 0, 15, 120, 1000}));
  c.recv_timeout_ms = 3600 * 1000;
  if (weather >= 1) {
    if (r.coin(px + "w_spike", 0.4)) c.p_spike = 0.02 + 0.1 * g.unit();
    if (r.coin(px + "w_loss", 0.4)) c.p_loss_retx = 0.02 + 0.15 * g.unit();
    if (r.coin(px + "w_dup", 0.3)) c.p_dup = 0.1;
    if (r.coin(px + "w_partition", 0.3)) c.partition = true;
    if (r.coin(px + "w_slow", 0.3)) { c.slow_party = static_cast<int>(r.draw(px + "slow_party", 0, 2)); c.slow_us = 50000; }
  }
  return c;
}
}  // namespace h
