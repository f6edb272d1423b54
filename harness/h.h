// Harness core: one simulated case = (scenario, seed) + overrides.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "sim/sim.h"

namespace h {
using u128 = unsigned __int128;

struct Violation {
  std::string kind, msg;
};
struct Discard {};  // the generated case is outside of the property's domain

// Everything about one case. All random choices derive from the seed; each choice
// that the minimiser may override goes through knob().
struct Run {
  std::string scenario;
  uint64_t seed = 1;
  std::map<std::string, int64_t> over;              // overrides (replay files)
  std::vector<std::pair<std::string, std::pair<int64_t, int64_t>>> knobs;  // name -> used, simplest
  std::set<int> skip;                               // operations left out
  int n_ops = 0;
  bool races = false;                               // a data race is a violation
  std::map<std::string, uint64_t> tags;             // coverage counters
  std::set<uint64_t> states;                        // distinct abstract states reached
  uint64_t evals = 0;                               // oracle evaluations
  uint64_t sims = 0, switches = 0, choices = 0, msgs = 0, bytes = 0, virt_us = 0, chunks = 0, threads = 0, locks = 0;
  std::map<std::string, uint64_t> faults;
  std::vector<uint64_t> interleavings;
  uint64_t hash = 0;
  std::string note;                                 // short description of the case

  int64_t knob(const std::string& name, int64_t v, int64_t simplest) {
    auto it = over.find(name);
    if (it != over.end()) v = it->second;
    knobs.push_back({name, {v, simplest}});
    return v;
  }
  // A generator of its own per name: overriding one choice never changes another.
  sim::Rng rng(const std::string& name) const { return sim::Rng(sim::mix64(seed) ^ hash_name(name)); }
  static uint64_t hash_name(const std::string& n) { uint64_t x = 0xcbf29ce484222325ULL; for (unsigned char c : n) x = (x ^ c) * 0x100000001b3ULL; return sim::mix64(x); }
  // Draws uniformly from [lo,hi]; lo is the simplest.
  int64_t draw(const std::string& name, int64_t lo, int64_t hi) { return knob(name, rng(name).range(lo, hi), lo); }
  bool coin(const std::string& name, double p) { return knob(name, rng(name).chance(p) ? 1 : 0, 0) != 0; }
  int64_t pick(const std::string& name, const std::vector<int64_t>& v) { return knob(name, rng(name).pick(v), v[0]); }  // v[0] is the simplest
  bool skipped(int i) { if (i >= n_ops) n_ops = i + 1; return skip.count(i) != 0; }
  void tag(const std::string& t, uint64_t n = 1) { tags[t] += n; }
  [[noreturn]] void fail(const std::string& kind, const std::string& msg) { throw Violation{kind, msg}; }
  void check(bool ok, const std::string& kind, const std::string& msg) { ++evals; if (!ok) fail(kind, msg); }
  void mixhash(uint64_t v) { hash = sim::mix64(hash ^ v) + v; }
};

using ScenarioFn = std::function<void(Run&)>;
struct Scenario { std::string name; ScenarioFn fn; };
std::vector<Scenario>& scenarios();
struct Reg { Reg(const char* n, ScenarioFn f) { scenarios().push_back({n, std::move(f)}); } };
#define SCENARIO(name) static void scen_##name(h::Run& r); static h::Reg reg_##name(#name, scen_##name); static void scen_##name(h::Run& r)

// Runs one simulation and folds its statistics into the case.
void simulate(Run& r, const sim::Config& cfg, const std::function<void()>& fn);

// A seeded schedule and network configuration. weather: 0 calm, 1 delays/loss/dup/partition that heal.
sim::Config sim_config(Run& r, int weather, const std::string& prefix = "");

std::string u128s(u128 v);
uint64_t hash_bytes(const void* p, size_t n);
inline uint64_t hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }
template <typename... A> std::string cat(const A&... a) { std::ostringstream o; (o << ... << a); return o.str(); }
}  // namespace h
