// The block executor: operations of a block on concurrent threads, each on its own fork of
// the evaluation context, against the same block run one by one.
#include <algorithm>
#include <set>

#include "libspu/device/executor.h"
#include "libspu/device/intrinsic_table.h"
#include "prog.h"
#include "sim/net.h"
using namespace h;
namespace dev = spu::device;

namespace {
enum { kEffect = 100000, kPrint = 200000, kRegion = 300000 };
struct Plan {
  Prog p;
  mlir::Region top;
  std::vector<int> arg_regs;               // registers passed as arguments of the top region
  std::vector<std::vector<int>> yields;    // per region operation: registers it returns
  std::vector<int> top_yield;
  int effects = 0, prints = 0, regions = 0, nops = 0;
  int depth = 0;
};
struct Event { int id; bool end; const mlir::Region* block; };
struct PartyLog { std::vector<Event> ev; std::map<int, int> runs; std::vector<char> absent; };
struct Exec final : dev::OpExecutor {
  const Spec* s; Plan* pl; PartyLog* log; int rank; int fail_id = -1; int effect_ops = 0;
  void checkType(mlir::Type, const spu::Value&) const override {}
  bool hasKernel(mlir::Operation&) const override { return true; }
  void runKernelImpl(spu::SPUContext* c, dev::SymbolScope* sc, mlir::Operation& op, const dev::ExecutionOptions& opts) override {
    log->ev.push_back({op.id, false, op.getParentRegion()});
    ++log->runs[op.id];
    std::vector<spu::Value> in;
    for (auto v : op.getOperands()) in.push_back(sc->lookupValue(v));
    if (op.id == fail_id) SPU_THROW("injected kernel error");
    if (op.id >= kRegion) {
      auto res = dev::runRegion(this, c, sc, op.getRegion(0), in, opts);
      SPU_ENFORCE(res.size() == op.getNumResults());
      for (unsigned i = 0; i < res.size(); ++i) sc->addValue(op.getResult(i), res[i]);
    } else if (op.id >= kEffect) {
      // takes a while, with a network round now and then
      sim::sleep_us(200 * (op.id % 7));
      if (op.id % 3 == 0 && op.id < kPrint && c->lctx()) yacl::link::Barrier(c->lctx(), "effect");
      if (op.getNumResults()) sc->addValue(op.getResult(0), make_pub(*s, {1}, {1}));
    } else {
      ProgRun st;
      st.regs.resize(pl->p.ops.size());
      auto& o = pl->p.ops[op.id];
      bool ok = true;
      for (size_t j = 0; j < o.in.size(); ++j) { if (log->absent[o.in[j]]) ok = false; else st.regs[o.in[j]] = in[j]; }
      if (ok) exec_op(c, *s, pl->p, op.id, rank, st);
      if (!st.regs[op.id]) log->absent[op.id] = 1;
      sc->addValue(op.getResult(0), st.regs[op.id] ? *st.regs[op.id] : make_pub(*s, {1}, {0}));
    }
    log->ev.push_back({op.id, true, op.getParentRegion()});
  }
};
using Vis = std::map<int, mlir::Value>;  // register -> value visible in a region
// Appends operations [lo, hi) of the program to the region.
void build(sim::Rng& g, Plan& pl, mlir::Region& rg, Vis& vis, int lo, int hi, int depth) {
  pl.depth = std::max(pl.depth, depth);
  for (int i = lo; i < hi; ++i) {
    if (g.chance(0.2)) {  // an operation which has a side effect, with or without operands
      std::vector<mlir::Value> ops;
      for (int q = static_cast<int>(g.below(3)); q > 0 && !vis.empty(); --q) { auto it = vis.begin(); std::advance(it, g.below(vis.size())); ops.push_back(it->second); }
      auto* e = rg.append(kEffect + pl.effects++, ops, 1);
      e->attrs["has_side_effect"] = true;
    }
    if (g.chance(0.1) && !vis.empty()) {
      auto it = vis.begin(); std::advance(it, g.below(vis.size()));
      rg.append(kPrint + pl.prints++, {it->second}, 0)->call_target = DBG_PRINT;
    }
    if (pl.p.dead[i] || vis.count(i)) continue;
    if (depth < 2 && hi - i >= 2 && g.chance(0.25)) {  // a nested region
      int to = static_cast<int>(g.range(i + 1, hi));
      const int id = pl.regions++;
      pl.yields.resize(pl.regions);
      std::vector<int> yl;
      for (int q = i; q < to; ++q) if (!pl.p.dead[q] && !vis.count(q)) yl.push_back(q);
      // some of the values it needs are passed as arguments, the others are captured
      std::set<int> need;
      for (int q : yl) for (int x : pl.p.ops[q].in) if (vis.count(x)) need.insert(x);
      std::vector<int> args;
      const int style = static_cast<int>(g.below(3));
      for (int x : need) if (style == 0 || (style == 1 && g.chance(0.5))) args.push_back(x);
      std::vector<mlir::Value> ops;
      for (int x : args) ops.push_back(vis[x]);
      auto* op = rg.append(kRegion + id, ops, static_cast<unsigned>(yl.size()));
      op->regions.resize(1);
      auto& sub = op->regions[0];
      Vis sv = vis;
      for (int x : args) sv[x] = sub.add_argument();
      build(g, pl, sub, sv, i, to, depth + 1);
      std::vector<mlir::Value> out;
      for (int q : yl) out.push_back(sv[q]);
      sub.append(-1, out, 0);
      for (size_t q = 0; q < yl.size(); ++q) vis[yl[q]] = op->getResult(static_cast<unsigned>(q));
      pl.yields[id] = yl;
      i = to - 1;
      continue;
    }
    std::vector<mlir::Value> ops;
    for (int x : pl.p.ops[i].in) ops.push_back(vis.at(x));
    auto* op = rg.append(i, ops, 1);
    if (g.chance(0.1)) op->attrs["has_side_effect"] = false;
    vis[i] = op->getResult(0);
    ++pl.nops;
  }
}
// Ids of the operations of a block, in program order, with those marked that have a side effect.
void check_order(Run& r, const std::string& what, const PartyLog& log, mlir::Region& rg) {
  std::map<int, size_t> b, e;
  for (size_t i = 0; i < log.ev.size(); ++i) if (log.ev[i].block == &rg) (log.ev[i].end ? e : b)[log.ev[i].id] = i;
  std::vector<int> before;
  for (auto& op : rg.block.without_terminator()) {
    // an operation that neither takes values nor has an effect may run at any time
    const bool effect = op.attrs.count("has_side_effect") && op.attrs.at("has_side_effect");
    if (op.getNumOperands() > 0 || effect) for (int x : before) {
      r.check(b.count(op.id) && e.count(x), "not_executed", cat(what, ": operation ", op.id, " or ", x, " did not run"));
      r.check(b[op.id] > e[x], "side_effect_order", cat(what, ": operation ", op.id, " starts before the side effect of the earlier operation ", x, " is complete"));
      ++r.evals;
    }
    if (effect) before.push_back(op.id);
    for (auto& sub : op.getRegions()) check_order(r, what, log, sub);
  }
}
void all_ids(mlir::Region& rg, std::vector<int>& out) { rg.walk([&](mlir::Operation* o) { if (o->id >= 0) out.push_back(o->id); }); }
}  // namespace

static void executor(Run& r, const std::vector<Proto>& protos) {
  Spec s = pick_spec(r, protos);
  ProgOpt o;
  o.max_ops = s.proto == kSwift || s.proto == kSecurenn ? 5 : 8;
  Plan pl;
  pl.p = gen_prog(r, s, o);
  // filling the operand cache from two contexts at once is a known finding of its own (cache_forks_cold)
  for (auto& op : pl.p.ops) if (op.name == "cache") op.name = "toS";
  auto g = r.rng("plan");
  Vis vis;
  std::vector<int> arg_regs;
  for (size_t i = 0; i < pl.p.ops.size(); ++i) {
    if (pl.p.dead[i] || pl.p.ops[i].name != "in" || !g.chance(0.5)) continue;
    arg_regs.push_back(static_cast<int>(i));
    vis[static_cast<int>(i)] = pl.top.add_argument();
  }
  build(g, pl, pl.top, vis, 0, static_cast<int>(pl.p.ops.size()), 0);
  std::vector<int> regs; std::vector<mlir::Value> outs;
  for (auto& v : vis) { regs.push_back(v.first); outs.push_back(v.second); }
  pl.top.append(-1, outs, 0);
  std::vector<int> ids; all_ids(pl.top, ids);

  const bool par = r.coin("parallel", 0.9);
  const int conc = static_cast<int>(r.draw("concurrency", 1, 6));
  const bool uneven = r.coin("uneven_concurrency", 0.25);
  const int fault = static_cast<int>(r.pick("fault", {0, 0, 0, 1, 1, 2, 3}));
  const int victim = static_cast<int>(r.draw("victim", 0, s.npc - 1));
  const int fail_id = fault == 1 && !ids.empty() ? ids[r.draw("fail_at", 0, static_cast<int64_t>(ids.size()) - 1)] : -1;
  auto cfg = sim_config(r, 1);
  if (fault >= 2) cfg.recv_timeout_ms = 30000;
  if (fault == 2) { cfg.lose_party = victim; cfg.lose_at = r.draw("lose_at", 0, 60); }
  if (fault == 3) { cfg.stall_party = victim; cfg.stall_at = r.draw("stall_at", 0, 120); }
  r.note = cat(s.str(), par ? " parallel " : " sequential ", conc, " threads, ", ids.size(), " operations, ", pl.regions, " regions, ", pl.effects, " effects", fault ? cat(", fault ", fault, " at party ", victim) : "", ": ", pl.p.str().substr(0, 200));
  std::vector<PartyLog> logs(s.npc);
  std::vector<std::vector<RegOut>> out(s.npc, std::vector<RegOut>(pl.p.ops.size()));
  std::vector<char> returned(s.npc, 0);
  auto oc = run_parties(r, s, cfg, [&](spu::SPUContext* ctx, int rank) {
    Exec ex;
    ex.s = &s; ex.pl = &pl; ex.log = &logs[rank]; ex.rank = rank;
    if (rank == victim) ex.fail_id = fail_id;
    logs[rank].absent.assign(pl.p.ops.size(), 0);
    ProgRun st;
    st.regs.resize(pl.p.ops.size());
    std::vector<spu::Value> params;
    for (int x : arg_regs) { exec_op(ctx, s, pl.p, x, rank, st); params.push_back(*st.regs[x]); }
    dev::ExecutionOptions eo;
    eo.do_parallel = par;
    eo.concurrency = static_cast<uint64_t>(uneven ? 1 + (conc + rank) % 6 : conc);
    auto res = dev::runRegion(&ex, ctx, nullptr, pl.top, params, eo);
    returned[rank] = 1;
    r.check(res.size() == regs.size(), "results", cat(res.size(), " results for ", regs.size()));
    for (size_t i = 0; i < regs.size(); ++i) if (!logs[rank].absent[regs[i]]) st.regs[regs[i]] = res[i];
    for (size_t i = 0; i < pl.p.ops.size(); ++i) out[rank][i] = reveal_reg(ctx, st.regs[i]);
  });
  const bool net_fault = r.faults.count("message_lost") || r.faults.count("stall");
  r.check(!oc.hang, "hang", cat(s.str(), " ", oc.hang_what, "; ", r.note));
  for (int q = 0; q < s.npc; ++q) {
    const std::string who = cat(s.str(), par ? " parallel" : " sequential", " party ", q);
    for (auto& x : logs[q].runs) r.check(x.second == 1, "executed_twice", cat(who, ": operation ", x.first, " ran ", x.second, " times"));
    if (fail_id >= 0 && q == victim) {
      r.check(!oc.party[q].error.empty(), "error_dropped", cat(who, ": operation ", fail_id, " failed, and the block reports no error"));
      // what started before the failure is not undone, what depends on it is not started
      r.tag("kernel_error_surfaced");
    }
    if (fail_id < 0 && !net_fault) r.check(oc.party[q].error.empty(), "error", cat(who, ": ", oc.party[q].error, "; ", r.note));
    if (returned[q]) {
      for (int id : ids) r.check(logs[q].runs.count(id) == 1, "not_executed", cat(who, ": operation ", id, " did not run"));
      check_order(r, who, logs[q], pl.top);
    }
    // whatever was revealed is right
    bool any = false;
    for (auto& x : out[q]) any = any || x.present;
    if (any) check_prog(r, s, pl.p, {out[q]}, cat(who, ": "));
  }
  r.tag(cat("executor:", par ? "parallel" : "sequential"));
  if (par) r.tag(cat("threads:", conc));
  if (pl.regions) r.tag("nested_region");
  if (pl.depth > 1) r.tag("nested_twice");
  if (pl.effects) r.tag("side_effects", pl.effects);
  if (net_fault) r.tag("executor_under_network_fault");
}
SCENARIO(executor_semi2k) { executor(r, {kSemi2k}); }
SCENARIO(executor_aby3) { executor(r, {kAby3}); }
SCENARIO(executor_other) { executor(r, {kRef2k, kSecurenn, kSwift}); }
