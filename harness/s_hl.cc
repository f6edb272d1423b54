// Kernel library (hlo and hal): numeric results and data movement, under any schedule.
#include "hl.h"
using namespace h;

static void run_hl_case(Run& r, const std::vector<Proto>& protos, const std::vector<const std::vector<HDef>*>& sets, int max_ops) {
  Spec s = pick_spec(r, protos);
  hl_config(r, s);
  HProg p = gen_hl(r, s, sets, 1, max_ops);
  r.note = cat(s.str(), ": ", p.str().substr(0, 400));
  auto cfg = sim_config(r, 1);
  std::vector<std::vector<HOut>> out(s.npc);
  auto oc = run_parties(r, s, cfg, [&](spu::SPUContext* ctx, int rank) { out[rank] = run_hl(ctx, s, p, rank); });
  r.check(!oc.hang, "hang", cat(s.str(), " ", oc.hang_what, " in ", p.str()));
  r.check(oc.all_ok(), "error", cat(s.str(), " ", oc.errors(), " in ", p.str()));
  check_hl(r, s, p, out);
}
SCENARIO(math_semi2k) { run_hl_case(r, {kSemi2k}, {&hl_math()}, 5); }
SCENARIO(math_aby3) { run_hl_case(r, {kAby3}, {&hl_math()}, 5); }
SCENARIO(math_other) { run_hl_case(r, {kCheetah, kSecurenn, kRef2k}, {&hl_math()}, 3); }

SCENARIO(move_semi2k) { run_hl_case(r, {kSemi2k}, {&hl_move()}, 5); }
SCENARIO(move_aby3) { run_hl_case(r, {kAby3}, {&hl_move()}, 5); }
SCENARIO(move_other) { run_hl_case(r, {kCheetah, kSecurenn, kRef2k}, {&hl_move()}, 3); }
