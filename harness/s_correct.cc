// Protocol correctness against the plaintext ring, under any schedule.
#include "prog.h"
using namespace h;

static void run_protocol_case(Run& r, const std::vector<Proto>& protos, ProgOpt o) {
  Spec s = pick_spec(r, protos);
  if (s.proto == kCheetah || s.proto == kSecurenn || s.proto == kSwift) { o.max_ops = std::min(o.max_ops, 6); }
  Prog p = gen_prog(r, s, o);
  r.note = cat(s.str(), ": ", p.str().substr(0, 300));
  auto cfg = sim_config(r, 1);
  std::vector<std::vector<RegOut>> out(s.npc);
  auto oc = run_parties(r, s, cfg, [&](spu::SPUContext* ctx, int rank) {
    ProgRun st;
    exec_prog(ctx, s, p, rank, st);
    out[rank] = reveal_all(ctx, p, st);
  });
  r.check(!oc.hang, "hang", cat(s.str(), " ", oc.hang_what, " in ", p.str()));
  r.check(oc.all_ok(), "error", cat(s.str(), " ", oc.errors(), " in ", p.str()));
  check_prog(r, s, p, out);
}
SCENARIO(correct_semi2k) { run_protocol_case(r, {kSemi2k}, {}); }
SCENARIO(correct_aby3) { run_protocol_case(r, {kAby3}, {}); }
SCENARIO(correct_cheetah) { run_protocol_case(r, {kCheetah}, {}); }
SCENARIO(correct_securenn) { run_protocol_case(r, {kSecurenn}, {}); }
// Not selectable through the factory; its arithmetic is the substrate of the tampering property.
SCENARIO(correct_spdz2k) { ProgOpt o; o.boolean = o.cmp = o.perm = o.shapes = o.rnd = false; run_protocol_case(r, {kSpdz2k}, o); }
SCENARIO(correct_swift) { run_protocol_case(r, {kSwift}, {}); }
SCENARIO(correct_ref2k) { run_protocol_case(r, {kRef2k}, {}); }
