// What one party can see: with everything it knows held fixed and only the other
// parties' unknown randomness varying, nothing it receives may be a function of
// the others' secrets alone.
#include <algorithm>
#include <cstring>

#include "hl.h"
#include "libspu/device/io.h"
#include "libspu/kernel/hal/ring.h"
#include "prog.h"
using namespace h;

namespace {
u128 sra1(u128 v, int k) {
  u128 top = (v >> (k - 1)) & 1;
  return (v >> 1) | (top << (k - 1));
}
struct View {
  std::string shape;   // who, where, how long
  std::string bytes;
  std::vector<size_t> off;  // start of each message
  std::vector<std::string> label;
};
View view_of(int me) {
  std::vector<const sim::MsgRec*> ms;
  for (auto& m : sim::messages()) if (m.dst == me) ms.push_back(&m);
  std::stable_sort(ms.begin(), ms.end(), [](auto* a, auto* b) { return a->ctx < b->ctx; });
  View v;
  for (auto* m : ms) {
    std::string l = cat(m->src, "->", m->dst, " ", m->ctx, " ", m->key, " '", m->tag, "' ", m->size);
    v.shape += l + "\n";
    v.label.push_back(l);
    v.off.push_back(v.bytes.size());
    v.bytes += m->payload;
    while (v.bytes.size() % 8) v.bytes += '\0';  // keep words aligned
  }
  return v;
}
}  // namespace

static std::string shape_diff(const View& a, const View& b) {
  if (std::getenv("VIEW_SHAPES")) fprintf(stderr, "=== A\n%s=== B\n%s", a.shape.c_str(), b.shape.c_str());
  for (size_t i = 0; i < std::min(a.label.size(), b.label.size()); ++i) if (a.label[i] != b.label[i]) return cat("message ", i, ": ", a.label[i], " against ", b.label[i]);
  return cat(a.label.size(), " against ", b.label.size(), " messages");
}
using ViewRun = std::function<Outcome(int world, const sim::Config&)>;
static void judge_view(Run& r, const Spec& s, int me, const std::string& what, const ViewRun& run) {
  auto base = sim_config(r, 0);
  base.entropy_fixed = base.entropy | 1;
  base.fixed_party = me;
  base.record_msgs = base.record_payload = base.record_draws = true;
  base.p_chunk_conc = 0;
  if (s.beaver == 1) base.access_gap = 0;  // requests of concurrent contexts share one recorded channel
  auto one = [&](int world, uint64_t e) {
    auto cfg = base;
    cfg.entropy = sim::mix64(base.entropy_fixed * 77 + e);
    auto oc = run(world, cfg);
    r.check(oc.all_ok(), "error", cat(s.str(), " ", oc.errors(), " in ", what));
    return view_of(me);
  };
  // Which of the others' draws does the adversary get to know?
  {
    base.fixed_draws.clear();
    auto cfg0 = base;
    base.entropy_fixed = 0;  // plain run
    View v = one(0, 0);
    base.entropy_fixed = cfg0.entropy_fixed;
    std::set<uint64_t> words;
    for (size_t i = 0; i + 8 <= v.bytes.size(); i += 8) { uint64_t x; std::memcpy(&x, v.bytes.data() + i, 8); words.insert(x); }
    for (auto& d : sim::draws()) if (d.party != me && words.count(d.value)) base.fixed_draws.insert({d.party, d.idx});
  }
  r.tag("known_draws", base.fixed_draws.size());
  std::vector<std::vector<View>> vs(2);
  const int K = 4;
  uint64_t e = 1;
  for (int i = 0; i < K; ++i) for (int q = 0; q < 2; ++q) vs[q].push_back(one(q, e++));
  const View v0 = vs[0][0];
  for (int q = 0; q < 2; ++q) for (auto& v : vs[q]) r.check(v.shape == v0.shape, "traffic_depends_on_secrets", cat(s.str(), " traffic to party ", me, " changes with randomness or secret values: ", shape_diff(v0, v), " in ", what));
  const size_t n = v0.bytes.size();
  auto where = [&](size_t i) { size_t m = std::upper_bound(v0.off.begin(), v0.off.end(), i) - v0.off.begin() - 1; return cat("byte ", i - v0.off[m], " of message ", v0.label[m]); };
  // 1. constant over the randomness, different over the secrets
  auto cand = [&] {
    std::vector<size_t> c;
    for (size_t i = 0; i < n; ++i) {
      bool k = true;
      for (int q = 0; q < 2 && k; ++q) for (auto& v : vs[q]) if (v.bytes[i] != vs[q][0].bytes[i]) { k = false; break; }
      if (k && vs[0][0].bytes[i] != vs[1][0].bytes[i]) c.push_back(i);
    }
    return c;
  };
  auto c = cand();
  while (!c.empty() && vs[0].size() < 44) {
    for (int i = 0; i < 8; ++i) for (int q = 0; q < 2; ++q) { vs[q].push_back(one(q, e++)); if (vs[q].back().shape != v0.shape) r.fail("traffic_depends_on_secrets", cat(s.str(), " ", shape_diff(v0, vs[q].back()), " in ", what)); }
    c = cand();
  }
  r.evals += n;
  r.tag("view_bytes", n);
  r.check(c.empty(), "secret_in_the_clear", cat(s.str(), " party ", me, ": ", c.empty() ? "" : where(c[0]), " is the same for every randomness of the others and changes with their secrets, in ", what));
  // 2. two words whose difference (or exclusive or) is constant over the randomness, and differs over the secrets
  struct Pair { size_t W; int mode; size_t i, j; };
  std::vector<Pair> pairs;
  auto word = [&](size_t W, int q, size_t j, size_t i) { uint64_t x = 0; std::memcpy(&x, vs[q][j].bytes.data() + i, W); return x; };
  auto sub = [&](size_t W, int mode, uint64_t a, uint64_t b) { uint64_t d = mode ? a ^ b : a - b; return W == 4 ? d & 0xffffffffu : d; };
  for (size_t W : {size_t(4), size_t(8)}) for (int mode = 0; mode < 2; ++mode) {
    std::map<std::vector<uint64_t>, std::vector<size_t>> cls;
    for (size_t i = 0; i + W <= n; i += W) {
      std::vector<uint64_t> key; bool var = false;
      for (int q = 0; q < 2; ++q) for (int j = 1; j < K; ++j) { uint64_t d = sub(W, mode, word(W, q, j, i), word(W, q, 0, i)); key.push_back(d); }
      // words of few random bits coincide by chance
      for (int q = 0; q < 2; ++q) { std::set<uint64_t> hi; for (int j = 0; j < K; ++j) hi.insert(word(W, q, j, i) >> 16); var = var || hi.size() >= 3; }
      if (var) cls[key].push_back(i);
    }
    for (auto& x : cls) for (size_t a = 1; a < x.second.size(); ++a) {
      size_t i = x.second[0], j = x.second[a];
      if (sub(W, mode, word(W, 0, 0, i), word(W, 0, 0, j)) != sub(W, mode, word(W, 1, 0, i), word(W, 1, 0, j))) pairs.push_back({W, mode, i, j});
    }
  }
  // the difference of two well masked words may still have few random bits: look again
  auto constant = [&](const Pair& x) {
    for (int q = 0; q < 2; ++q) for (size_t a = 1; a < vs[q].size(); ++a) if (sub(x.W, x.mode, word(x.W, q, a, x.i), word(x.W, q, a, x.j)) != sub(x.W, x.mode, word(x.W, q, 0, x.i), word(x.W, q, 0, x.j))) return false;
    return true;
  };
  auto keep = [&] { std::vector<Pair> o; for (auto& x : pairs) if (constant(x)) o.push_back(x); pairs = o; };
  keep();
  while (!pairs.empty() && vs[0].size() < 44) {
    for (int i = 0; i < 8; ++i) for (int q = 0; q < 2; ++q) { vs[q].push_back(one(q, e++)); if (vs[q].back().shape != v0.shape) r.fail("traffic_depends_on_secrets", cat(s.str(), " ", shape_diff(v0, vs[q].back()), " in ", what)); }
    keep();
  }
  if (!pairs.empty()) {
    auto& x = pairs[0];
    r.fail("mask_used_twice", cat(s.str(), " party ", me, ": the ", x.mode ? "exclusive or" : "difference", " of ", where(x.i), " and ", where(x.j), " is the same for every randomness of the others and changes with their secrets, in ", what));
  }
}
static void view_case(Run& r, const std::vector<Proto>& protos) {
  Spec s = pick_spec(r, protos);
  ProgOpt o;
  o.big = false; o.max_ops = 5; o.max_numel = 8;
  // masks that repeat after a block show on longer tensors only
  if ((s.proto == kSemi2k || s.proto == kAby3) && r.coin("long_tensors", 0.15)) { o.min_ops = 2; o.max_ops = 3; o.p_long = 0.6; }
  Prog p = gen_prog(r, s, o);
  // The trusted first party of semi2k is a dealer by design: it is not an adversary.
  const int lo = s.proto == kSemi2k && s.beaver == 0 ? 1 : 0;
  const int me = static_cast<int>(r.draw("adversary", lo, s.npc - 1));
  auto g = r.rng("worlds");
  for (auto& op : p.ops) {
    if (op.name == "in" && op.p[0] != 0) {
      op.p[0] = 7;
      if (g.chance(0.8) && op.p[1] == me) op.p[1] = (me + 1) % s.npc;
    }
    if (op.name == "toP") op.name = "toS";
    if (op.name == "mul_1b") op.name = "mul";
    if (op.name == "s2v" && op.p[0] == me) op.p[0] = (me + 1) % s.npc;
  }
  Prog w[2] = {p, p};
  for (auto& op : w[1].ops) {
    if (op.name != "in" || op.p[0] != 7 || op.p[1] == me) continue;
    const size_t n = op.vals.size();
    Ten v = op.vals;
    for (size_t i = 0; i < n; ++i) switch (g.below(4)) { case 0: op.vals[i] = v[(i + 1) % n]; break; case 1: break; default: op.vals[i] = sra1(v[i], s.k()); }
  }
  bool differ = false;
  for (int q = 0; q < 2; ++q) deal_inputs(s, w[q]);
  for (size_t i = 0; i < p.ops.size(); ++i) if (!p.dead[i]) differ = differ || w[0].ops[i].vals != w[1].ops[i].vals;
  if (!differ) throw Discard{};
  r.note = cat(s.str(), " adversary ", me, ": ", p.str().substr(0, 300));
  judge_view(r, s, me, p.str(), [&](int world, const sim::Config& cfg) {
    return run_parties(r, s, cfg, [&](spu::SPUContext* ctx, int rank) {
      ProgRun st;
      exec_prog(ctx, s, w[world], rank, st);
    });
  });
}
// The same for programs over the kernel library.
static void view_hl_case(Run& r, const std::vector<Proto>& protos) {
  Spec s = pick_spec(r, protos);
  hl_config(r, s);
  // these open data on purpose: quick sort the comparisons (after a shuffle)
  if (s.conf.sort_method == spu::RuntimeConfig::SORT_QUICK) s.conf.sort_method = spu::RuntimeConfig::SORT_RADIX;
  HProg p = gen_hl(r, s, {r.coin("move", 0.5) ? &hl_move() : &hl_math()}, 1, 2);
  for (auto& op : p.ops) if (op.name == "topk" || (op.name == "cast" && op.p[1])) throw Discard{};  // quick select opens comparisons too; some casts reveal
  const int lo = s.proto == kSemi2k && s.beaver == 0 ? 1 : 0;
  const int me = static_cast<int>(r.draw("adversary", lo, s.npc - 1));
  auto g = r.rng("worlds");
  HProg w[2] = {p, p};
  bool differ = false;
  // mostly, what the adversary would have provided is somebody else's
  const int moved = g.chance(0.8) ? (me + 1 + static_cast<int>(g.below(s.npc - 1))) % s.npc : -1;
  for (auto& q : w) for (auto& op : q.ops) {
    if (op.name != "in" || op.input.vis == 'p') continue;
    if (op.input.owner < 0) op.input.owner = -2;
    else if (op.input.owner == me && moved >= 0) op.input.owner = moved;
  }
  for (size_t i = 0; i < p.ops.size(); ++i) if (w[0].ops[i].name == "in" && w[0].ops[i].input.owner == -2) {
    int o = static_cast<int>(g.below(s.npc - 1)); o += o >= me;
    for (auto& q : w) q.ops[i].input.owner = o;
  }
  for (int attempt = 0; attempt < 4; ++attempt) {
    differ = false;
    for (size_t i = 0; i < p.ops.size(); ++i) {
      auto& in = w[1].ops[i].input;
      if (p.ops[i].name != "in" || in.vis == 'p' || in.owner == me) continue;
      const auto& v = p.ops[i].input.v;
      auto& u = in.v = v;
      if (attempt >= 2) { if (g.chance(0.7)) std::rotate(u.begin(), u.begin() + 1 % u.size(), u.end()); }  // stays a permutation
      else for (size_t e = 0; e < v.size(); ++e) switch (g.below(4)) {
        case 0: u[e] = v[(e + 1) % v.size()]; break;
        case 1: break;
        default: u[e] = in.cls == 'B' ? i128(g.below(2)) : v[e] >> 1;
      }
      differ = differ || u != v;
    }
    if (differ && hl_in_domain(s, w[1])) break;
    differ = false;
  }
  if (!differ) throw Discard{};
  r.note = cat(s.str(), " adversary ", me, ": ", p.str().substr(0, 300));
  for (auto& op : p.ops) if (op.name != "in") r.tag("view-op:" + op.name);
  judge_view(r, s, me, p.str(), [&](int world, const sim::Config& cfg) {
    return run_parties(r, s, cfg, [&](spu::SPUContext* ctx, int rank) { run_hl(ctx, s, w[world], rank, false); });
  });
}
// What the others provide through the runtime's own input path.
static void view_io_case(Run& r, const std::vector<Proto>& protos) {
  Spec s = pick_spec(r, protos);
  s.conf.experimental_enable_colocated_optimization = r.coin("colocated", 0.5);
  const int lo = s.proto == kSemi2k && s.beaver == 0 ? 1 : 0;
  const int me = static_cast<int>(r.draw("adversary", lo, s.npc - 1));
  auto g = r.rng("vars");
  struct Var { int owner; bool pub, fl; std::vector<int64_t> v[2]; };
  std::vector<Var> vars;
  std::string what;
  const int n = static_cast<int>(g.range(1, 5));
  bool differ = false;
  for (int i = 0; i < n; ++i) {
    Var v;
    v.owner = g.chance(0.8) ? static_cast<int>((me + 1 + g.below(s.npc - 1)) % s.npc) : me;
    v.pub = g.chance(0.15); v.fl = g.chance(0.4);
    const int64_t m = g.range(1, 6);
    for (int64_t e = 0; e < m; ++e) {
      int64_t a = g.range(-100000, 100000);
      v.v[0].push_back(a);
      v.v[1].push_back(v.pub || v.owner == me ? a : g.chance(0.3) ? -a : g.range(-100000, 100000));
    }
    differ = differ || v.v[0] != v.v[1];
    what += cat(" x", i, "<", m, ">@", v.owner, v.pub ? "p" : "s", v.fl ? "f" : "i");
    vars.push_back(v);
  }
  if (!differ) throw Discard{};
  const bool mul = r.coin("mul", 0.5);
  r.note = cat(s.str(), s.conf.experimental_enable_colocated_optimization ? " colocated" : "", " adversary ", me, " inputs", what, mul ? " and a product" : "");
  judge_view(r, s, me, what, [&](int world, const sim::Config& cfg) {
    return run_parties(r, s, cfg, [&](spu::SPUContext* ctx, int rank) {
      spu::device::ColocatedIo io(ctx);
      for (int i = 0; i < n; ++i) if (vars[i].owner == rank) {
        auto& v = vars[i].v[world];
        std::vector<float> fv(v.begin(), v.end()); std::vector<int32_t> iv(v.begin(), v.end());
        for (auto& x : fv) x /= 1024;
        spu::Shape sh{static_cast<int64_t>(v.size())};
        spu::PtBufferView b = vars[i].fl ? spu::PtBufferView(static_cast<const void*>(fv.data()), spu::PT_F32, sh, {1}) : spu::PtBufferView(static_cast<const void*>(iv.data()), spu::PT_I32, sh, {1});
        io.hostSetVar(cat("x", i), b, vars[i].pub ? spu::VIS_PUBLIC : spu::VIS_SECRET);
      }
      io.sync();
      if (!mul) return;
      auto a = io.deviceGetVar("x0");
      spu::kernel::hal::_mul(ctx, a, a);
    });
  });
  r.tag("view:io");
}
SCENARIO(view_hl_semi2k) { view_hl_case(r, {kSemi2k}); }
SCENARIO(view_hl_other) { view_hl_case(r, {kAby3, kAby3, kSecurenn}); }
SCENARIO(view_io) { view_io_case(r, {kSemi2k, kSemi2k, kAby3, kSecurenn, kSwift}); }
SCENARIO(view_semi2k) { view_case(r, {kSemi2k}); }
SCENARIO(view_aby3) { view_case(r, {kAby3}); }
SCENARIO(view_other) { view_case(r, {kSecurenn, kSwift}); }
