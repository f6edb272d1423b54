// Collective exchanges over a link, and the traffic an operation declares.
#include <algorithm>
#include <cmath>
#include <cstring>
#include <thread>

#include "libspu/core/config.h"
#include "libspu/core/ndarray_ref.h"
#include "libspu/mpc/ab_api.h"
#include "libspu/mpc/api.h"
#include "libspu/mpc/common/communicator.h"
#include "libspu/mpc/common/pv2k.h"
#include "libspu/mpc/kernel.h"
#include "world.h"
using namespace h;
using namespace spu;
using mpc::Communicator;
using mpc::ReduceOp;

namespace {
u128 prime_of(FieldType f) { return f == FM32 ? (u128(1) << 31) - 1 : f == FM64 ? (u128(1) << 61) - 1 : (u128(1) << 127) - 1; }
u128 mask_of(FieldType f) { return f == FM128 ? ~u128(0) : f == FM64 ? u128(~uint64_t(0)) : u128(~uint32_t(0)); }

enum CK { cAllReduce, cReduce, cGather, cBcast, cRotate, cP2P, cSpanAll, cSpanBcast, cSpanGather, cSpanRotate, cSpanP2P, cNum };
const char* ck_name(int k) {
  static const char* n[] = {"allReduce", "reduce", "gather", "broadcast", "rotate", "send/recv", "allReduce<T>", "bcast<T>", "gather<T>", "rotate<T>", "send/recv<T>"};
  return n[k];
}
struct COp {
  int kind = 0, root = 0, dst = 1, es = 8, view = 0;
  bool gf = false, xr = false;
  FieldType f = FM64;
  std::vector<int64_t> shape;
  std::vector<Ten> val;  // per party
  int64_t numel() const { int64_t n = 1; for (auto d : shape) n *= d; return n; }
  int64_t bytes() const { return numel() * (kind >= cSpanAll ? es : f == FM32 ? 4 : f == FM64 ? 8 : 16); }
  std::string str() const { return cat(ck_name(kind), gf ? "/GF" : kind >= cSpanAll ? cat("/", es * 8) : f == FM32 ? "/FM32" : f == FM64 ? "/FM64" : "/FM128", xr ? " xor" : "", " root ", root, " dst ", dst, " view ", view, " n ", numel()); }
};
Ten apply(const COp& o, int rank, int n) {  // what `rank` must get
  const u128 m = o.kind >= cSpanAll ? (o.es == 16 ? ~u128(0) : (u128(1) << (8 * o.es)) - 1) : mask_of(o.f);
  switch (o.kind) {
    case cAllReduce: case cReduce: case cSpanAll: {
      if (o.kind == cReduce && rank != o.root) return {};
      Ten t(o.numel(), 0);
      for (int p = 0; p < n; ++p) for (size_t i = 0; i < t.size(); ++i) {
        if (o.xr) t[i] ^= o.val[p][i];
        else if (o.gf) { const u128 q = prime_of(o.f); t[i] = t[i] >= q - o.val[p][i] ? t[i] - (q - o.val[p][i]) : t[i] + o.val[p][i]; }
        else t[i] = (t[i] + o.val[p][i]) & m;
      }
      return t;
    }
    case cGather: case cSpanGather: { if (rank != o.root) return {}; Ten t; for (int p = 0; p < n; ++p) t.insert(t.end(), o.val[p].begin(), o.val[p].end()); return t; }
    case cBcast: case cSpanBcast: return o.val[o.root];
    case cRotate: case cSpanRotate: return o.val[(rank + 1) % n];
    default: return rank == o.dst ? o.val[o.root] : Ten{};
  }
}
// (latency, bytes) the counters must move by
std::pair<size_t, size_t> price(const COp& o, int n) {
  switch (o.kind) {
    case cAllReduce: case cSpanAll: return {1, o.bytes() * (n - 1)};
    case cP2P: case cSpanP2P: return {0, 0};
    default: return {1, static_cast<size_t>(o.bytes())};
  }
}
NdArrayRef viewed(const COp& o, const Type& ty, const Ten& v) {
  if (o.view == 0 || o.shape.empty()) return ring_array(o.f, ty, o.shape, v);
  if (o.view == 1) {  // every second element of a longer array
    auto sh = o.shape; sh.back() *= 2;
    Ten w(v.size() * 2, 0x5a);
    for (size_t i = 0; i < v.size(); ++i) w[2 * i] = v[i];
    auto a = ring_array(o.f, ty, sh, w);
    Index st(sh.size(), 0), en(sh.begin(), sh.end()); Strides sd(sh.size(), 1); sd.back() = 2;
    return a.slice(st, en, sd);
  }
  // transposed
  std::vector<int64_t> sh(o.shape.rbegin(), o.shape.rend());
  Ten w(v.size());
  if (sh.size() < 2) return ring_array(o.f, ty, o.shape, v);
  const int64_t R = o.shape[0], C = o.shape[1];
  for (int64_t i = 0; i < R; ++i) for (int64_t j = 0; j < C; ++j) w[j * R + i] = v[i * C + j];
  return ring_array(o.f, ty, sh, w).transpose();
}
template <typename T> std::vector<T> to_t(const Ten& v) { std::vector<T> r; for (auto x : v) r.push_back(static_cast<T>(x)); return r; }
template <typename T> Ten from_t(const std::vector<T>& v) { Ten r; for (auto x : v) r.push_back(static_cast<u128>(x)); return r; }
template <typename T> Ten span_op(Communicator* c, const COp& o, int rank) {
  auto v = to_t<T>(o.val[rank]);
  absl::Span<const T> s(v);
  switch (o.kind) {
    case cSpanAll: return from_t(o.xr ? c->allReduce<T, std::bit_xor>(s, "t") : c->allReduce<T, std::plus>(s, "t"));
    case cSpanBcast: return from_t(c->bcast<T>(s, o.root, "t"));
    case cSpanRotate: return from_t(c->rotate<T>(s, "t"));
    case cSpanGather: { Ten r; for (auto& x : c->gather<T>(s, o.root, "t")) { auto y = from_t(x); r.insert(r.end(), y.begin(), y.end()); } return rank == o.root ? r : Ten{}; }
    default:
      if (rank == o.root) c->sendAsync<T>(o.dst, s, "t");
      if (rank == o.dst) return from_t(c->recv<T>(o.root, "t"));
      return {};
  }
}
Ten run_cop(Communicator* c, const COp& o, int rank) {
  if (o.kind >= cSpanAll) switch (o.es) {
    case 1: return span_op<uint8_t>(c, o, rank);
    case 4: return span_op<uint32_t>(c, o, rank);
    case 8: return span_op<uint64_t>(c, o, rank);
    default: return span_op<uint128_t>(c, o, rank);
  }
  Type ty = o.gf ? makeType<GfmpTy>(o.f) : makeType<RingTy>(o.f);
  auto in = viewed(o, ty, o.val[rank]);
  const Ten before = ring_values(in);
  Ten res;
  auto shaped = [&](const NdArrayRef& a) {
    SPU_ENFORCE(a.eltype() == ty && std::vector<int64_t>(a.shape().begin(), a.shape().end()) == o.shape, "result of {} has another type or shape", ck_name(o.kind));
    return ring_values(a);
  };
  switch (o.kind) {
    case cAllReduce: res = shaped(c->allReduce(o.xr ? ReduceOp::XOR : ReduceOp::ADD, in, "t")); break;
    case cReduce: { auto a = c->reduce(o.xr ? ReduceOp::XOR : ReduceOp::ADD, in, o.root, "t"); if (rank == o.root) res = shaped(a); break; }
    case cGather: { auto v = c->gather(in, o.root, "t"); if (rank == o.root) for (auto& a : v) { auto y = shaped(a); res.insert(res.end(), y.begin(), y.end()); } break; }
    case cBcast: res = shaped(c->broadcast(in, o.root, ty, Shape(o.shape.begin(), o.shape.end()), "t")); break;
    case cRotate: res = shaped(c->rotate(in, "t")); break;
    default:
      if (rank == o.root) c->sendAsync(o.dst, in, "t");
      if (rank == o.dst) { auto a = c->recv(o.root, ty, "t"); SPU_ENFORCE(a.eltype() == ty && a.numel() == o.numel(), "received another amount"); res = ring_values(a); }
  }
  SPU_ENFORCE(ring_values(in) == before, "{} changes its argument", ck_name(o.kind));
  return res;
}
COp gen_cop(sim::Rng& g, int n) {
  COp o;
  o.kind = static_cast<int>(g.below(cNum));
  o.f = g.pick(std::vector<FieldType>{FM32, FM64, FM128});
  o.es = static_cast<int>(g.pick(std::vector<int64_t>{8, 4, 16, 1}));
  o.root = static_cast<int>(g.below(n));
  o.dst = static_cast<int>((o.root + 1 + g.below(n - 1)) % n);
  const bool span = o.kind >= cSpanAll, red = o.kind == cAllReduce || o.kind == cReduce || o.kind == cSpanAll;
  o.xr = red && g.chance(0.4);
  o.gf = !span && !o.xr && g.chance(0.25);
  const int nd = span ? 1 : static_cast<int>(g.pick(std::vector<int64_t>{1, 2, 2, 3}));
  for (int i = 0; i < nd; ++i) o.shape.push_back(g.pick(std::vector<int64_t>{1, 2, 3, 5, 7}));
  if (g.chance(0.05)) o.shape[0] = 300;
  o.view = span ? 0 : static_cast<int>(g.below(nd == 2 ? 3 : 2));
  const u128 m = span ? (o.es == 16 ? ~u128(0) : (u128(1) << (8 * o.es)) - 1) : mask_of(o.f);
  for (int p = 0; p < n; ++p) {
    Ten t;
    for (int64_t i = 0; i < o.numel(); ++i) {
      u128 v = g.chance(0.2) ? (g.chance(0.5) ? m : u128(0)) : ((u128(g.next()) << 64) | g.next()) & m;
      if (o.gf) v = g.chance(0.2) ? prime_of(o.f) - 1 : v % prime_of(o.f);
      t.push_back(v);
    }
    o.val.push_back(t);
  }
  return o;
}
}  // namespace

SCENARIO(collectives) {
  const int n = static_cast<int>(r.pick("npc", {2, 3, 4, 5}));
  const int lanes = static_cast<int>(r.draw("lanes", 1, 3));
  std::vector<std::vector<COp>> ops(lanes);
  auto g = r.rng("ops");
  std::string what;
  for (int l = 0; l < lanes; ++l) {
    const int k = static_cast<int>(r.draw(cat("ops", l), 1, 6));
    for (int i = 0; i < k; ++i) { ops[l].push_back(gen_cop(g, n)); what += cat(l ? " |" : " ", ops[l].back().str(), ";"); r.tag(cat("coll:", ck_name(ops[l].back().kind))); }
  }
  r.note = cat(n, " parties:", what.substr(0, 400));
  auto cfg = sim_config(r, 1);
  std::vector<std::vector<std::vector<Ten>>> got(n, std::vector<std::vector<Ten>>(lanes));
  std::vector<std::vector<std::vector<std::pair<size_t, size_t>>>> cost(n, std::vector<std::vector<std::pair<size_t, size_t>>>(lanes));
  auto oc = run_links(r, n, cfg, [&](const std::shared_ptr<yacl::link::Context>& lctx, int rank) {
    Communicator base(lctx);
    std::vector<std::unique_ptr<State>> kids;
    for (int l = 1; l < lanes; ++l) kids.push_back(base.fork());
    auto lane = [&](int l) {
      auto* c = l ? dynamic_cast<Communicator*>(kids[l - 1].get()) : &base;
      for (auto& o : ops[l]) {
        auto a = c->getStats();
        got[rank][l].push_back(run_cop(c, o, rank));
        auto d = c->getStats() - a;
        cost[rank][l].push_back({d.latency, d.comm});
      }
    };
    std::vector<std::thread> th; std::vector<std::string> err(lanes);
    for (int l = 1; l < lanes; ++l) th.emplace_back([&, l] { try { lane(l); } catch (const std::exception& e) { err[l] = e.what(); } });
    try { lane(0); } catch (const std::exception& e) { err[0] = e.what(); }
    for (auto& t : th) t.join();
    for (auto& e : err) if (!e.empty()) throw std::runtime_error(e);
  });
  r.check(oc.all_ok() && !oc.hang, oc.hang ? "hang" : "error", cat(r.note, " ", oc.errors(), " ", oc.hang_what));
  for (int p = 0; p < n; ++p) for (int l = 0; l < lanes; ++l) for (size_t i = 0; i < ops[l].size(); ++i) {
    auto& o = ops[l][i];
    r.check(got[p][l][i] == apply(o, p, n), "wrong_result", cat("party ", p, " of ", n, " lane ", l, ": ", o.str(), " gives ", ten_str(got[p][l][i]), " instead of ", ten_str(apply(o, p, n))));
    r.check(cost[p][l][i] == price(o, n), "wrong_count", cat("party ", p, " of ", n, ": ", o.str(), " counts ", cost[p][l][i].first, " rounds and ", cost[p][l][i].second, " bytes instead of ", price(o, n).first, " and ", price(o, n).second));
  }
}

// ---- declared cost of kernels -------------------------------------------------
namespace {
struct KOp { std::string name; int a, b; };  // operand classes: 0 none, 1 A, 2 B, 3 P, 4 V, 5 bit B, 6 bit V
const std::vector<KOp>& kops() {
  static const std::vector<KOp> v{
      {"add_aa", 1, 1}, {"mul_aa", 1, 1}, {"add_ap", 1, 3}, {"mul_ap", 1, 3}, {"square_a", 1, 0}, {"negate_a", 1, 0},
      {"mul_a1b", 1, 5}, {"mul_av", 1, 4}, {"mul_a1bv", 1, 6}, {"mmul_ap", 1, 3}, {"mmul_aa", 1, 1}, {"mmul_av", 1, 4},
      {"lshift_a", 1, 0}, {"trunc_a", 1, 0}, {"p2a", 3, 0}, {"a2p", 1, 0}, {"and_bb", 2, 2}, {"xor_bb", 2, 2}, {"and_bp", 2, 3},
      {"xor_bp", 2, 3}, {"lshift_b", 2, 0}, {"rshift_b", 2, 0}, {"arshift_b", 2, 0}, {"p2b", 3, 0}, {"b2p", 2, 0}, {"bitrev_b", 2, 0},
      {"a2b", 1, 0}, {"b2a", 2, 0}, {"msb_a2b", 1, 0}, {"equal_aa", 1, 1}, {"equal_ap", 1, 3}};
  return v;
}
}  // namespace
static void cost_case(Run& r, const std::vector<Proto>& protos) {
  Spec s = pick_spec(r, protos);
  // what is declared is the cost of the plain evaluation: no splitting over threads, packed openings
  s.conf.experimental_enable_intra_op_par = false;
  s.conf.experimental_disable_mmul_split = true;
  s.conf.experimental_disable_vectorization = false;
  auto g = r.rng("cost");
  auto cfg = sim_config(r, 1);
  const int nops = static_cast<int>(r.draw("ops", 1, 5));
  struct One { KOp k; std::vector<int64_t> sa, sb; int64_t p = 0; bool done = false, fixed = false; size_t lat = 0, comm = 0, dlat = 0, dcomm = 0; float tol = 0; };
  std::vector<One> ops;
  for (int i = 0; i < nops; ++i) {
    One o;
    o.k = kops()[g.below(kops().size())];
    if (o.k.name.rfind("mmul", 0) == 0) {
      int64_t m = g.range(1, 5), k = g.range(1, 6), n = g.range(1, 5);
      o.sa = {m, k}; o.sb = {k, n};
    } else {
      const int64_t big = s.proto == kCheetah ? 40 : 1;
      o.sa = g.chance(0.5) ? std::vector<int64_t>{g.range(1, 9) * big} : std::vector<int64_t>{g.range(1, 6), g.range(1, 6) * big};
      o.sb = o.sa;
    }
    o.p = g.range(1, s.k() - 2);
    ops.push_back(o);
  }
  std::vector<std::vector<One>> res(s.npc, ops);
  auto vg = r.rng("values").next();
  auto oc = run_parties(r, s, cfg, [&](SPUContext* ctx, int rank) {
    sim::Rng q(vg);
    auto operand = [&](int cls, const std::vector<int64_t>& sh) {
      Ten t; int64_t n = 1; for (auto d : sh) n *= d;
      for (int64_t i = 0; i < n; ++i) t.push_back(((u128(q.next()) << 64) | q.next()) & (cls == 5 || cls == 6 ? 1 : s.mask() >> 2));
      auto p = make_pub(s, sh, t);
      switch (cls) {
        case 1: return mpc::p2a(ctx, p);
        case 2: return mpc::p2b(ctx, p);
        case 4: case 6: return mpc::p2v(ctx, p, static_cast<int>(q.below(s.npc)));
        case 5: { auto b = mpc::p2b(ctx, p); const_cast<Type&>(b.storage_type()).as<BShare>()->setNbits(1); return b; }
        default: return p;
      }
    };
    for (auto& o : res[rank]) {
      auto* prot = ctx->prot();
      if (!prot->hasKernel(o.k.name)) continue;
      auto* kn = prot->getKernel(o.k.name);
      Value a = operand(o.k.a, o.sa), b;
      if (o.k.b) b = operand(o.k.b, o.sb);
      auto* c = prot->getState<Communicator>();
      auto before = c->getStats();
      const auto& nm = o.k.name;
      const Sizes sh{o.p};
      if (nm == "add_aa") mpc::add_aa(ctx, a, b); else if (nm == "mul_aa") mpc::mul_aa(ctx, a, b); else if (nm == "add_ap") mpc::add_ap(ctx, a, b);
      else if (nm == "mul_ap") mpc::mul_ap(ctx, a, b); else if (nm == "square_a") mpc::square_a(ctx, a); else if (nm == "negate_a") mpc::negate_a(ctx, a);
      else if (nm == "mul_a1b") mpc::mul_a1b(ctx, a, b); else if (nm == "mul_av") mpc::mul_av(ctx, a, b); else if (nm == "mul_a1bv") mpc::mul_a1bv(ctx, a, b);
      else if (nm == "mmul_ap") mpc::mmul_ap(ctx, a, b); else if (nm == "mmul_aa") mpc::mmul_aa(ctx, a, b); else if (nm == "mmul_av") mpc::mmul_av(ctx, a, b);
      else if (nm == "lshift_a") mpc::lshift_a(ctx, a, sh); else if (nm == "trunc_a") mpc::trunc_a(ctx, a, o.p, SignType::Unknown); else if (nm == "p2a") mpc::p2a(ctx, a);
      else if (nm == "a2p") mpc::a2p(ctx, a); else if (nm == "and_bb") mpc::and_bb(ctx, a, b); else if (nm == "xor_bb") mpc::xor_bb(ctx, a, b);
      else if (nm == "and_bp") mpc::and_bp(ctx, a, b); else if (nm == "xor_bp") mpc::xor_bp(ctx, a, b); else if (nm == "lshift_b") mpc::lshift_b(ctx, a, sh);
      else if (nm == "rshift_b") mpc::rshift_b(ctx, a, sh); else if (nm == "arshift_b") mpc::arshift_b(ctx, a, sh); else if (nm == "p2b") mpc::p2b(ctx, a);
      else if (nm == "b2p") mpc::b2p(ctx, a); else if (nm == "bitrev_b") mpc::bitrev_b(ctx, a, 0, o.p); else if (nm == "a2b") mpc::a2b(ctx, a);
      else if (nm == "b2a") mpc::b2a(ctx, a); else if (nm == "msb_a2b") mpc::msb_a2b(ctx, a); else if (nm == "equal_aa") mpc::equal_aa(ctx, a, b);
      else mpc::equal_ap(ctx, a, b);
      auto d = c->getStats() - before;
      o.done = true; o.lat = d.latency; o.comm = d.comm * 8;
      o.fixed = kn->kind() == Kernel::Kind::Static && kn->comm() && kn->latency();
      if (!o.fixed) continue;
      ce::Params pr{{"K", static_cast<size_t>(s.k())}, {"N", static_cast<size_t>(s.npc)}};
      size_t rep = 1;
      if (nm.rfind("mmul", 0) == 0) { pr["m"] = o.sa[0]; pr["k"] = o.sa[1]; pr["n"] = o.sb[1]; }
      else for (auto x : o.sa) rep *= x;
      o.dlat = kn->latency()->eval(pr); o.dcomm = kn->comm()->eval(pr) * rep; o.tol = kn->getCommTolerance();
    }
  });
  std::string all; for (auto& o : ops) all += cat(o.k.name, " ");
  r.check(oc.all_ok() && !oc.hang, "error", cat(s.str(), " ", oc.errors(), " in ", all));
  for (int p = 0; p < s.npc; ++p) for (auto& o : res[p]) {
    if (!o.done) continue;
    r.tag(cat(o.fixed ? "cost:" : "cost-dynamic:", proto_name(s.proto), ":", o.k.name));
    if (!o.fixed) continue;
    int64_t n = 1; for (auto x : o.sa) n *= x;
    const double diff = o.dcomm == 0 ? static_cast<double>(o.comm) : std::fabs(static_cast<double>(o.comm) - static_cast<double>(o.dcomm)) / o.dcomm;
    r.check(o.lat == o.dlat, "latency", cat(s.str(), " party ", p, ": ", o.k.name, " on ", n, " elements takes ", o.lat, " rounds, declares ", o.dlat));
    r.check(o.comm >= o.dcomm && diff <= o.tol + 1e-6, "comm", cat(s.str(), " party ", p, ": ", o.k.name, " on ", n, " elements (bits ", o.p, ") sends ", o.comm, " bits, declares ", o.dcomm, " tolerance ", o.tol));
  }
}
SCENARIO(cost_semi2k) { cost_case(r, {kSemi2k}); }
SCENARIO(cost_aby3) { cost_case(r, {kAby3}); }
SCENARIO(cost_other) { cost_case(r, {kSecurenn, kSwift, kCheetah}); }
