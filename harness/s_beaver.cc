// Correlated randomness: every tuple a generator hands out satisfies its relation,
// whoever generates it, whatever happens to the requests.
#include <algorithm>
#include <cstring>
#include <set>
#include <thread>

#include "brpc/channel.h"
#include "brpc/controller.h"
#include "sim/net.h"
#include "sim/rpc.h"
#include "world.h"
#include "yacl/crypto/key_utils.h"
#include "yacl/crypto/pke/sm2_enc.h"
#include "yacl/link/algorithm/barrier.h"

#include "libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.h"
#include "libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.h"
#include "libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.h"
#include "libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/service.pb.h"

namespace spu::mpc::semi2k::beaver::ttp_server { extern int64_t kReplayChunkSize; }
using namespace h;
using namespace spu;
using mpc::semi2k::Beaver;

namespace {
enum Kind { kMul, kMulGf, kMulPriv, kMulPrivGf, kSquare, kAnd, kDot, kTrunc, kTruncPr, kRandBit, kPerm, kEqz, kNumKinds };
const char* kind_name(int k) {
  static const char* n[] = {"mul", "mul_gfmp", "mul_priv", "mul_priv_gfmp", "square", "and", "dot", "trunc", "trunc_pr", "rand_bit", "perm", "eqz"};
  return n[k];
}
struct BOp {
  int kind = kMul;
  FieldType f = FM64;
  int64_t size = 1, m = 1, n = 1, k = 1;
  int64_t bits = 1;
  int perm_rank = 0;
  int xd = -1, yd = -1;          // descriptor slots
  int xs = 1, ys = 1;            // status: 1 init, 2 replay, 3 replay transposed
  std::string str() const {
    std::string s = cat(kind_name(kind), "/FM", f == FM32 ? 32 : f == FM64 ? 64 : 128, "(", kind == kDot ? cat(m, "x", k, "x", n) : cat(size));
    if (kind == kTrunc || kind == kTruncPr) s += cat(" bits ", bits);
    if (kind == kPerm) s += cat(" rank ", perm_rank);
    if (xd >= 0) s += cat(" x", xs == 1 ? "=>" : xs == 2 ? "<=" : "<=T", xd);
    if (yd >= 0) s += cat(" y", ys == 1 ? "=>" : ys == 2 ? "<=" : "<=T", yd);
    return s + ")";
  }
};
struct BOut {
  bool ok = false;
  std::string err;
  std::vector<std::string> arr;  // raw bytes of each array
  std::vector<int64_t> perm;
};
struct Slot { FieldType f; int64_t rows, cols; bool gf; };  // rows*cols elements

int bitsof(FieldType f) { return f == FM32 ? 32 : f == FM64 ? 64 : 128; }
u128 mask_of(FieldType f) { return f == FM128 ? ~u128(0) : ((u128(1) << bitsof(f)) - 1); }
u128 prime_of(FieldType f) { return f == FM32 ? (u128(1) << 31) - 1 : f == FM64 ? (u128(1) << 61) - 1 : (u128(1) << 127) - 1; }
u128 mulmod(u128 a, u128 b, u128 p) {
  u128 r = 0; a %= p; b %= p;
  while (b) { if (b & 1) { r += a; if (r >= p) r -= p; } a += a; if (a >= p) a -= p; b >>= 1; }
  return r;
}
std::string bytes_of(const yacl::Buffer& b) { return std::string(b.data<char>(), b.size()); }
Ten words(const std::string& s, FieldType f) {
  size_t e = SizeOf(f); Ten o(s.size() / e);
  for (size_t i = 0; i < o.size(); ++i) { u128 x = 0; std::memcpy(&x, s.data() + i * e, e); o[i] = x; }
  return o;
}

std::vector<BOp> gen_ops(Run& r, const std::string& px, int npc, std::vector<Slot>& slots, int lo, int hi, bool replays, bool perm = true) {
  std::vector<BOp> ops;
  int n = static_cast<int>(r.draw(px + "n_ops", lo, hi));
  for (int i = 0; i < n; ++i) {
    auto g = r.rng(cat(px, "op", i));
    BOp o;
    o.kind = static_cast<int>(g.below(kNumKinds));
    if ((o.kind == kMulPriv || o.kind == kMulPrivGf) && npc != 2) o.kind = kMul;
    if (o.kind == kPerm && !perm) o.kind = kDot;
    o.f = std::vector<FieldType>{FM64, FM32, FM128}[g.below(3)];
    o.size = g.chance(0.15) ? g.range(40, 300) : g.range(1, 12);
    if (o.kind == kAnd) o.size = g.range(1, g.chance(0.2) ? 700 : 70);
    o.m = g.range(1, 5); o.n = g.range(1, 5); o.k = g.range(1, 5);
    o.bits = g.range(0, bitsof(o.f) - 2);
    if (o.kind == kTrunc && g.chance(0.1)) o.bits = bitsof(o.f) - 1;
    o.perm_rank = static_cast<int>(g.below(npc));
    if (replays && (o.kind == kMul || o.kind == kMulGf || o.kind == kSquare || o.kind == kDot)) {
      auto place = [&](int which, int& slot, int& st) {
        if (!g.chance(0.55)) return;
        std::vector<int> fit;
        if (g.chance(0.7)) for (size_t q = 0; q < slots.size(); ++q) if (slots[q].gf == (o.kind == kMulGf)) fit.push_back(static_cast<int>(q));
        if (!fit.empty()) {
          slot = g.pick(fit);
          auto& s = slots[slot];
          // The other operand may already fix the field and a dimension.
          if (o.xd >= 0 && which == 1 && s.f != o.f) { slot = -1; return; }
          o.f = s.f;
          st = 2;
          if (o.kind == kDot) {
            int64_t R = s.rows, C = s.cols;
            if (g.chance(0.5)) { st = 3; std::swap(R, C); }
            if (which == 0) { o.m = R; o.k = C; }
            else { if (o.xd >= 0 && R != o.k) { slot = -1; st = 1; return; } o.k = R; o.n = C; }
          } else {
            if (which == 1 && o.xd >= 0 && s.rows * s.cols != o.size) { slot = -1; st = 1; return; }
            o.size = s.rows * s.cols;
          }
          return;
        }
        slot = -2; st = 1;  // created below, once the sizes are final
      };
      place(0, o.xd, o.xs);
      if (o.kind != kSquare) place(1, o.yd, o.ys);
      auto mk = [&](int& slot, int64_t R, int64_t C) { if (slot == -2) { slot = static_cast<int>(slots.size()); slots.push_back({o.f, R, C, o.kind == kMulGf}); } };
      if (o.kind == kDot) { mk(o.xd, o.m, o.k); mk(o.yd, o.k, o.n); } else { mk(o.xd, 1, o.size); mk(o.yd, 1, o.size); }
    }
    // always draw the same, whether skipped or not
    if (r.skipped(static_cast<int>(r.n_ops))) {
      // a skipped operation which created a descriptor takes its users with it: they are dropped below
      o.kind = -1;
    }
    ops.push_back(o);
  }
  std::set<int> made;
  for (auto& o : ops) {
    if (o.kind < 0) continue;
    bool bad = (o.xd >= 0 && o.xs != 1 && !made.count(o.xd)) || (o.yd >= 0 && o.ys != 1 && !made.count(o.yd));
    if (bad) { o.kind = -1; continue; }
    if (o.xd >= 0 && o.xs == 1) made.insert(o.xd);
    if (o.yd >= 0 && o.ys == 1) made.insert(o.yd);
  }
  return ops;
}

BOut do_op(Beaver* b, const BOp& o, std::map<int, Beaver::ReplayDesc>& descs) {
  BOut out;
  Beaver::ReplayDesc *x = nullptr, *y = nullptr;
  if (o.xd >= 0) { x = &descs[o.xd]; x->status = static_cast<Beaver::ReplayStatus>(o.xs); }
  Beaver::ReplayDesc copy;
  if (o.yd >= 0) {
    if (o.yd == o.xd) { copy = descs[o.yd]; y = &copy; } else y = &descs[o.yd];
    y->status = static_cast<Beaver::ReplayStatus>(o.ys);
  }
  auto put3 = [&](const Beaver::Triple& t) { out.arr = {bytes_of(std::get<0>(t)), bytes_of(std::get<1>(t)), bytes_of(std::get<2>(t))}; };
  auto put2 = [&](const Beaver::Pair& t) { out.arr = {bytes_of(t.first), bytes_of(t.second)}; };
  switch (o.kind) {
    case kMul: put3(b->Mul(o.f, o.size, x, y)); break;
    case kMulGf: put3(b->Mul(o.f, o.size, x, y, mpc::ElementType::kGfmp)); break;
    case kMulPriv: put2(b->MulPriv(o.f, o.size)); break;
    case kMulPrivGf: put2(b->MulPriv(o.f, o.size, mpc::ElementType::kGfmp)); break;
    case kSquare: put2(b->Square(o.f, o.size, x)); break;
    case kAnd: put3(b->And(o.size)); break;
    case kDot: put3(b->Dot(o.f, o.m, o.n, o.k, x, y)); break;
    case kTrunc: put2(b->Trunc(o.f, o.size, o.bits)); break;
    case kTruncPr: put3(b->TruncPr(o.f, o.size, o.bits)); break;
    case kRandBit: out.arr = {bytes_of(b->RandBit(o.f, o.size))}; break;
    case kPerm: {
      auto t = b->PermPair(o.f, o.size, o.perm_rank);
      out.arr = {bytes_of(std::get<0>(t)), bytes_of(std::get<1>(t))};
      auto& p = std::get<2>(t);
      out.perm.assign(p.begin(), p.end());
      break;
    }
    case kEqz: put2(b->Eqz(o.f, o.size)); break;
    default: return out;
  }
  out.ok = true;
  return out;
}

struct Known { std::map<int, std::vector<Ten>> share; };  // slot -> per party, first use

// Checks one tuple over all parties' outputs.
void check_tuple(Run& r, const std::string& who, const BOp& o, const std::vector<const BOut*>& outs, const std::vector<Slot>& slots, Known& kn) {
  const int np = static_cast<int>(outs.size());
  const int K = bitsof(o.f);
  const u128 M = mask_of(o.f), P = prime_of(o.f);
  const bool gf = o.kind == kMulGf || o.kind == kMulPrivGf;
  std::string id = cat(who, " ", o.str());
  const size_t want_arrays = o.kind == kMul || o.kind == kMulGf || o.kind == kAnd || o.kind == kDot || o.kind == kTruncPr ? 3 : o.kind == kRandBit ? 1 : 2;
  std::vector<std::vector<Ten>> sh(want_arrays, std::vector<Ten>(np));
  for (int i = 0; i < np; ++i) {
    r.check(outs[i]->arr.size() == want_arrays, "tuple_shape", id);
    for (size_t a = 0; a < want_arrays; ++a) {
      int64_t want = o.kind == kDot ? (a == 0 ? o.m * o.k : a == 1 ? o.k * o.n : o.m * o.n) * static_cast<int64_t>(SizeOf(o.f)) : o.kind == kAnd ? o.size : o.size * static_cast<int64_t>(SizeOf(o.f));
      r.check(static_cast<int64_t>(outs[i]->arr[a].size()) == want, "tuple_size", cat(id, " array ", a, " of party ", i, " has ", outs[i]->arr[a].size(), " bytes, not ", want));
      if (o.kind == kAnd) { for (unsigned char c : outs[i]->arr[a]) sh[a][i].push_back(c); }
      else sh[a][i] = words(outs[i]->arr[a], o.f);
      if (gf) for (auto v : sh[a][i]) r.check(v < P, "tuple_range", cat(id, " share ", u128s(v), " is not reduced"));
    }
  }
  auto sum = [&](size_t a, bool x = false) {
    Ten t(sh[a][0].size(), 0);
    for (int i = 0; i < np; ++i) for (size_t j = 0; j < t.size(); ++j) { if (x) t[j] ^= sh[a][i][j]; else if (gf) t[j] = (t[j] + sh[a][i][j]) % P; else t[j] = (t[j] + sh[a][i][j]) & M; }
    return t;
  };
  auto eq = [&](const Ten& got, const Ten& want, const char* rel) {
    for (size_t j = 0; j < want.size(); ++j) r.check(got[j] == want[j], "tuple_wrong", cat(id, ": ", rel, " fails at element ", j, ": ", u128s(got[j]), " instead of ", u128s(want[j])));
  };
  auto sra = [&](u128 v, int64_t b) { if (!b) return v; bool s = (v >> (K - 1)) & 1; u128 t = v >> b; if (s) t |= M & ~(M >> b); return t; };
  switch (o.kind) {
    case kMul: case kMulGf: {
      auto a = sum(0), b = sum(1), c = sum(2); Ten w(a.size());
      for (size_t j = 0; j < w.size(); ++j) w[j] = gf ? mulmod(a[j], b[j], P) : (a[j] * b[j]) & M;
      eq(c, w, "c = a * b"); break;
    }
    case kMulPriv: case kMulPrivGf: {
      auto c = sum(1); Ten w(c.size());
      for (size_t j = 0; j < w.size(); ++j) w[j] = gf ? mulmod(sh[0][0][j], sh[0][1][j], P) : (sh[0][0][j] * sh[0][1][j]) & M;
      eq(c, w, "c = a * b"); break;
    }
    case kSquare: { auto a = sum(0), b = sum(1); Ten w(a.size()); for (size_t j = 0; j < w.size(); ++j) w[j] = (a[j] * a[j]) & M; eq(b, w, "b = a * a"); break; }
    case kAnd: { auto a = sum(0, true), b = sum(1, true), c = sum(2, true); Ten w(a.size()); for (size_t j = 0; j < w.size(); ++j) w[j] = a[j] & b[j]; eq(c, w, "c = a & b"); break; }
    case kDot: {
      auto a = sum(0), b = sum(1), c = sum(2); Ten w(c.size(), 0);
      for (int64_t i = 0; i < o.m; ++i) for (int64_t j = 0; j < o.n; ++j) for (int64_t l = 0; l < o.k; ++l) w[i * o.n + j] = (w[i * o.n + j] + a[i * o.k + l] * b[l * o.n + j]) & M;
      eq(c, w, "c = a . b"); break;
    }
    case kTrunc: { auto a = sum(0), b = sum(1); Ten w(a.size()); for (size_t j = 0; j < w.size(); ++j) w[j] = sra(a[j], o.bits); eq(b, w, "b = a >> bits"); break; }
    case kTruncPr: {
      auto a = sum(0), b = sum(1), c = sum(2); Ten w(a.size()), z(a.size());
      for (size_t j = 0; j < w.size(); ++j) { w[j] = ((a[j] << 1) & M) >> (o.bits + 1); z[j] = a[j] >> (K - 1); }
      eq(b, w, "rc = (r << 1) >> (bits + 1)"); eq(c, z, "rb = msb(r)"); break;
    }
    case kRandBit: { auto a = sum(0); for (auto v : a) r.check(v < 2, "tuple_wrong", cat(id, ": not a bit: ", u128s(v))); break; }
    case kEqz: { eq(sum(0), sum(1, true), "arithmetic sum = exclusive or"); break; }
    case kPerm: {
      auto a = sum(0), b = sum(1);
      for (int i = 0; i < np; ++i) r.check((i == o.perm_rank) == !outs[i]->perm.empty(), "tuple_perm", cat(id, ": party ", i, i == o.perm_rank ? " has no permutation" : " has a permutation"));
      auto& p = outs[o.perm_rank]->perm;
      r.check(static_cast<int64_t>(p.size()) == o.size, "tuple_perm", cat(id, ": permutation of ", p.size()));
      std::vector<int> seen(o.size, 0);
      for (auto v : p) { r.check(v >= 0 && v < o.size && !seen[v], "tuple_perm", cat(id, ": not a permutation")); seen[v] = 1; }
      Ten w(a.size());
      for (size_t j = 0; j < p.size(); ++j) w[p[j]] = a[j];
      eq(b, w, "B = inverse permutation of A"); break;
    }
  }
  // replays give the mask they were asked for
  auto replay = [&](int slot, int st, size_t a, int64_t R, int64_t C) {
    if (slot < 0) return;
    std::vector<Ten> cur(np);
    for (int i = 0; i < np; ++i) cur[i] = sh[a][i];
    if (st == 1) { kn.share[slot] = cur; return; }
    auto it = kn.share.find(slot);
    if (it == kn.share.end()) return;
    r.tag("replays");
    for (int i = 0; i < np; ++i) for (int64_t x = 0; x < R; ++x) for (int64_t y = 0; y < C; ++y) {
      u128 want = st == 3 ? it->second[i][y * R + x] : it->second[i][x * C + y];
      r.check(cur[i][x * C + y] == want, "replay_differs", cat(id, ": replayed mask of party ", i, " differs from the one it replays"));
    }
  };
  if (o.kind == kDot) { replay(o.xd, o.xs, 0, o.m, o.k); replay(o.yd, o.ys, 1, o.k, o.n); }
  else if (o.kind == kMul || o.kind == kMulGf || o.kind == kSquare) { replay(o.xd, o.xs, 0, 1, o.size); replay(o.yd, o.ys, 1, 1, o.size); }
  (void)slots;
  r.tag(cat("tuple:", kind_name(o.kind)));
}

// 64-bit words of fresh shares never repeat (a repetition would be a reused pad).
struct Fresh {
  std::map<uint64_t, std::string> seen;
  void add(Run& r, const std::string& id, const std::string& bytes, int party) {
    for (size_t i = 0; i + 8 <= bytes.size(); i += 8) {
      uint64_t w; std::memcpy(&w, bytes.data() + i, 8);
      std::string me = cat(id, " party ", party, " byte ", i);
      auto [it, fresh] = seen.emplace(w, me);
      r.check(fresh, "pad_reused", cat("the same random word is handed out twice: ", it->second, " and ", me));
    }
  }
};
void check_fresh(Run& r, Fresh& f, const std::string& who, const BOp& o, const std::vector<const BOut*>& outs) {
  if (o.f == FM32 && o.kind != kAnd) return;
  if (o.kind == kMulGf || o.kind == kMulPrivGf) return;
  for (size_t i = 0; i < outs.size(); ++i) for (size_t a = 0; a < outs[i]->arr.size(); ++a) {
    if (a == 0 && o.xs != 1) continue;
    if (a == 1 && o.ys != 1 && o.kind != kSquare) continue;
    f.add(r, cat(who, " ", o.str(), " array ", a), outs[i]->arr[a], static_cast<int>(i));
  }
}

struct Ttp {
  std::unique_ptr<brpc::Server> server;
  mpc::semi2k::BeaverTtp::Options opt;
  std::string pub;
  void start(size_t adjust_rank) {
    sim::rpc_faults().server_party = 90;
    auto kp = yacl::crypto::GenSm2KeyPairToPemBuf();
    mpc::semi2k::beaver::ttp_server::ServerOptions o;
    o.asym_crypto_schema = "sm2"; o.server_private_key = kp.second; o.port = 7001;
    server = mpc::semi2k::beaver::ttp_server::RunServer(o);
    pub.assign(kp.first.data<char>(), kp.first.size());
    opt.server_host = "127.0.0.1:7001";
    opt.asym_crypto_schema = "SM2";
    opt.server_public_key = kp.first;
    opt.adjust_rank = adjust_rank;
  }
};
Ttp* g_ttp = nullptr;

std::unique_ptr<Beaver> make_beaver(int kind, const std::shared_ptr<yacl::link::Context>& l) {
  if (kind == 0) return std::make_unique<mpc::semi2k::BeaverTfpUnsafe>(l);
  return std::make_unique<mpc::semi2k::BeaverTtp>(l, g_ttp->opt);
}
std::string ops_str(const std::vector<BOp>& ops) { std::string s; for (auto& o : ops) if (o.kind >= 0) s += (s.empty() ? "" : "; ") + o.str(); return s; }
}  // namespace

SCENARIO(beaver_tuples) {
  const int npc = static_cast<int>(r.pick("npc", {2, 2, 3, 5}));
  const int kind = static_cast<int>(r.draw("ttp", 0, 1));
  const size_t adjust = static_cast<size_t>(r.draw("adjust_rank", 0, npc - 1));
  mpc::semi2k::beaver::ttp_server::kReplayChunkSize = r.pick("ttp_chunk", {32L << 20, 32L << 20, 128, 256, 1024});
  const int nsub = static_cast<int>(r.pick("spawned", {0, 0, 1, 2, 3}));
  std::vector<Slot> slots;
  std::vector<std::vector<BOp>> progs;
  progs.push_back(gen_ops(r, "m_", npc, slots, 1, 7, true));
  for (int i = 0; i < nsub; ++i) {
    // children may replay what the parent created before they started
    auto s2 = slots;
    progs.push_back(gen_ops(r, cat("s", i, "_"), npc, s2, 1, 5, true));
    for (auto& o : progs.back()) { if (o.xd >= static_cast<int>(slots.size()) && o.xd >= 0) o.xd += 1000 * (i + 1); if (o.yd >= static_cast<int>(slots.size()) && o.yd >= 0) o.yd += 1000 * (i + 1); }
  }
  auto tail = gen_ops(r, "t_", npc, slots, 0, 4, false);
  r.note = cat(kind ? "ttp" : "tfp", " ", npc, " parties, adjust rank ", adjust, ": ", ops_str(progs[0]).substr(0, 250));
  r.tag(cat("generator:", kind ? "ttp" : "tfp", "/", npc));
  auto cfg = sim_config(r, 1);
  std::vector<std::vector<std::vector<BOut>>> out(progs.size() + 1, std::vector<std::vector<BOut>>(npc));
  Ttp ttp; g_ttp = &ttp;
  auto oc = run_links(r, npc, cfg, [&](const std::shared_ptr<yacl::link::Context>& l, int rank) {
    auto b = make_beaver(kind, l);
    std::map<int, Beaver::ReplayDesc> descs;
    for (auto& o : progs[0]) out[0][rank].push_back(do_op(b.get(), o, descs));
    std::vector<std::unique_ptr<Beaver>> sub;
    for (int i = 0; i < nsub; ++i) sub.push_back(b->Spawn());
    std::vector<std::thread> th;
    std::vector<std::exception_ptr> err(nsub);
    for (int i = 0; i < nsub; ++i) th.emplace_back([&, i] {
      try {
        std::map<int, Beaver::ReplayDesc> mine = descs;
        for (auto& o : progs[i + 1]) out[i + 1][rank].push_back(do_op(sub[i].get(), o, mine));
      } catch (...) { err[i] = std::current_exception(); }
    });
    std::map<int, Beaver::ReplayDesc> none;
    std::exception_ptr me;
    try { for (auto& o : tail) out.back()[rank].push_back(do_op(b.get(), o, none)); } catch (...) { me = std::current_exception(); }
    for (auto& t : th) t.join();
    if (me) std::rethrow_exception(me);
    for (auto& e : err) if (e) std::rethrow_exception(e);
  }, [&] { if (kind) ttp.start(adjust); });
  ttp.server.reset(); g_ttp = nullptr;
  r.check(sim::rpc_misuse().empty(), "use_after_destroy", cat(sim::rpc_misuse(), ": ", r.note));
  r.check(!oc.hang, "hang", cat(r.note, " ", oc.hang_what));
  r.check(oc.all_ok(), "error", cat(r.note, " ", oc.errors()));
  Known kn;
  Fresh fresh;
  for (size_t p = 0; p < out.size(); ++p) {
    auto& ops = p < progs.size() ? progs[p] : tail;
    Known own = kn;
    for (size_t i = 0; i < ops.size(); ++i) {
      if (ops[i].kind < 0) continue;
      std::vector<const BOut*> os;
      for (int q = 0; q < npc; ++q) os.push_back(&out[p][q][i]);
      std::string who = cat(kind ? "ttp" : "tfp", " ", npc, " parties ", p == 0 ? "parent" : p < progs.size() ? cat("child ", p) : "parent again", " #", i);
      check_tuple(r, who, ops[i], os, slots, p == 0 ? kn : own);
      check_fresh(r, fresh, who, ops[i], os);
    }
  }
}

// ---- requests under network and server faults -------------------------------
SCENARIO(beaver_rpc) {
  const int npc = static_cast<int>(r.pick("npc", {2, 3}));
  const size_t adjust = static_cast<size_t>(r.draw("adjust_rank", 0, npc - 1));
  mpc::semi2k::beaver::ttp_server::kReplayChunkSize = r.pick("ttp_chunk", {32L << 20, 128, 256, 1024});
  std::vector<Slot> slots;
  auto ops = gen_ops(r, "m_", npc, slots, 2, 8, false, false);
  auto last = gen_ops(r, "l_", npc, slots, 1, 3, false, true);
  const int fk = static_cast<int>(r.draw("rpc_fault", 0, 4));
  auto g = r.rng("rpc");
  r.note = cat("ttp ", npc, " parties, adjust rank ", adjust, " fault ", fk, ": ", ops_str(ops).substr(0, 250));
  auto cfg = sim_config(r, 1);
  cfg.recv_timeout_ms = 3 * 3600 * 1000;
  std::vector<std::vector<BOut>> out(npc), fin(npc);
  const double p = 0.1 + 0.5 * g.unit();
  const int64_t crash_after = g.chance(0.5) ? g.range(0, 200) : g.range(0, 5000);
  const bool restart = g.chance(0.6);
  Ttp ttp; g_ttp = &ttp;
  uint64_t errors = 0;
  auto oc = run_links(r, npc, cfg, [&](const std::shared_ptr<yacl::link::Context>& l, int rank) {
    auto b = make_beaver(1, l);
    std::map<int, Beaver::ReplayDesc> none;
    for (auto& o : ops) {
      BOut x;
      try { x = do_op(b.get(), o, none); } catch (const std::exception& e) { x.err = e.what(); ++errors; }
      out[rank].push_back(x);
    }
    // faults are over: the service recovers
    yacl::link::Barrier(l, "over");
    auto& f = sim::rpc_faults();
    f.p_refuse = f.p_cut_stream = f.p_write_fail = f.p_lost_response = 0; f.crash_server_after_bytes = -1;
    if (!sim::rpc_server_up()) sim::rpc_restart_server();
    yacl::link::Barrier(l, "again");
    for (auto& o : last) fin[rank].push_back(do_op(b.get(), o, none));
  }, [&] {
    ttp.start(adjust);
    auto& f = sim::rpc_faults();
    if (fk == 0) f.p_refuse = p;
    if (fk == 1) f.p_cut_stream = p;
    if (fk == 2) f.p_write_fail = p * 0.5;
    if (fk == 3) f.p_lost_response = p;
    if (fk == 4) { f.crash_server_after_bytes = crash_after; if (restart) sim::at(1 + g.below(2000000), [] { if (!sim::rpc_server_up()) sim::rpc_restart_server(); }); }
  });
  ttp.server.reset(); g_ttp = nullptr;
  r.check(sim::rpc_misuse().empty(), "use_after_destroy", cat(sim::rpc_misuse(), ": ", r.note));
  r.check(!oc.hang, "hang", cat(r.note, " ", oc.hang_what));
  r.check(oc.all_ok(), "error", cat("after the faults ended: ", r.note, " ", oc.errors()));
  Known kn; Fresh fresh;
  for (int ph = 0; ph < 2; ++ph) {
    auto& ol = ph ? last : ops;
    for (size_t i = 0; i < ol.size(); ++i) {
      if (ol[i].kind < 0) continue;
      bool ok = true;
      std::vector<const BOut*> os;
      for (int q = 0; q < npc; ++q) { os.push_back(&(ph ? fin : out)[q][i]); ok = ok && os.back()->ok; }
      for (int q = 0; q < npc; ++q) if (q != static_cast<int>(adjust)) r.check(os[q]->ok, "error_elsewhere", cat(r.note, ": party ", q, ", which sends no request, failed: ", os[q]->err));
      if (!ok) { r.tag("request_failed"); continue; }
      std::string who = cat("ttp under faults #", i);
      check_tuple(r, who, ol[i], os, slots, kn);
      check_fresh(r, fresh, who, ol[i], os);
      r.tag(ph ? "after_faults" : errors ? "after_an_error" : "request_ok");
    }
  }
}

// ---- malformed requests -------------------------------------------------------
namespace {
namespace ts = mpc::semi2k::beaver::ttp_server;
struct Collect : brpc::ProgressiveReader {
  std::string all; bool end = false; butil::Status st; sim::WaitQ w;
  butil::Status OnReadOnePart(const void* d, size_t n) override { all.append(static_cast<const char*>(d), n); return butil::Status::OK(); }
  void OnEndOfMessage(const butil::Status& s) override { st = s; end = true; sim::wake_all(w); }
  void wait() { while (!end) sim::block(w, 0, "collect"); }
};
struct Parsed { bool framed = true; int err = 0; std::string msg, data; };
Parsed parse(const std::string& s) {
  Parsed p; size_t i = 0;
  while (i < s.size()) {
    if (s.size() - i < 9) { p.framed = false; return p; }
    int64_t n; std::memcpy(&n, s.data() + i + 1, 8);
    int flag = static_cast<unsigned char>(s[i]); i += 9;
    if (n < 0 || static_cast<size_t>(n) > s.size() - i) { p.framed = false; return p; }
    if (flag) { p.err = flag; p.msg.assign(s, i, n); } else p.data.append(s, i, n);
    i += n;
  }
  return p;
}
struct Req {
  int op = 0;  // index into kinds below
  int nin = 3;
  std::vector<uint64_t> count, len;
  std::vector<std::vector<std::string>> seeds;
  uint32_t field_size = 8;
  uint64_t m = 1, n = 1, k = 1;
  std::vector<bool> transpose;
  uint32_t bits = 0;
  int el = 0;
  int64_t perm_size = 0; std::string perm_seed; uint64_t perm_count = 0;
  bool has_perm = true;
};
template <class T> void fill(const Req& q, T& t) {
  for (int i = 0; i < q.nin; ++i) {
    auto* x = t.add_prg_inputs();
    x->set_prg_count(q.count[i]); x->set_buffer_len(q.len[i]);
    for (auto& s : q.seeds[i]) x->add_encrypted_seeds(s);
  }
}
std::string send(brpc::Channel& ch, const Req& q, std::string* failed) {
  ts::BeaverService::Stub stub(&ch);
  ts::AdjustResponse rsp;
  brpc::Controller c;
  c.response_will_be_read_progressively();
  switch (q.op) {
    case 0: { ts::AdjustMulRequest t; fill(q, t); t.set_field_size(q.field_size); t.set_element_type(static_cast<ts::ElType>(q.el)); stub.AdjustMul(&c, &t, &rsp, nullptr); break; }
    case 1: { ts::AdjustMulPrivRequest t; fill(q, t); t.set_field_size(q.field_size); t.set_element_type(static_cast<ts::ElType>(q.el)); stub.AdjustMulPriv(&c, &t, &rsp, nullptr); break; }
    case 2: { ts::AdjustSquareRequest t; fill(q, t); t.set_field_size(q.field_size); stub.AdjustSquare(&c, &t, &rsp, nullptr); break; }
    case 3: { ts::AdjustDotRequest t; fill(q, t); t.set_field_size(q.field_size); t.set_m(q.m); t.set_n(q.n); t.set_k(q.k); for (bool b : q.transpose) t.add_transpose_inputs(b); stub.AdjustDot(&c, &t, &rsp, nullptr); break; }
    case 4: { ts::AdjustAndRequest t; fill(q, t); stub.AdjustAnd(&c, &t, &rsp, nullptr); break; }
    case 5: { ts::AdjustTruncRequest t; fill(q, t); t.set_field_size(q.field_size); t.set_bits(q.bits); stub.AdjustTrunc(&c, &t, &rsp, nullptr); break; }
    case 6: { ts::AdjustTruncPrRequest t; fill(q, t); t.set_field_size(q.field_size); t.set_bits(q.bits); stub.AdjustTruncPr(&c, &t, &rsp, nullptr); break; }
    case 7: { ts::AdjustRandBitRequest t; fill(q, t); t.set_field_size(q.field_size); stub.AdjustRandBit(&c, &t, &rsp, nullptr); break; }
    case 8: { ts::AdjustEqzRequest t; fill(q, t); t.set_field_size(q.field_size); stub.AdjustEqz(&c, &t, &rsp, nullptr); break; }
    default: {
      ts::AdjustPermRequest t; fill(q, t); t.set_field_size(q.field_size);
      if (q.has_perm) { auto* p = t.mutable_perm(); p->set_prg_count(q.perm_count); p->set_size(q.perm_size); p->set_encrypted_seeds(q.perm_seed); }
      stub.AdjustPerm(&c, &t, &rsp, nullptr); break;
    }
  }
  if (c.Failed()) { *failed = c.ErrorText(); return ""; }
  Collect rd;
  c.ReadProgressiveAttachmentBy(&rd);
  rd.wait();
  if (!rd.st.ok()) *failed = rd.st.error_str();
  return rd.all;
}
}  // namespace

SCENARIO(beaver_server) {
  mpc::semi2k::beaver::ttp_server::kReplayChunkSize = r.pick("ttp_chunk", {32L << 20, 128, 256, 1024});
  const int clients = static_cast<int>(r.draw("clients", 1, 3));
  auto cfg = sim_config(r, 0);
  Ttp ttp; g_ttp = &ttp;
  static const int kIn[] = {3, 2, 2, 3, 3, 2, 3, 1, 2, 2};
  static const char* kName[] = {"mul", "mul_priv", "square", "dot", "and", "trunc", "trunc_pr", "rand_bit", "eqz", "perm"};
  struct Sent { std::string what; bool valid = false; std::string reply, failed; uint64_t want_bytes = 0; };
  std::vector<std::vector<Sent>> sent(clients);
  // a well-behaved group of parties uses the same server meanwhile
  std::vector<Slot> slots;
  auto ops = gen_ops(r, "good_", 2, slots, 1, 4, false, true);
  std::vector<std::vector<BOut>> good(2);
  const int per = static_cast<int>(r.draw("requests", 1, 5));
  std::string escaped;
  auto oc = run_links(r, 2, cfg, [&](const std::shared_ptr<yacl::link::Context>& l, int rank) {
    auto b = make_beaver(1, l);
    std::map<int, Beaver::ReplayDesc> none;
    std::vector<std::thread> th;
    if (rank == 0) for (int c = 0; c < clients; ++c) th.emplace_back([&, c] {
      brpc::Channel ch; brpc::ChannelOptions co; co.protocol = "http"; co.timeout_ms = 300000; co.max_retry = 0;
      ch.Init("127.0.0.1:7001", &co);
      yacl::crypto::Sm2Encryptor enc(ttp.opt.server_public_key);
      for (int i = 0; i < per; ++i) {
        auto g = r.rng(cat("c", c, "_", i));
        if (r.skipped(100 * (c + 1) + i)) continue;
        Req q;
        q.op = static_cast<int>(g.below(10)); q.nin = kIn[q.op];
        q.field_size = q.op == 4 ? 16 : 4u << g.below(3);
        const int world = static_cast<int>(g.range(1, 4));
        const uint64_t num = g.range(1, 40);
        q.m = g.range(1, 4); q.n = g.range(1, 4); q.k = g.range(1, 4);
        auto seal = [&] { uint64_t s[2] = {g.next(), g.next()}; auto v = enc.Encrypt({reinterpret_cast<const void*>(s), 16}); return std::string(v.begin(), v.end()); };
        std::vector<std::string> base; for (int w = 0; w < world; ++w) base.push_back(seal());
        for (int j = 0; j < q.nin; ++j) {
          q.count.push_back(g.below(1000)); q.seeds.push_back(base);
          q.len.push_back(q.op == 3 ? (j == 0 ? q.m * q.k : j == 1 ? q.k * q.n : q.m * q.n) * q.field_size : num * q.field_size);
        }
        q.transpose = {false, false, false};
        if (q.op == 3) { q.transpose[0] = g.chance(0.3); q.transpose[1] = g.chance(0.3); }
        q.bits = static_cast<uint32_t>(g.below(q.field_size * 8 - 1));
        q.perm_size = num; q.perm_seed = base[0]; q.perm_count = g.below(100);
        q.el = (q.op == 0 || q.op == 1) && g.chance(0.3) ? 2 : 0;
        Sent s; s.what = kName[q.op]; s.valid = true;
        s.want_bytes = q.op == 3 ? q.len[2] : q.op == 6 ? 2 * q.len[0] : q.len[0];
        // break one thing
        switch (g.below(15)) {
          case 0: q.nin = static_cast<int>(g.below(q.nin)); s.valid = false; s.what += cat(" with ", q.nin, " inputs"); break;
          case 1: q.count.push_back(1); q.seeds.push_back(base); q.len.push_back(q.len[0]); ++q.nin; s.valid = false; s.what += " with one input too many"; break;
          case 2: { int j = static_cast<int>(g.below(q.nin)); for (auto& x : q.seeds[j]) x = "not a sealed seed"; s.valid = false; s.what += " with seeds that are not encrypted"; break; }
          case 3: { int j = static_cast<int>(g.below(q.nin)); q.seeds[j].pop_back(); s.valid = q.nin == 1 && world > 1; s.what += " with fewer seeds for one input"; break; }
          case 4: { int j = static_cast<int>(g.below(q.nin)); if (q.nin > 1 || true) q.seeds[j].push_back(base[0]); s.valid = q.nin == 1; s.what += " with more seeds for one input"; break; }
          case 5: for (auto& x : q.seeds) x.clear(); s.valid = false; s.what += " without seeds"; break;
          case 6: if (q.op != 4) { q.field_size = std::vector<uint32_t>{0, 1, 2, 3, 5, 12, 32}[g.below(7)]; s.valid = false; s.what += cat(" with field size ", q.field_size); } break;
          case 7: { int j = static_cast<int>(g.below(q.nin)); q.len[j] = 0; s.valid = false; s.what += " with an empty input"; break; }
          case 8: { int j = static_cast<int>(g.below(q.nin)); q.len[j] += q.field_size; s.valid = q.nin == 1; s.want_bytes += q.nin == 1 ? q.field_size : 0; s.what += " with one longer input"; break; }
          case 9: if (q.op != 4) { int j = static_cast<int>(g.below(q.nin)); q.len[j] += 1; s.valid = false; s.what += " with a length that is no multiple of the field"; } break;
          case 10: if (q.op == 3) { q.transpose.resize(g.below(3)); s.valid = false; s.what += cat(" with ", q.transpose.size(), " transpose flags"); } break;
          case 11: if (q.op == 3) { switch (g.below(3)) { case 0: q.m = 0; break; case 1: q.k += 1; break; default: q.n = 1ull << 63; } s.valid = false; s.what += " with wrong dimensions"; } break;
          case 12: if (q.op == 9) { switch (g.below(4)) { case 0: q.perm_size += 1; s.what += " with a larger permutation"; break; case 1: q.perm_size = 0; s.what += " with an empty permutation"; break; case 2: q.perm_size -= 1; s.what += " with a smaller permutation"; break; default: q.perm_size = -5; s.what += " with a negative permutation"; } s.valid = false; } break;
          case 13: if (q.op == 9) { if (g.chance(0.5)) { q.has_perm = false; s.what += " without permutation"; } else { q.perm_seed = "junk"; s.what += " with a junk permutation seed"; } s.valid = false; } break;
          default: break;
        }
        s.reply = send(ch, q, &s.failed);
        sent[c].push_back(s);
      }
    });
    std::exception_ptr me;
    try { for (auto& o : ops) good[rank].push_back(do_op(b.get(), o, none)); } catch (...) { me = std::current_exception(); }
    for (auto& t : th) t.join();
    if (me) std::rethrow_exception(me);
  }, [&] { ttp.start(1); });
  ttp.server.reset(); g_ttp = nullptr;
  escaped = sim::rpc_server_escaped();
  std::string all;
  for (auto& c : sent) for (auto& s : c) all += s.what + "; ";
  r.note = all.substr(0, 300);
  r.check(escaped.empty(), "server_dies", cat("an exception leaves the request handler, which ends the server: ", escaped, " after ", all));
  r.check(!oc.hang, "hang", cat(oc.hang_what, " after ", all));
  r.check(oc.all_ok(), "error", cat("of well-behaved parties: ", oc.errors(), " after ", all));
  for (auto& c : sent) for (auto& s : c) {
    auto p = parse(s.reply);
    r.check(s.failed.empty(), "transport", cat(s.what, ": ", s.failed));
    r.check(p.framed, "malformed_reply", cat(s.what, ": reply is not a sequence of frames"));
    if (s.valid) {
      r.check(p.err == 0, "valid_request_refused", cat(s.what, ": ", p.msg));
      r.check(p.data.size() == s.want_bytes, "reply_size", cat(s.what, ": ", p.data.size(), " bytes instead of ", s.want_bytes));
      r.tag("valid_request");
    } else {
      r.check(p.err != 0, "invalid_request_accepted", cat(s.what, ": answered with ", p.data.size(), " bytes and no error"));
      r.tag("refused");
    }
  }
  Known kn;
  for (size_t i = 0; i < ops.size(); ++i) {
    if (ops[i].kind < 0) continue;
    check_tuple(r, cat("beside broken clients #", i), ops[i], {&good[0][i], &good[1][i]}, slots, kn);
  }
}
