// The cache of opened multiplication operands: it may fail, it never changes a result.
#include <thread>

#include "prog.h"
#include "sim/disk.h"
#include "sim/net.h"
#include "libspu/core/type_util.h"
#include "libspu/mpc/ab_api.h"
#include "libspu/mpc/api.h"
#include "libspu/mpc/semi2k/beaver/beaver_cache.h"
#include "libspu/mpc/semi2k/type.h"
#include "libspu/mpc/utils/ring_ops.h"
using namespace h;
using namespace spu;

// Random programs whose operands are cached, on a failing disk.
SCENARIO(cache_faults) {
  Spec s = pick_spec(r, {kSemi2k});
  ProgOpt o;
  o.only = {"cache", "cache", "cache", "mul", "mul", "mul", "mmul", "mmul", "square", "transpose", "slice", "reshape", "add", "reverse", "broadcast", "concat"};
  o.max_ops = 12; o.min_ops = 4; o.privates = false;
  Prog p = gen_prog(r, s, o);
  auto g = r.rng("disk");
  r.note = cat(s.str(), ": ", p.str().substr(0, 300));
  auto cfg = sim_config(r, 1);
  const int fk = static_cast<int>(r.draw("disk_fault", 0, 5));
  if (fk) cfg.recv_timeout_ms = 30000;
  const int who = static_cast<int>(r.draw("disk_party", -1, s.npc - 1));
  const double pr = 0.05 + 0.6 * g.unit();
  const int64_t full = g.range(0, 400);
  std::vector<std::vector<RegOut>> out(s.npc, std::vector<RegOut>(p.ops.size()));
  auto oc = run_parties(r, s, cfg, [&](SPUContext* ctx, int rank) {
    ProgRun st;
    exec_prog(ctx, s, p, rank, st);
    st.regs.resize(p.ops.size());
    for (size_t i = 0; i < p.ops.size(); ++i) out[rank][i] = reveal_reg(ctx, st.regs[i]);
  }, [&] {
    auto& d = sim::disk_faults();
    d.party = who;
    if (fk == 1) d.p_open_fail = pr;
    if (fk == 2) d.p_put_fail = pr;
    if (fk == 3) d.p_get_fail = pr;
    if (fk == 4) d.p_del_fail = pr;
    if (fk == 5) d.full_after_bytes = full;
  });
  r.check(!oc.hang, "hang", cat(s.str(), " ", oc.hang_what, " in ", p.str()));
  const bool fired = r.faults.count("disk_open_error") || r.faults.count("disk_write_error") || r.faults.count("disk_read_error") || r.faults.count("disk_full");
  if (fk == 0) r.check(oc.all_ok(), "error", cat("without a disk fault: ", s.str(), " ", oc.errors(), " in ", p.str()));
  for (int q = 0; q < s.npc; ++q) {
    r.check(oc.party[q].done, "unfinished", cat(s.str(), " party ", q, " neither finished nor failed in ", p.str()));
    if (!oc.party[q].error.empty()) r.tag("fault_surfaced_as_error");
    check_prog(r, s, p, {out[q]}, cat("with disk faults, party ", q, ": "));
  }
  if (!oc.all_ok()) return;
  r.tag(fired ? "fault_without_effect" : "fault_free");
}

// One cached tensor, used by several contexts at the same time.
static void cache_forks_case(Run& r, bool warm) {
  Spec s = pick_spec(r, {kSemi2k});
  const int n = static_cast<int>(r.draw("forks", 2, 4));
  const int ops = static_cast<int>(r.draw("ops", 1, 4));
  auto g = r.rng("data");
  const int64_t a = warm && g.chance(0.5) ? g.range(n, n + 2) : g.range(1, 4), b = g.range(1, 4);
  const std::vector<int64_t> sx{a, b};
  auto rnd = [&](int64_t m) { Ten t(m); for (auto& v : t) v = ((u128(g.next()) << 64) | g.next()) & s.mask(); return t; };
  const Ten x = rnd(a * b);
  struct Step { int op; Ten y; int64_t c; };
  std::vector<std::vector<Step>> steps(n);
  for (auto& f : steps) for (int i = 0; i < ops; ++i) { Step t; t.op = static_cast<int>(g.below(!warm ? 4 : a >= n ? 6 : 5)); t.c = g.range(1, 3); t.y = rnd(t.op == 5 ? b : t.op == 2 ? b * t.c : t.op == 3 ? a * t.c : a * b); f.push_back(t); }
  r.note = cat(s.str(), " ", n, " contexts on one cached ", a, "x", b, " tensor", warm ? ", warm" : "");
  auto cfg = sim_config(r, 1);
  std::vector<std::vector<std::vector<Ten>>> out(n, std::vector<std::vector<Ten>>(s.npc));
  auto oc = run_parties(r, s, cfg, [&](SPUContext* ctx, int rank) {
    auto X = mpc::p2s(ctx, make_pub(s, sx, x));
    dynDispatch<Value>(ctx, "beaver_cache", X, true);
    if (warm) mpc::mul_ss(ctx, X, X);
    std::vector<std::unique_ptr<SPUContext>> sub;
    for (int i = 0; i < n; ++i) sub.push_back(ctx->fork());
    std::vector<std::thread> th;
    std::vector<std::exception_ptr> err(n);
    for (int i = 0; i < n; ++i) th.emplace_back([&, i] {
      try {
        auto* c = sub[i].get();
        for (auto& t : steps[i]) {
          Value z;
          if (t.op == 0) z = mpc::mul_ss(c, X, mpc::p2s(c, make_pub(s, sx, t.y)));
          if (t.op == 1) z = mpc::mul_ss(c, mpc::p2s(c, make_pub(s, sx, t.y)), X);
          if (t.op == 2) z = mpc::mmul_ss(c, X, mpc::p2s(c, make_pub(s, {b, t.c}, t.y)));
          if (t.op == 3) z = mpc::mmul_ss(c, mpc::p2s(c, make_pub(s, {t.c, a}, t.y)), X);
          if (t.op == 4) {  // a cached tensor of its own
            auto Y = mpc::p2s(c, make_pub(s, sx, t.y));
            dynDispatch<Value>(c, "beaver_cache", Y, true);
            z = mpc::mul_ss(c, Y, Y);
            z = mpc::mul_ss(c, X, Y);
            dynDispatch<Value>(c, "beaver_cache", Y, false);
          }
          if (t.op == 5) {  // a part of the common tensor that no other context uses
            Value xi(X.data().slice({i, 0}, {i + 1, b}, {1, 1}), X.dtype());
            z = mpc::mul_ss(c, xi, mpc::p2s(c, make_pub(s, {1, b}, t.y)));
          }
          out[i][rank].push_back(ring_values(mpc::s2p(c, z).data()));
        }
      } catch (...) { err[i] = std::current_exception(); }
    });
    for (auto& t : th) t.join();
    for (auto& e : err) if (e) std::rethrow_exception(e);
    dynDispatch<Value>(ctx, "beaver_cache", X, false);
  });
  r.check(!oc.hang, "hang", cat(r.note, " ", oc.hang_what));
  r.check(oc.all_ok(), "error", cat(r.note, " ", oc.errors()));
  for (int i = 0; i < n; ++i) for (int q = 0; q < s.npc; ++q) for (int k = 0; k < ops; ++k) {
    auto& t = steps[i][k];
    Ten w;
    if (t.op == 5) for (int64_t j = 0; j < b; ++j) w.push_back((x[i * b + j] * t.y[j]) & s.mask());
    if (t.op < 2 || t.op == 4) for (size_t j = 0; j < x.size(); ++j) w.push_back((x[j] * t.y[j]) & s.mask());
    if (t.op == 2) { w.assign(a * t.c, 0); for (int64_t u = 0; u < a; ++u) for (int64_t v = 0; v < t.c; ++v) for (int64_t l = 0; l < b; ++l) w[u * t.c + v] = (w[u * t.c + v] + x[u * b + l] * t.y[l * t.c + v]) & s.mask(); }
    if (t.op == 3) { w.assign(t.c * b, 0); for (int64_t u = 0; u < t.c; ++u) for (int64_t v = 0; v < b; ++v) for (int64_t l = 0; l < a; ++l) w[u * b + v] = (w[u * b + v] + t.y[u * a + l] * x[l * b + v]) & s.mask(); }
    r.check(out[i][q][k] == w, "wrong", cat(r.note, " context ", i, " step ", k, " party ", q, ": ", ten_str(out[i][q][k]), " instead of ", ten_str(w)));
  }
}

SCENARIO(cache_forks) { cache_forks_case(r, true); }
SCENARIO(cache_forks_cold) { cache_forks_case(r, false); }

// One cached tensor used through many views (sub-blocks, strided selections, transposes, the same buffer under other shapes).
SCENARIO(cache_views) {
  Spec s = pick_spec(r, {kSemi2k});
  auto g = r.rng("data");
  const int64_t R = g.range(2, 5), C = g.range(2, 5);
  const u128 M = s.mask();
  auto rnd = [&](int64_t m) { Ten t(m); for (auto& v : t) v = ((u128(g.next()) << 64) | g.next()) & M; return t; };
  struct View { std::vector<int64_t> st, en, sd, shape; bool T = false; std::vector<int64_t> at; };  // at: position in the base tensor of every element
  auto view = [&] {
    View v;
    for (int64_t d : {R, C}) {
      int64_t a = g.chance(0.6) ? 0 : g.range(0, d - 1), b = g.range(a + 1, d), q = g.range(1, 3);
      v.st.push_back(a); v.en.push_back(b); v.sd.push_back(q); v.shape.push_back((b - a + q - 1) / q);
    }
    v.T = g.chance(0.3);
    if (v.T) std::swap(v.shape[0], v.shape[1]);
    for (int64_t i = 0; i < v.shape[0]; ++i) for (int64_t j = 0; j < v.shape[1]; ++j) { int64_t a = v.T ? j : i, b = v.T ? i : j; v.at.push_back((v.st[0] + a * v.sd[0]) * C + v.st[1] + b * v.sd[1]); }
    return v;
  };
  std::vector<View> vs;
  for (int i = static_cast<int>(g.range(2, 5)); i > 0; --i) vs.push_back(view());
  // views of the same extent that start alike are the ones most easily taken for each other
  if (g.chance(0.6)) {
    View a; a.st = {0, 0}; a.sd = {1, 1}; a.en = {(R + 1) / 2, (C + 1) / 2}; a.shape = a.en;
    View b = a; b.sd = {2, 2}; b.en = {R, C};
    for (View* v : {&a, &b}) for (int64_t i = 0; i < v->shape[0]; ++i) for (int64_t j = 0; j < v->shape[1]; ++j) v->at.push_back(i * v->sd[0] * C + j * v->sd[1]);
    vs.push_back(a); vs.push_back(b);
  }
  struct Step { int op, v, w; int64_t c; Ten y; };
  std::vector<Step> steps;
  const int n = static_cast<int>(r.draw("steps", 3, 14));
  for (int i = 0; i < n; ++i) {
    Step t; t.op = static_cast<int>(g.below(9)); t.v = static_cast<int>(g.below(vs.size())); t.w = t.v; t.c = g.range(1, 3);
    const auto& sh = vs[t.v].shape;
    if (t.op == 4) { std::vector<int> c; for (size_t q = 0; q < vs.size(); ++q) if (vs[q].shape == sh) c.push_back(static_cast<int>(q)); t.w = g.pick(c); }
    if (t.op == 5) { std::vector<int> c; for (size_t q = 0; q < vs.size(); ++q) if (vs[q].shape[0] == sh[1]) c.push_back(static_cast<int>(q)); if (c.empty()) t.op = 0; else t.w = g.pick(c); }
    t.y = rnd(t.op == 2 ? sh[1] * t.c : t.op == 3 ? t.c * sh[0] : sh[0] * sh[1]);
    steps.push_back(t);
  }
  const Ten x = rnd(R * C);
  r.note = cat(s.str(), " ", vs.size(), " views of a cached ", R, "x", C, " tensor, ", n, " uses");
  auto cfg = sim_config(r, 1);
  std::vector<std::vector<Ten>> out(s.npc, std::vector<Ten>(n));
  std::vector<std::vector<int64_t>> shp(n);
  auto oc = run_parties(r, s, cfg, [&](SPUContext* ctx, int rank) {
    auto X = mpc::p2s(ctx, make_pub(s, {R, C}, x));
    dynDispatch<Value>(ctx, "beaver_cache", X, true);
    auto get = [&](int k) {
      const auto& v = vs[k];
      auto d = X.data().slice(Index(v.st.begin(), v.st.end()), Index(v.en.begin(), v.en.end()), Strides(v.sd.begin(), v.sd.end()));
      return Value(v.T ? d.transpose() : d, DT_INVALID);
    };
    for (int i = 0; i < n; ++i) {
      if (r.skipped(i)) continue;
      const auto& t = steps[i]; const auto& sh = vs[t.v].shape;
      Value z;
      if (t.op == 0 || t.op == 7) z = mpc::mul_ss(ctx, get(t.v), mpc::p2s(ctx, make_pub(s, sh, t.y)));
      if (t.op == 1) z = mpc::mul_ss(ctx, mpc::p2s(ctx, make_pub(s, sh, t.y)), get(t.v));
      if (t.op == 2) z = mpc::mmul_ss(ctx, get(t.v), mpc::p2s(ctx, make_pub(s, {sh[1], t.c}, t.y)));
      if (t.op == 3) z = mpc::mmul_ss(ctx, mpc::p2s(ctx, make_pub(s, {t.c, sh[0]}, t.y)), get(t.v));
      if (t.op == 4) z = mpc::mul_ss(ctx, get(t.v), get(t.w));
      if (t.op == 5) z = mpc::mmul_ss(ctx, get(t.v), get(t.w));
      if (t.op == 6) z = mpc::square_s(ctx, get(t.v));
      if (t.op == 8) { dynDispatch<Value>(ctx, "beaver_cache", X, false); if (t.c > 1) dynDispatch<Value>(ctx, "beaver_cache", X, true); continue; }
      out[rank][i] = ring_values(mpc::s2p(ctx, z).data());
    }
    dynDispatch<Value>(ctx, "beaver_cache", X, false);
  });
  r.n_ops = n;
  r.check(!oc.hang, "hang", cat(r.note, " ", oc.hang_what));
  r.check(oc.all_ok(), "error", cat(r.note, " ", oc.errors()));
  for (int i = 0; i < n; ++i) {
    if (r.skipped(i)) continue;
    const auto& t = steps[i]; if (t.op == 8) continue;
    auto val = [&](int k) { Ten o; for (auto a : vs[k].at) o.push_back(x[a]); return o; };
    auto mm = [&](const Ten& a, const Ten& b, int64_t m, int64_t k, int64_t q) { Ten o(m * q, 0); for (int64_t i = 0; i < m; ++i) for (int64_t j = 0; j < q; ++j) for (int64_t l = 0; l < k; ++l) o[i * q + j] = (o[i * q + j] + a[i * k + l] * b[l * q + j]) & M; return o; };
    const auto& sh = vs[t.v].shape; const auto& sw = vs[t.w].shape;
    Ten a = val(t.v), w;
    if (t.op == 2) w = mm(a, t.y, sh[0], sh[1], t.c);
    else if (t.op == 3) w = mm(t.y, a, t.c, sh[0], sh[1]);
    else if (t.op == 5) w = mm(a, val(t.w), sh[0], sh[1], sw[1]);
    else { Ten b = t.op == 4 ? val(t.w) : t.op == 6 ? a : t.y; for (size_t j = 0; j < a.size(); ++j) w.push_back((a[j] * b[j]) & M); }
    for (int q = 0; q < s.npc; ++q) { ++r.evals; r.check(out[q][i] == w, "wrong", cat(r.note, " use ", i, " (kind ", t.op, ") of view ", t.v, " party ", q, ": ", ten_str(out[q][i]), " instead of ", ten_str(w))); }
  }
  r.tag("cached_views");
}

// The store behind the cache: what was stored is what comes back, also in several slices.
SCENARIO(cache_store) {
  auto g = r.rng("store");
  auto cfg = sim_config(r, 0);
  const bool big = g.chance(0.04);
  const int fk = static_cast<int>(r.draw("disk_fault", 0, 4));
  const double pr = 0.05 + 0.4 * g.unit();
  uint64_t bad = 0; std::string why;
  auto oc = run_links(r, 1, cfg, [&](const std::shared_ptr<yacl::link::Context>&, int) {
    mpc::semi2k::BeaverCache cache;
    struct E { NdArrayRef x, open; int enabled = 0; std::map<std::string, std::pair<NdArrayRef, NdArrayRef>> views; };
    std::vector<E> es;
    auto mk = [&](int64_t rows, int64_t cols) {
      NdArrayRef x(makeType<mpc::semi2k::AShrTy>(FM32), {rows, cols});
      auto* d = x.data<uint32_t>(); for (int64_t i = 0; i < x.numel(); ++i) d[i] = static_cast<uint32_t>(sim::mix64(g.s + i));
      return x;
    };
    auto key = [](const NdArrayRef& x) { return cat(x.shape(), x.strides(), x.offset()); };
    for (int i = 0; i < (big ? 1 : 3); ++i) es.push_back({big ? mk(9 << 20, 1) : mk(g.range(1, 6), g.range(1, 6)), {}});
    for (int step = 0; step < (big ? 6 : 30); ++step) {
      auto& e = es[g.below(es.size())];
      NdArrayRef v = e.x;
      if (!big && g.chance(0.5)) {
        Index st, en; Strides sd;
        for (int d = 0; d < 2; ++d) { int64_t a = g.chance(0.7) ? 0 : g.range(0, v.shape()[d] - 1); st.push_back(a); en.push_back(g.range(a + 1, v.shape()[d])); sd.push_back(g.range(1, 2)); }
        v = v.slice(st, en, sd);
      }
      int what = static_cast<int>(big && step < 3 ? step : g.below(8));
      try {
        if (what == 0) { cache.EnableCache(e.x); e.enabled = 1; continue; }
        if (what == 7) {
          bool was = e.enabled; e.enabled = 0; auto keep = e.views; e.views.clear();
          try { cache.DisableCache(e.x); } catch (...) { e.enabled = was; for (auto& k : keep) k.second.second = NdArrayRef(); e.views = keep; throw; }
          continue;
        }
        auto c = cache.GetCache(v, true);
        if (c.enabled != (e.enabled != 0)) { ++bad; why = "the cache forgot, or invented, that a tensor is cached"; }
        bool T = c.replay_desc.status == mpc::semi2k::Beaver::TransposeReplay;
        auto it = e.views.find(key(T ? v.transpose() : v));
        if (c.replay_desc.status != mpc::semi2k::Beaver::Init) {
          if (it == e.views.end()) { ++bad; why = "a value that was never stored is returned"; }
          else if (it->second.second.buf() == nullptr) {}
          else {
            auto want = T ? it->second.second.transpose() : it->second.second;
            if (c.open_cache.shape() != want.shape() || ring_values(c.open_cache) != ring_values(want)) {
              ++bad; why = "another value comes back than was stored";
              auto A = ring_values(c.open_cache), B = ring_values(want); if (A.size() != B.size()) { why += cat(" ", c.open_cache.shape(), " vs ", want.shape(), " ", want.strides(), " T", T); continue; } size_t d = 0, f = 0; for (size_t i = 0; i < A.size(); ++i) if (A[i] != B[i]) { if (!d) f = i; ++d; }
              why += cat(": ", c.open_cache.shape(), " step ", step, ", ", d, " elements from ", f, T ? " transposed" : "", " ", u128s(A[f]), " instead of ", u128s(B[f]));
            }
            r.tag("cache_hit");
          }
        } else if (c.enabled) {
          if (it != e.views.end() && it->second.second.buf() != nullptr) { ++bad; why = "a stored value is not found"; }
          mpc::semi2k::Beaver::ReplayDesc d; d.field = FM32; d.size = v.numel(); d.prg_counter = 7; d.seed = 9;
          auto open = mk(v.shape()[0], v.shape()[1]).as(v.eltype());
          for (int64_t i = 0; i < open.numel(); i += big ? 4099 : 1) open.data<uint32_t>()[i] ^= 0x5bd1e995u * static_cast<uint32_t>(step + 1);
          if (e.views.count(key(v))) continue;  // after a failed write
          e.views[key(v)] = {v, NdArrayRef()};
          cache.SetCache(v, d, open);
          e.views[key(v)] = {v, open};
          r.tag(big ? "cache_stored_slices" : "cache_stored");
        }
      } catch (const std::exception&) { r.tag("store_error"); }
    }
  }, [&] {
    auto& d = sim::disk_faults();
    if (fk == 1) d.p_put_fail = pr;
    if (fk == 2) d.p_get_fail = pr;
    if (fk == 3) d.p_del_fail = pr;
    if (fk == 4) d.p_open_fail = pr;
  });
  r.check(oc.all_ok(), "error", oc.errors());
  ++r.evals;
  r.check(bad == 0, "cache_store_wrong", why);
}
