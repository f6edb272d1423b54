// Kernels that move, select or order data: shapes, slices, gathers, windows, reductions, sorts,
// permutations, group-by and control flow.
#include <set>

#include "hl.h"

#include "libspu/core/config.h"
#include "libspu/kernel/hal/constants.h"
#include "libspu/kernel/hal/permute.h"
#include "libspu/kernel/hal/polymorphic.h"
#include "libspu/kernel/hal/prot_wrapper.h"
#include "libspu/kernel/hal/ring.h"
#include "libspu/kernel/hal/shape_ops.h"
#include "libspu/kernel/hal/type_cast.h"
#include "libspu/kernel/hlo/basic_binary.h"
#include "libspu/kernel/hlo/basic_ternary.h"
#include "libspu/kernel/hlo/basic_unary.h"
#include "libspu/kernel/hlo/casting.h"
#include "libspu/kernel/hlo/control_flow.h"
#include "libspu/kernel/hlo/convolution.h"
#include "libspu/kernel/hlo/geometrical.h"
#include "libspu/kernel/hlo/group_by_agg.h"
#include "libspu/kernel/hlo/indexing.h"
#include "libspu/kernel/hlo/permute.h"
#include "libspu/kernel/hlo/rank.h"
#include "libspu/kernel/hlo/reduce.h"
#include "libspu/kernel/hlo/select_and_scatter.h"
#include "libspu/kernel/hlo/shuffle.h"
#include "libspu/kernel/hlo/soprf.h"
#include "libspu/kernel/hlo/sort.h"

namespace h {
using namespace spu;
namespace hal = spu::kernel::hal;
namespace hlo = spu::kernel::hlo;
using Vals = std::vector<Value>;
using Ins = std::vector<const HV*>;
using Exps = std::vector<Exp>;
using Ref = std::function<bool(const HCtx&, const Ins&, const HOp&, Exps&)>;
using Runf = std::function<Vals(SPUContext*, const Vals&, const HOp&, int)>;
using Gen = std::function<bool(HGen&, HOp&)>;
using Judge = std::function<std::string(const HCtx&, const Ins&, const Ins&, const HOp&)>;

static Index ix(const Shp& s) { return Index(s.begin(), s.end()); }
static Shape shp(const Shp& s) { return Shape(s.begin(), s.end()); }
static Sizes siz(const Shp& s) { return Sizes(s.begin(), s.end()); }
static Strides str(const Shp& s) { return Strides(s.begin(), s.end()); }
static Axes axs(const Shp& s) { return Axes(s.begin(), s.end()); }
static Shp unflat(int64_t i, const Shp& s) { Shp o(s.size()); for (int d = static_cast<int>(s.size()) - 1; d >= 0; --d) { o[d] = i % s[d]; i /= s[d]; } return o; }
static int64_t flat(const Shp& i, const Shp& s) { int64_t o = 0; for (size_t d = 0; d < s.size(); ++d) o = o * s[d] + i[d]; return o; }
// result[i] = in[map(i)]; a negative value takes `fill`
static std::vector<i128> move(const std::vector<i128>& in, const Shp& from, const Shp& to, const std::function<bool(const Shp&, Shp&)>& map, i128 fill = 0) {
  std::vector<i128> o;
  for (int64_t i = 0; i < numel(to); ++i) { Shp src(from.size()); o.push_back(map(unflat(i, to), src) ? in[flat(src, from)] : fill); }
  return o;
}
static char any_cls(HGen& G) { return "IIIFFFB"[G.g.below(7)]; }
static int any_reg(HGen& G, int lo = 0, int hi = 3) { return G.any(any_cls(G), lo, hi); }
static int num_reg(HGen& G, int lo = 0, int hi = 3) { return G.any(G.g.chance(0.5) ? 'I' : 'F', lo, hi); }
static DataType idx_dt(const HCtx& c) { return c.k == 32 ? DT_I32 : DT_I64; }
static Exp same(const HV& like, const Shp& sh, std::vector<i128> v) { return exact(like.cls, like.dt, sh, std::move(v)); }
static HV lit(HGen& G, char cls, DataType dt, const Shp& sh, std::vector<i128> v) { HV o = G.fresh(cls, sh, std::move(v)); o.dt = dt; return o; }
// a fresh operand of the same type as register q
static int typed(HGen& G, int q, const Shp& sh, double reuse = 0.4) {
  const HV r = G.reg(q);
  return G.operand([&](const HV& v) { return v.cls == r.cls && v.dt == r.dt && v.shape == sh; }, [&] {
    int64_t n = numel(sh);
    HV o = lit(G, r.cls, r.dt, sh, r.cls == 'B' ? G.bools(n) : r.cls == 'I' ? G.ints(n, std::min(G.c.k / 2 - 6, 30)) : G.reals(n, 0, std::pow(2.0L, std::min(12, (G.c.k - 2 * G.c.f) / 2 - 3))));
    for (auto& x : o.v) if (!r.v.empty() && G.g.chance(0.3)) x = r.v[G.g.below(r.v.size())];
    return o;
  }, reuse);
}
static bool room(const HCtx& c, const HV& a, int adds = 1) { for (auto x : a.v) if (iabs(x) * adds >= c.lim() / 2) return false; return true; }
static Shp rand_perm(HGen& G, int64_t n) { Shp p(n); for (int64_t i = 0; i < n; ++i) p[i] = i; for (int64_t i = n - 1; i > 0; --i) std::swap(p[i], p[G.g.below(i + 1)]); return p; }
static HDef def(const std::string& n, double w, Gen g, Runf r, Ref f, Judge j = {}) { return HDef{n, w, std::move(g), std::move(r), std::move(f), std::move(j)}; }

// ---- shapes ----------------------------------------------------------------
static void shapes(std::vector<HDef>& d) {
  d.push_back(def("transpose", 2, [](HGen& G, HOp& op) { op.in = {any_reg(G, 1, 3)}; op.p = rand_perm(G, G.reg(op.in[0]).shape.size()); return true; },
    [](SPUContext* c, const Vals& in, const HOp& op, int) { return Vals{hlo::Transpose(c, in[0], axs(op.p))}; },
    [](const HCtx&, const Ins& in, const HOp& op, Exps& o) {
      Shp to; for (auto q : op.p) to.push_back(in[0]->shape[q]);
      o.push_back(same(*in[0], to, move(in[0]->v, in[0]->shape, to, [&](const Shp& i, Shp& s) { for (size_t k = 0; k < i.size(); ++k) s[op.p[k]] = i[k]; return true; })));
      return true;
    }));
  d.push_back(def("broadcast", 2, [](HGen& G, HOp& op) {
    op.in = {any_reg(G, 0, 2)};
    const Shp& s = G.reg(op.in[0]).shape;
    int extra = static_cast<int>(G.g.range(0, 3 - static_cast<int64_t>(s.size())));
    std::vector<int> from;  // -1: new dimension
    for (size_t i = 0; i < s.size(); ++i) from.push_back(static_cast<int>(i));
    for (int i = 0; i < extra; ++i) from.insert(from.begin() + G.g.below(from.size() + 1), -1);
    Shp to;
    for (size_t i = 0; i < from.size(); ++i) { to.push_back(from[i] < 0 || s[from[i]] == 1 ? G.g.range(1, 3) : s[from[i]]); if (from[i] >= 0) op.p.push_back(static_cast<int64_t>(i)); }
    op.sp = {to};
    return numel(to) <= 36;
  }, [](SPUContext* c, const Vals& in, const HOp& op, int) { return Vals{hlo::Broadcast(c, in[0], shp(op.sp[0]), axs(op.p))}; },
  [](const HCtx&, const Ins& in, const HOp& op, Exps& o) {
    o.push_back(same(*in[0], op.sp[0], move(in[0]->v, in[0]->shape, op.sp[0], [&](const Shp& i, Shp& s) { for (size_t k = 0; k < s.size(); ++k) s[k] = in[0]->shape[k] == 1 ? 0 : i[op.p[k]]; return true; })));
    return true;
  }));
  d.push_back(def("reshape", 1.5, [](HGen& G, HOp& op) {
    op.in = {any_reg(G)};
    int64_t n = numel(G.reg(op.in[0]).shape);
    Shp to;
    while (n > 1 || G.g.chance(0.3)) { std::vector<int64_t> dv; for (int64_t q = 1; q <= n; ++q) if (n % q == 0) dv.push_back(q); int64_t q = to.size() >= 3 ? n : G.g.pick(dv); to.push_back(q); n /= q; if (to.size() >= 4) break; }
    op.sp = {to};
    return n == 1;
  }, [](SPUContext* c, const Vals& in, const HOp& op, int) { return Vals{hlo::Reshape(c, in[0], shp(op.sp[0]))}; },
  [](const HCtx&, const Ins& in, const HOp& op, Exps& o) { o.push_back(same(*in[0], op.sp[0], in[0]->v)); return true; }));
  d.push_back(def("concatenate", 3, [](HGen& G, HOp& op) {
    int a = any_reg(G, 1, 3);
    Shp s = G.reg(a).shape;
    int64_t ax = G.g.below(s.size()), n = G.g.range(1, 4);
    op.in = {a}; op.p = {ax};
    for (int64_t i = 1; i < n; ++i) { Shp t = s; t[ax] = G.g.chance(0.4) ? s[ax] : G.g.range(1, 4); op.in.push_back(typed(G, a, t)); }
    return true;
  }, [](SPUContext* c, const Vals& in, const HOp& op, int) { return Vals{hlo::Concatenate(c, in, op.p[0])}; },
  [](const HCtx&, const Ins& in, const HOp& op, Exps& o) {
    int64_t ax = op.p[0];
    Shp to = in[0]->shape;
    to[ax] = 0;
    for (auto* v : in) { if (v->dt != in[0]->dt || v->shape.size() != to.size()) return false; to[ax] += v->shape[ax]; }
    std::vector<i128> r;
    for (int64_t i = 0; i < numel(to); ++i) { Shp q = unflat(i, to); for (auto* v : in) { if (q[ax] < v->shape[ax]) { r.push_back(v->v[flat(q, v->shape)]); break; } q[ax] -= v->shape[ax]; } }
    o.push_back(same(*in[0], to, r));
    return true;
  }));
  d.push_back(def("slice", 2, [](HGen& G, HOp& op) {
    op.in = {any_reg(G, 1, 3)};
    Shp s = G.reg(op.in[0]).shape, b, e, t;
    for (auto n : s) { int64_t x = G.g.below(n); b.push_back(x); e.push_back(G.g.range(x + 1, n)); t.push_back(G.g.range(1, 3)); }
    op.sp = {b, e, t};
    return true;
  }, [](SPUContext* c, const Vals& in, const HOp& op, int) { return Vals{hlo::Slice(c, in[0], ix(op.sp[0]), ix(op.sp[1]), str(op.sp[2]))}; },
  [](const HCtx&, const Ins& in, const HOp& op, Exps& o) {
    Shp to; for (size_t k = 0; k < in[0]->shape.size(); ++k) to.push_back((op.sp[1][k] - op.sp[0][k] + op.sp[2][k] - 1) / op.sp[2][k]);
    o.push_back(same(*in[0], to, move(in[0]->v, in[0]->shape, to, [&](const Shp& i, Shp& s) { for (size_t k = 0; k < i.size(); ++k) s[k] = op.sp[0][k] + i[k] * op.sp[2][k]; return true; })));
    return true;
  }));
  d.push_back(def("pad", 2, [](HGen& G, HOp& op) {
    int a = any_reg(G, 1, 3);
    Shp lo, hi, in, to;
    for (auto n : G.reg(a).shape) { lo.push_back(G.g.range(0, 2)); hi.push_back(G.g.range(0, 2)); in.push_back(G.g.chance(0.6) ? 0 : G.g.range(1, 2)); to.push_back(lo.back() + hi.back() + n + (n - 1) * in.back()); }
    op.in = {a, typed(G, a, {})};
    op.sp = {lo, hi, in, to};
    return numel(to) <= 60;
  }, [](SPUContext* c, const Vals& in, const HOp& op, int) { return Vals{hlo::Pad(c, in[0], in[1], siz(op.sp[0]), siz(op.sp[1]), siz(op.sp[2]))}; },
  [](const HCtx&, const Ins& in, const HOp& op, Exps& o) {
    o.push_back(same(*in[0], op.sp[3], move(in[0]->v, in[0]->shape, op.sp[3], [&](const Shp& i, Shp& s) {
      for (size_t k = 0; k < i.size(); ++k) { int64_t x = i[k] - op.sp[0][k], t = op.sp[2][k] + 1; if (x < 0 || x % t || x / t >= in[0]->shape[k]) return false; s[k] = x / t; }
      return true; }, in[1]->v[0])));
    return true;
  }));
  d.push_back(def("reverse", 1, [](HGen& G, HOp& op) { op.in = {any_reg(G, 1, 3)}; for (size_t k = 0; k < G.reg(op.in[0]).shape.size(); ++k) if (G.g.chance(0.6)) op.p.push_back(k); return !op.p.empty(); },
    [](SPUContext* c, const Vals& in, const HOp& op, int) { return Vals{hlo::Reverse(c, in[0], axs(op.p))}; },
    [](const HCtx&, const Ins& in, const HOp& op, Exps& o) {
      o.push_back(same(*in[0], in[0]->shape, move(in[0]->v, in[0]->shape, in[0]->shape, [&](const Shp& i, Shp& s) { s = i; for (auto k : op.p) s[k] = in[0]->shape[k] - 1 - i[k]; return true; })));
      return true;
    }));
  // an expansion followed by element-wise work: strided views feed real kernels
  d.push_back(def("view_add", 2, [](HGen& G, HOp& op) {
    int a = num_reg(G, 2, 2), b = G.like(a, G.reg(a).cls, [&](const HV& v) { return v.dt == G.reg(a).dt; });
    op.in = {a, b};
    op.p = {G.g.range(0, 2), G.g.range(1, 2)};
    return G.reg(b).dt == G.reg(a).dt;
  }, [](SPUContext* c, const Vals& in, const HOp& op, int) {
    auto view = [&](const Value& x) -> Value {
      if (op.p[0] == 0) return hlo::Transpose(c, x, {1, 0});
      if (op.p[0] == 1) return hlo::Reverse(c, x, {0});
      return hlo::Slice(c, x, {0, 0}, Index(x.shape().begin(), x.shape().end()), {op.p[1], 1});
    };
    auto x = view(in[0]), y = view(in[1]);
    return Vals{hlo::Add(c, x, y), hlo::Greater(c, x, y)};
  }, [](const HCtx& c, const Ins& in, const HOp& op, Exps& o) {
    const Shp& s = in[0]->shape;
    if (!room(c, *in[0], 2) || !room(c, *in[1], 2)) return false;
    Shp to = op.p[0] == 0 ? Shp{s[1], s[0]} : op.p[0] == 1 ? s : Shp{(s[0] + op.p[1] - 1) / op.p[1], s[1]};
    auto mp = [&](const Shp& i, Shp& q) { q = op.p[0] == 0 ? Shp{i[1], i[0]} : op.p[0] == 1 ? Shp{s[0] - 1 - i[0], i[1]} : Shp{i[0] * op.p[1], i[1]}; return true; };
    auto x = move(in[0]->v, s, to, mp), y = move(in[1]->v, s, to, mp), z = x;
    for (size_t i = 0; i < x.size(); ++i) { z[i] = x[i] > y[i]; x[i] += y[i]; }
    o.push_back(same(*in[0], to, x)); o.push_back(exact('B', DT_I1, to, z));
    return true;
  }));
}
// ---- indexing --------------------------------------------------------------
static int index_scalar(HGen& G, int64_t dim, DataType dt) {
  i128 v = G.g.chance(0.7) ? G.g.range(0, dim - 1) : G.g.chance(0.5) ? -G.g.range(1, 4) : dim + G.g.range(0, 4);
  return G.add_input(lit(G, 'I', dt, {}, {v}));
}
static int64_t clampi(i128 v, int64_t hi) { return v < 0 ? 0 : v > hi ? hi : static_cast<int64_t>(v); }
static void indexing(std::vector<HDef>& d) {
  auto dims = [](HGen& G, HOp& op, bool update) {
    int a = num_reg(G, 1, 3);
    Shp s = G.reg(a).shape, t;
    for (auto n : s) t.push_back(G.g.range(1, n));
    op.in = {a};
    if (update) op.in.push_back(typed(G, a, t));
    DataType dt = idx_dt(G.c);
    for (auto n : s) op.in.push_back(index_scalar(G, n, dt));
    // the bounds are 64 bit constants, which a 32 bit ring does not encode
    if (G.c.k == 32) for (size_t i = update ? 2 : 1; i < op.in.size(); ++i) if (G.reg(op.in[i]).vis != 'p') return false;
    op.sp = {t};
    return !update || numel(t) * numel(s) <= 60;
  };
  d.push_back(def("dynamic_slice", 3, [dims](HGen& G, HOp& op) { return dims(G, op, false); },
    [](SPUContext* c, const Vals& in, const HOp& op, int) { return Vals{hlo::DynamicSlice(c, in[0], siz(op.sp[0]), Vals(in.begin() + 1, in.end()))}; },
    [](const HCtx&, const Ins& in, const HOp& op, Exps& o) {
      const Shp& s = in[0]->shape;
      o.push_back(same(*in[0], op.sp[0], move(in[0]->v, s, op.sp[0], [&](const Shp& i, Shp& q) { for (size_t k = 0; k < s.size(); ++k) q[k] = clampi(in[1 + k]->v[0], s[k] - op.sp[0][k]) + i[k]; return true; })));
      return true;
    }));
  d.push_back(def("dynamic_update_slice", 2.5, [dims](HGen& G, HOp& op) { return dims(G, op, true); },
    [](SPUContext* c, const Vals& in, const HOp&, int) { return Vals{hlo::DynamicUpdateSlice(c, in[0], in[1], Vals(in.begin() + 2, in.end()))}; },
    [](const HCtx&, const Ins& in, const HOp& op, Exps& o) {
      const Shp& s = in[0]->shape;
      auto r = in[0]->v;
      for (int64_t i = 0; i < numel(op.sp[0]); ++i) { Shp q = unflat(i, op.sp[0]); for (size_t k = 0; k < s.size(); ++k) q[k] += clampi(in[2 + k]->v[0], s[k] - op.sp[0][k]); r[flat(q, s)] = in[1]->v[i]; }
      o.push_back(same(*in[0], s, r));
      return true;
    }));
  d.push_back(def("update_slice", 1.5, [](HGen& G, HOp& op) {
    int a = any_reg(G, 1, 3);
    Shp s = G.reg(a).shape, t, b;
    for (auto n : s) { t.push_back(G.g.range(1, n)); b.push_back(G.g.range(0, n - t.back())); }
    op.in = {a, typed(G, a, t)};
    op.sp = {b};
    return true;
  }, [](SPUContext* c, const Vals& in, const HOp& op, int) { return Vals{hlo::UpdateSlice(c, in[0], in[1], ix(op.sp[0]))}; },
  [](const HCtx&, const Ins& in, const HOp& op, Exps& o) {
    auto r = in[0]->v;
    const Shp& t = in[1]->shape;
    for (int64_t i = 0; i < numel(t); ++i) { Shp q = unflat(i, t); for (size_t k = 0; k < q.size(); ++k) q[k] += op.sp[0][k]; r[flat(q, in[0]->shape)] = in[1]->v[i]; }
    o.push_back(same(*in[0], in[0]->shape, r));
    return true;
  }));
  d.push_back(def("filter_by_mask", 1, [](HGen& G, HOp& op) { op.in = {any_reg(G, 1, 1)}; bool some = false; for (int64_t i = 0; i < G.reg(op.in[0]).shape[0]; ++i) { op.p.push_back(G.g.chance(0.6)); some = some || op.p.back(); } return some; },
    [](SPUContext* c, const Vals& in, const HOp& op, int) { std::vector<uint8_t> m; for (auto x : op.p) m.push_back(x != 0 ? 1 : 0); return Vals{hlo::FilterByMask(c, in[0], m)}; },
    [](const HCtx&, const Ins& in, const HOp& op, Exps& o) { std::vector<i128> r; for (size_t i = 0; i < op.p.size(); ++i) if (op.p[i]) r.push_back(in[0]->v[i]); o.push_back(same(*in[0], {static_cast<int64_t>(r.size())}, r)); return true; }));
  d.push_back(def("linear_gather", 1, [](HGen& G, HOp& op) { op.in = {any_reg(G, 1, 1)}; int64_t n = G.g.range(1, 8); for (int64_t i = 0; i < n; ++i) op.p.push_back(G.g.below(G.reg(op.in[0]).v.size())); return true; },
    [](SPUContext* c, const Vals& in, const HOp& op, int) { return Vals{hlo::LinearGather(c, in[0], ix(op.p))}; },
    [](const HCtx&, const Ins& in, const HOp& op, Exps& o) { std::vector<i128> r; for (auto i : op.p) r.push_back(in[0]->v[i]); o.push_back(same(*in[0], {static_cast<int64_t>(r.size())}, r)); return true; }));
  d.push_back(def("linear_scatter", 1, [](HGen& G, HOp& op) {
    int a = any_reg(G, 1, 1);
    int64_t n = G.reg(a).shape[0], m = G.g.range(1, n);
    op.p = rand_perm(G, n); op.p.resize(m);
    op.in = {a, typed(G, a, {m})};
    return true;
  }, [](SPUContext* c, const Vals& in, const HOp& op, int) { Value x = in[0].clone(); hlo::LinearScatterInPlace(c, x, in[1], ix(op.p)); return Vals{x}; },
  [](const HCtx&, const Ins& in, const HOp& op, Exps& o) { auto r = in[0]->v; for (size_t i = 0; i < op.p.size(); ++i) r[op.p[i]] = in[1]->v[i]; o.push_back(same(*in[0], in[0]->shape, r)); return true; }));
  // take along one dimension (public indices), and rows of start positions
  d.push_back(def("gather", 1.5, [](HGen& G, HOp& op) {
    int a = any_reg(G, 1, 3);
    Shp s = G.reg(a).shape;
    int64_t ax = G.g.below(s.size()), n = G.g.range(1, 4);
    std::vector<i128> v; for (int64_t i = 0; i < n; ++i) v.push_back(G.g.chance(0.85) ? G.g.range(0, s[ax] - 1) : G.g.range(-2, s[ax] + 1));
    bool two = G.g.chance(0.3);
    Shp is{n};
    if (two) { is = {1, n}; }
    HV idx = lit(G, 'I', idx_dt(G.c), is, v);
    idx.vis = 'p'; idx.owner = -1;
    op.in = {a, G.add_input(idx)};
    op.p = {ax};
    return true;
  }, [](SPUContext* c, const Vals& in, const HOp& op, int) {
    // as jnp.take: batch dimensions of the indices take the place of the gathered one
    hlo::GatherConfig g;
    int64_t ax = op.p[0], r = in[0].shape().size(), b = in[1].shape().size();
    Shape rs;
    for (int64_t k = 0; k < ax; ++k) rs.push_back(in[0].shape()[k]);
    for (int64_t k = 0; k < b; ++k) rs.push_back(in[1].shape()[k]);
    for (int64_t k = ax + 1; k < r; ++k) rs.push_back(in[0].shape()[k]);
    for (int64_t k = 0; k < r; ++k) g.sliceSizes.push_back(k == ax ? 1 : in[0].shape()[k]);
    for (int64_t k = 0; k < ax; ++k) g.offsetDims.push_back(k);
    for (int64_t k = ax + b; k < r + b - 1; ++k) g.offsetDims.push_back(k);
    g.collapsedSliceDims = {ax};
    g.startIndexMap = {ax};
    g.indexVectorDim = b;
    return Vals{hlo::Gather(c, in[0], in[1], g, rs)};
  }, [](const HCtx&, const Ins& in, const HOp& op, Exps& o) {
    int64_t ax = op.p[0], b = in[1]->shape.size();
    const Shp& s = in[0]->shape;
    Shp to(s.begin(), s.begin() + ax);
    to.insert(to.end(), in[1]->shape.begin(), in[1]->shape.end());
    to.insert(to.end(), s.begin() + ax + 1, s.end());
    o.push_back(same(*in[0], to, move(in[0]->v, s, to, [&](const Shp& i, Shp& q) {
      for (int64_t k = 0; k < ax; ++k) q[k] = i[k];
      q[ax] = clampi(in[1]->v[flat(Shp(i.begin() + ax, i.begin() + ax + b), in[1]->shape)], s[ax] - 1);
      for (size_t k = ax + 1; k < s.size(); ++k) q[k] = i[k + b - 1];
      return true; })));
    return true;
  }));
  d.push_back(def("gather_nd", 1, [](HGen& G, HOp& op) {
    int a = any_reg(G, 2, 2);
    Shp s = G.reg(a).shape;
    int64_t n = G.g.range(1, 4), h = G.g.range(1, s[0]), w = G.g.range(1, s[1]);
    std::vector<i128> v; for (int64_t i = 0; i < n; ++i) for (int k = 0; k < 2; ++k) v.push_back(G.g.range(-1, s[k] + 1));
    bool swap = G.g.chance(0.4);
    HV idx = lit(G, 'I', idx_dt(G.c), {n, 2}, v);
    idx.vis = 'p'; idx.owner = -1;
    op.in = {a, G.add_input(idx)};
    op.p = {h, w, swap};
    return n * h * w <= 36;
  }, [](SPUContext* c, const Vals& in, const HOp& op, int) {
    hlo::GatherConfig g;
    g.sliceSizes = {op.p[0], op.p[1]};
    g.offsetDims = {1, 2};
    g.startIndexMap = op.p[2] ? Axes{1, 0} : Axes{0, 1};
    g.indexVectorDim = 1;
    return Vals{hlo::Gather(c, in[0], in[1], g, {in[1].shape()[0], op.p[0], op.p[1]})};
  }, [](const HCtx&, const Ins& in, const HOp& op, Exps& o) {
    const Shp& s = in[0]->shape;
    Shp to{in[1]->shape[0], op.p[0], op.p[1]};
    o.push_back(same(*in[0], to, move(in[0]->v, s, to, [&](const Shp& i, Shp& q) {
      for (int k = 0; k < 2; ++k) q[k] = clampi(in[1]->v[i[0] * 2 + (op.p[2] ? 1 - k : k)], s[k] - op.p[k]) + i[1 + k];
      return true; })));
    return true;
  }));
}
// ---- reductions and windows --------------------------------------------------
enum { kSum, kMax, kMin, kOr, kArg };
static i128 red1(int kind, i128 a, i128 b) { return kind == kSum ? a + b : kind == kMax ? std::max(a, b) : kind == kMin ? std::min(a, b) : (a | b); }
static Value red_op(SPUContext* c, int kind, const Value& a, const Value& b) { return kind == kSum ? hlo::Add(c, a, b) : kind == kMax ? hlo::Max(c, a, b) : kind == kMin ? hlo::Min(c, a, b) : hlo::Or(c, a, b); }
static int red_kind(HGen& G, char cls) { return cls == 'B' ? kOr : static_cast<int>(G.g.range(kSum, kMin)); }
static void windows(std::vector<HDef>& d) {
  d.push_back(def("reduce", 3, [](HGen& G, HOp& op) {
    int a = any_reg(G, 1, 3);
    op.in = {a, typed(G, a, {})};
    Shp dims;
    for (size_t k = 0; k < G.reg(a).shape.size(); ++k) if (G.g.chance(0.6)) dims.push_back(k);
    op.sp = {dims};
    op.p = {red_kind(G, G.reg(a).cls), G.g.chance(0.3)};
    return !dims.empty();
  }, [](SPUContext* c, const Vals& in, const HOp& op, int) {
    auto r = hlo::Reduce(c, Vals{in[0]}, Vals{in[1]}, axs(op.sp[0]), [&](absl::Span<const Value> l, absl::Span<const Value> q) { return Vals{red_op(c, op.p[0], l[0], q[0])}; }, op.p[1] != 0);
    return r;
  }, [](const HCtx& c, const Ins& in, const HOp& op, Exps& o) {
    if (!room(c, *in[0], static_cast<int>(in[0]->v.size()) + 2) || !room(c, *in[1], 2)) return false;
    Shp to = in[0]->shape;
    for (auto k : op.sp[0]) to[k] = 1;
    std::vector<i128> r(numel(to)); std::vector<char> has(r.size(), op.p[1] ? 0 : 1);
    if (!op.p[1]) for (auto& x : r) x = in[1]->v[0];
    for (size_t i = 0; i < in[0]->v.size(); ++i) { Shp q = unflat(i, in[0]->shape); for (auto k : op.sp[0]) q[k] = 0; auto j = flat(q, to); r[j] = has[j] ? red1(op.p[0], r[j], in[0]->v[i]) : in[0]->v[i]; has[j] = 1; }
    o.push_back(same(*in[0], to, r));
    return true;
  }));
  // two operands reduced together: extremum of the first, and what stood beside it in the second
  d.push_back(def("reduce_pair", 1.2, [](HGen& G, HOp& op) {
    int a = num_reg(G, 1, 2);
    op.in = {a, G.add_input(lit(G, 'I', idx_dt(G.c), G.reg(a).shape, G.ints(numel(G.reg(a).shape), 10)))};
    op.p = {static_cast<int64_t>(G.g.below(G.reg(a).shape.size())), G.g.range(kMax, kMin)};
    return true;
  }, [](SPUContext* c, const Vals& in, const HOp& op, int) {
    return hlo::TreeReduce(c, in, op.p[0], [&](absl::Span<const Value> l, absl::Span<const Value> q) {
      auto p = op.p[1] == kMax ? hlo::Greater(c, l[0], q[0]) : hlo::Less(c, l[0], q[0]);
      return Vals{hlo::Select(c, p, l[0], q[0]), hlo::Select(c, p, l[1], q[1])};
    });
  }, [](const HCtx& c, const Ins& in, const HOp& op, Exps& o) {
    if (!room(c, *in[0], 2)) return false;
    Shp to = in[0]->shape; to[op.p[0]] = 1;
    o.push_back(same(*in[0], to, std::vector<i128>(numel(to)))); o.push_back(same(*in[1], to, std::vector<i128>(numel(to))));
    return true;
  }, [](const HCtx&, const Ins& in, const Ins& out, const HOp& op) -> std::string {
    const Shp &s = in[0]->shape, &to = out[0]->shape;
    for (int64_t j = 0; j < numel(to); ++j) {
      Shp q = unflat(j, to);
      bool first = true, pair = false; i128 best = 0;
      for (int64_t k = 0; k < s[op.p[0]]; ++k) { q[op.p[0]] = k; i128 x = in[0]->v[flat(q, s)]; best = first ? x : red1(op.p[1], best, x); first = false; pair = pair || (x == out[0]->v[j] && in[1]->v[flat(q, s)] == out[1]->v[j]); }
      if (best != out[0]->v[j]) return cat("element ", j, " is not the extremum");
      if (!pair) return cat("element ", j, " is paired with a value that does not belong to it");
    }
    return "";
  }));
  auto win_gen = [](HGen& G, HOp& op, int a, bool pad, bool dil) {
    Shp s = G.reg(a).shape, w, t, wd, bd, lo, hi, to;
    for (auto n : s) {
      int64_t base = n;
      bd.push_back(dil && G.g.chance(0.25) ? 2 : 1); lo.push_back(pad && G.g.chance(0.3) ? G.g.range(0, 2) : 0); hi.push_back(pad && G.g.chance(0.3) ? G.g.range(0, 2) : 0);
      base = (n - 1) * bd.back() + 1 + lo.back() + hi.back();
      w.push_back(G.g.range(1, std::min<int64_t>(base, 3))); wd.push_back(dil && G.g.chance(0.25) && (w.back() - 1) * 2 + 1 <= base ? 2 : 1); t.push_back(G.g.range(1, 2));
      to.push_back((base - ((w.back() - 1) * wd.back() + 1)) / t.back() + 1);
    }
    op.sp = {w, t, wd, bd, lo, hi, to};
    return numel(to) * numel(w) <= 48;
  };
  auto config = [](const HOp& op, std::vector<std::pair<int64_t, int64_t>>& pads) {
    hlo::ReduceWindowConfig g;
    g.window_shape = shp(op.sp[0]); g.window_strides = str(op.sp[1]); g.window_dilations = siz(op.sp[2]); g.base_dilations = siz(op.sp[3]);
    pads.clear(); for (size_t k = 0; k < op.sp[4].size(); ++k) pads.emplace_back(op.sp[4][k], op.sp[5][k]);
    g.window_padding = pads;
    return g;
  };
  d.push_back(def("reduce_window", 2, [win_gen](HGen& G, HOp& op) { int a = any_reg(G, 1, 3); op.in = {a, typed(G, a, {})}; op.p = {red_kind(G, G.reg(a).cls)}; return win_gen(G, op, a, true, true); },
    [config](SPUContext* c, const Vals& in, const HOp& op, int) {
      std::vector<std::pair<int64_t, int64_t>> pads;
      auto g = config(op, pads);
      return hlo::ReduceWindow(c, Vals{in[0]}, Vals{in[1]}, shp(op.sp[6]), g, [&](absl::Span<const Value> l, absl::Span<const Value> q) { return Vals{red_op(c, op.p[0], l[0], q[0])}; });
    }, [](const HCtx& c, const Ins& in, const HOp& op, Exps& o) {
      int n = static_cast<int>(numel(op.sp[0])) + 2;
      if (!room(c, *in[0], n) || !room(c, *in[1], n)) return false;
      const Shp& s = in[0]->shape;
      std::vector<i128> r;
      for (int64_t i = 0; i < numel(op.sp[6]); ++i) {
        Shp q = unflat(i, op.sp[6]);
        i128 acc = in[1]->v[0];
        for (int64_t j = 0; j < numel(op.sp[0]); ++j) {
          Shp u = unflat(j, op.sp[0]), b(s.size());
          bool inside = true;
          for (size_t k = 0; k < s.size(); ++k) { int64_t x = q[k] * op.sp[1][k] + u[k] * op.sp[2][k] - op.sp[4][k]; if (x < 0 || x % op.sp[3][k] || x / op.sp[3][k] >= s[k]) inside = false; else b[k] = x / op.sp[3][k]; }
          acc = red1(op.p[0], acc, inside ? in[0]->v[flat(b, s)] : in[1]->v[0]);
        }
        r.push_back(acc);
      }
      o.push_back(same(*in[0], op.sp[6], r));
      return true;
    }));
  auto onehot_judge = [](const HCtx&, const Ins& in, const Ins& out, const HOp& op) -> std::string {
    const Shp& s = in[0]->shape;
    int64_t W = numel(op.sp[0]);
    for (int64_t i = 0; i < numel(op.sp[6]); ++i) {
      Shp q = unflat(i, op.sp[6]);
      i128 best = 0; int64_t ones = 0; bool at = false;
      for (int64_t j = 0; j < W; ++j) {
        Shp u = unflat(j, op.sp[0]), b(s.size());
        for (size_t k = 0; k < s.size(); ++k) b[k] = q[k] * op.sp[1][k] + u[k];
        i128 x = in[0]->v[flat(b, s)];
        best = j == 0 ? x : std::max(best, x);
        i128 h = out[1]->v[i * W + j];
        if (h != 0 && h != 1) return "the mask of the maximum is not boolean";
        ones += h == 1;
        if (h == 1) at = x == out[0]->v[i];
      }
      if (best != out[0]->v[i]) return cat("window ", i, ": the maximum is wrong");
      if (ones != 1 || !at) return cat("window ", i, ": the mask does not point at one maximum");
    }
    return "";
  };
  d.push_back(def("argmax", 1.5, [win_gen](HGen& G, HOp& op) {
    bool fast = G.g.chance(0.45);
    int a;
    if (fast) {
      Shp s{G.g.range(1, 2), G.g.range(2, 4), G.g.range(2, 4), G.g.range(1, 2)};
      bool fx = G.g.chance(0.5);
      a = G.add_input(G.fresh(fx ? 'F' : 'I', s, fx ? G.reals(numel(s), 0, 100) : G.ints(numel(s), 10)));
      Shp t{1, G.g.range(1, 2), G.g.range(1, 2), 1}, one{1, 1, 1, 1}, z{0, 0, 0, 0};
      op.sp = {{1, 2, 2, 1}, t, one, one, z, z, {s[0], (s[1] - 2) / t[1] + 1, (s[2] - 2) / t[2] + 1, s[3]}};
    } else {
      a = num_reg(G, 1, 3);
      if (!win_gen(G, op, a, false, false)) return false;
    }
    op.in = {a};
    return numel(op.sp[0]) > 1;
  }, [config](SPUContext* c, const Vals& in, const HOp& op, int) {
    std::vector<std::pair<int64_t, int64_t>> pads;
    auto g = config(op, pads);
    auto r = hlo::ArgMax(c, in[0], shp(op.sp[6]), g);
    return Vals{r.first, r.second};
  }, [](const HCtx& c, const Ins& in, const HOp& op, Exps& o) {
    if (!room(c, *in[0], 2)) return false;
    Shp to = op.sp[6]; to.push_back(numel(op.sp[0]));
    o.push_back(same(*in[0], op.sp[6], std::vector<i128>(numel(op.sp[6])))); o.push_back(exact('B', DT_I1, to, std::vector<i128>(numel(to))));
    return true;
  }, onehot_judge));
  // base = (N-1)*S + W in each dimension, as the compiler arranges
  auto scatter_gen = [](HGen& G, HOp& op, bool maxpool) {
    int rank = static_cast<int>(G.g.range(1, 2));
    Shp n, w, t, b, one, z;
    for (int k = 0; k < rank; ++k) { n.push_back(G.g.range(1, 3)); w.push_back(G.g.range(1, 3)); t.push_back(G.g.range(1, 3)); b.push_back((n[k] - 1) * t[k] + w[k]); one.push_back(1); z.push_back(0); }
    if (numel(w) < 2 || numel(n) * numel(w) > 24) return false;
    bool fx = G.g.chance(0.5);
    int a = G.add_input(G.fresh(fx ? 'F' : 'I', b, fx ? G.reals(numel(b), 0, 50) : G.ints(numel(b), 6)));
    op.in = {a, typed(G, a, n)};
    op.sp = {w, t, one, one, z, z, n};
    op.p = {maxpool ? 1 : G.g.range(0, 1), maxpool};
    return true;
  };
  auto scatter_ref = [](const HCtx& c, const Ins& in, const HOp& op, Exps& o) {
    if (!room(c, *in[0], 2) || !room(c, *in[1], static_cast<int>(numel(op.sp[6])) + 2)) return false;
    o.push_back(same(*in[1], in[0]->shape, std::vector<i128>(in[0]->v.size())));
    return true;
  };
  // ties may be resolved either way: search for a choice that explains the result
  auto scatter_judge = [](const HCtx&, const Ins& in, const Ins& out, const HOp& op) -> std::string {
    const Shp &s = in[0]->shape, &n = op.sp[6], &w = op.sp[0];
    int64_t N = numel(n);
    std::vector<std::vector<int64_t>> cand(N);
    for (int64_t i = 0; i < N; ++i) {
      Shp q = unflat(i, n);
      i128 best = 0;
      for (int64_t j = 0; j < numel(w); ++j) {
        Shp u = unflat(j, w), b(s.size());
        for (size_t k = 0; k < s.size(); ++k) b[k] = q[k] * op.sp[1][k] + u[k];
        int64_t f = flat(b, s);
        i128 x = in[0]->v[f];
        if (j == 0 || (op.p[0] ? x > best : x < best)) { best = x; cand[i].clear(); }
        if (x == best) cand[i].push_back(f);
      }
    }
    double combos = 1;
    for (auto& x : cand) combos *= static_cast<double>(x.size());
    i128 total = 0, got = 0;
    for (auto x : in[1]->v) total += x;
    for (auto x : out[0]->v) got += x;
    if (total != got) return "the scattered values do not add up to the source";
    if (combos > 4096) return "";
    std::vector<size_t> pick(N, 0);
    for (;;) {
      std::vector<i128> r(in[0]->v.size(), 0);
      for (int64_t i = 0; i < N; ++i) r[cand[i][pick[i]]] += in[1]->v[i];
      if (r == out[0]->v) return "";
      int64_t k = 0;
      while (k < N && ++pick[k] == cand[k].size()) pick[k++] = 0;
      if (k == N) return "values were scattered to positions that were not selected";
    }
  };
  d.push_back(def("select_and_scatter", 1, [scatter_gen](HGen& G, HOp& op) { return G.c.k != 32 && scatter_gen(G, op, false); },
    [](SPUContext* c, const Vals& in, const HOp& op, int) {
      std::vector<std::pair<int64_t, int64_t>> pads(op.sp[0].size(), {0, 0});
      auto zero = hal::zeros(c, in[1].dtype(), {});
      return Vals{hlo::SelectAndScatter(c, in[0], in[1], zero, shp(op.sp[0]), str(op.sp[1]), pads, [&](const Value& a, const Value& b) { return op.p[0] ? hlo::GreaterEqual(c, a, b) : hlo::LessEqual(c, a, b); }, [&](const Value& a, const Value& b) { return hlo::Add(c, a, b); })};
    }, scatter_ref, scatter_judge));
  d.push_back(def("max_pool_scatter", 1, [scatter_gen](HGen& G, HOp& op) { return scatter_gen(G, op, true); },
    [config](SPUContext* c, const Vals& in, const HOp& op, int) {
      std::vector<std::pair<int64_t, int64_t>> pads;
      auto g = config(op, pads);
      auto m = hlo::ArgMax(c, in[0], shp(op.sp[6]), g);
      return Vals{hlo::MaxPoolScatter(c, m.second, in[1], shp(op.sp[0]), in[0].shape(), str(op.sp[1]), pads)};
    }, scatter_ref, scatter_judge));
  d.push_back(def("convolution", 1.5, [](HGen& G, HOp& op) {
    Shp a{G.g.range(1, 2), G.g.range(2, 4), G.g.range(2, 4), G.g.range(1, 2)}, b{G.g.range(1, std::min<int64_t>(a[1], 3)), G.g.range(1, std::min<int64_t>(a[2], 3)), a[3], G.g.range(1, 2)};
    Shp t{G.g.range(1, 2), G.g.range(1, 2)};
    std::vector<std::string> ks{"II", "FF", "FF", "FI", "IF"};
    auto k = ks[G.g.below(ks.size())];
    auto mk = [&](char cls, const Shp& sh) { return G.add_input(G.fresh(cls, sh, cls == 'I' ? G.ints(numel(sh), 8) : G.reals(numel(sh), 0, G.c.k == 32 ? 6 : 100))); };
    op.in = {mk(k[0], a), mk(k[1], b)};
    op.sp = {t, {a[0], (a[1] - b[0]) / t[0] + 1, (a[2] - b[1]) / t[1] + 1, b[3]}};
    return numel(op.sp[1]) <= 18;
  }, [](SPUContext* c, const Vals& in, const HOp& op, int) {
    hlo::ConvolutionConfig g;
    g.window_strides = str(op.sp[0]);
    g.inputBatchDimension = 0; g.inputFeatureDimension = 3; g.inputSpatialDimensions = {1, 2};
    g.kernelInputFeatureDimension = 2; g.kernelOutputFeatureDimension = 3; g.kernelSpatialDimensions = {0, 1};
    g.outputBatchDimension = 0; g.outputFeatureDimension = 3; g.outputSpatialDimensions = {1, 2};
    return Vals{hlo::Convolution2D(c, in[0], in[1], g, shp(op.sp[1]))};
  }, [](const HCtx& c, const Ins& in, const HOp& op, Exps& o) {
    const Shp &a = in[0]->shape, &b = in[1]->shape, &to = op.sp[1];
    bool f0 = in[0]->cls == 'F', f1 = in[1]->cls == 'F';
    std::vector<i128> v; std::vector<ld> re, tol;
    for (int64_t i = 0; i < numel(to); ++i) {
      Shp q = unflat(i, to);
      i128 s = 0; ld mag = 0;
      for (int64_t y = 0; y < b[0]; ++y) for (int64_t x = 0; x < b[1]; ++x) for (int64_t ch = 0; ch < b[2]; ++ch) {
        i128 l = in[0]->v[flat({q[0], q[1] * op.sp[0][0] + y, q[2] * op.sp[0][1] + x, ch}, a)], r = in[1]->v[flat({y, x, ch, q[3]}, b)];
        mag += std::fabs(static_cast<ld>(l) * static_cast<ld>(r));
        if (mag >= static_cast<ld>(c.lim())) return false;
        s += l * r;
      }
      v.push_back(s); re.push_back(static_cast<ld>(s) / std::pow(2.0L, c.f)); tol.push_back(c.E());
      if (f0 != f1) re.back() = static_cast<ld>(s);
    }
    DataType dt = f0 == f1 ? common(in[0]->dt, in[1]->dt) : f0 ? in[0]->dt : in[1]->dt;
    o.push_back(f0 || f1 ? approx(c, 'F', dt, to, re, tol) : exact('I', dt, to, v));
    return true;
  }));
}
// ---- order -------------------------------------------------------------------
static bool has_radix(SPUContext* c) { return c->hasKernel("rand_perm_m") && c->hasKernel("perm_am") && c->hasKernel("perm_ap") && c->hasKernel("inv_perm_am") && c->hasKernel("inv_perm_ap"); }
static bool proto_radix(const Spec& s) { return s.proto == kSemi2k || s.proto == kAby3 || s.proto == kCheetah; }
// rows along one dimension
static std::vector<std::vector<int64_t>> rows(const Shp& s, int64_t ax) {
  std::vector<std::vector<int64_t>> o;
  Shp t = s; t[ax] = 1;
  for (int64_t i = 0; i < numel(t); ++i) { Shp q = unflat(i, t); std::vector<int64_t> r; for (int64_t k = 0; k < s[ax]; ++k) { q[ax] = k; r.push_back(flat(q, s)); } o.push_back(r); }
  return o;
}
using Tup = std::vector<i128>;
static std::string order_judge(const Ins& in, const Ins& out, int64_t ax, int keys, bool desc, bool stable) {
  for (auto& r : rows(in[0]->shape, ax)) {
    std::vector<Tup> a, b;
    for (auto i : r) { Tup x, y; for (auto* v : in) x.push_back(v->v[i]); for (auto* v : out) y.push_back(v->v[i]); a.push_back(x); b.push_back(y); }
    auto less = [&](const Tup& x, const Tup& y) { for (int k = 0; k < keys; ++k) if (x[k] != y[k]) return desc ? x[k] > y[k] : x[k] < y[k]; return false; };
    for (size_t i = 1; i < b.size(); ++i) if (less(b[i], b[i - 1])) return "the result is not ordered";
    if (stable) { std::stable_sort(a.begin(), a.end(), less); if (a != b) return "the result is not the stable order of the operands"; }
    else { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) return "the result is not a permutation of the operands"; }
  }
  return "";
}
static bool multi_ref(const HCtx& c, const Ins& in, Exps& o) {
  for (auto* v : in) { if (v->shape != in[0]->shape || (v->cls != 'B' && !room(c, *v, 2))) return false; o.push_back(same(*v, v->shape, std::vector<i128>(v->v.size()))); }
  return true;
}
static int sort_key(HGen& G, const Shp& sh, bool small) {
  int64_t n = numel(sh);
  bool fx = G.g.chance(0.4);
  HV v = G.fresh(fx ? 'F' : 'I', sh, small ? G.ints(n, 2) : fx ? G.reals(n, 0, 500) : G.ints(n, 20));
  return G.add_input(v);
}
static void orders(std::vector<HDef>& d) {
  d.push_back(def("simple_sort", 3, [](HGen& G, HOp& op) {
    Shp sh = G.g.chance(0.7) ? Shp{G.g.range(1, 9)} : Shp{G.g.range(1, 3), G.g.range(1, 5)};
    int nk = static_cast<int>(G.g.range(1, 2)), np = static_cast<int>(G.g.range(0, 2));
    for (int i = 0; i < nk; ++i) op.in.push_back(sort_key(G, sh, G.g.chance(0.5)));
    if (G.g.chance(0.3)) op.in[0] = G.operand([&](const HV& v) { return v.shape == sh && v.cls != 'B'; }, [&] { return G.fresh('I', sh, G.ints(numel(sh), 6)); });
    for (int i = 0; i < np; ++i) op.in.push_back(G.add_input(G.fresh('I', sh, G.ints(numel(sh), 12))));
    int bits = -1;
    bool pub = true;
    for (int i = 0; i < nk; ++i) pub = pub && G.reg(op.in[i]).vis == 'p';
    // the caller may promise that the keys are small and not negative
    if (!pub && G.g.chance(0.25)) { bits = 8; for (int i = 0; i < nk; ++i) op.in[i] = G.add_input(G.fresh('I', sh, G.ints(numel(sh), static_cast<int>(G.g.range(1, 7)), false))); }
    bool stable = G.g.chance(0.35) && (proto_radix(G.s) || pub);
    if (proto_radix(G.s) == false && stable) for (int i = 0; i < nk; ++i) if (G.reg(op.in[i]).vis != 'p') stable = false;
    op.p = {static_cast<int64_t>(G.g.below(sh.size())), G.g.chance(0.5), nk, bits, stable};
    return true;
  }, [](SPUContext* c, const Vals& in, const HOp& op, int) {
    return hlo::SimpleSort(c, in, op.p[0], op.p[1] ? hal::SortDirection::Descending : hal::SortDirection::Ascending, op.p[2], op.p[3], op.p[4] != 0);
  }, [](const HCtx& c, const Ins& in, const HOp& op, Exps& o) {
    if (op.p[3] > 0) for (int k = 0; k < op.p[2]; ++k) for (auto x : in[k]->v) if (x < 0 || x >= (i128(1) << (op.p[3] - 1))) return false;
    return multi_ref(c, in, o);
  },
  [](const HCtx&, const Ins& in, const Ins& out, const HOp& op) { return order_judge(in, out, op.p[0], static_cast<int>(op.p[2]), op.p[1], op.p[4]); }));
  // several keys of several owners, signed and unsigned, narrow ranges promised by the caller
  d.push_back(def("sort_keys", 2, [](HGen& G, HOp& op) {
    Shp sh{G.g.range(1, 9)};
    int nk = static_cast<int>(G.g.range(2, 4)), np = static_cast<int>(G.g.range(0, 1));
    int64_t uns = 0, bits = G.g.chance(0.4) ? G.g.range(3, 9) : -1;
    bool pub = true;
    for (int i = 0; i < nk; ++i) {
      bool u = G.g.chance(0.4);
      int w = static_cast<int>(bits > 0 ? std::min<int64_t>(bits, 8) : G.g.range(1, 8));
      if (G.g.chance(0.4)) w = std::min(w, 2);
      HV v = lit(G, 'I', G.c.k == 32 ? DT_I32 : DT_I64, sh, {});
      for (int64_t j = 0; j < sh[0]; ++j) v.v.push_back(u ? G.g.range(0, (int64_t{1} << w) - 1) : G.g.range(-(int64_t{1} << (w - 1)), (int64_t{1} << (w - 1)) - 1));
      op.in.push_back(G.add_input(v));
      if (u) uns |= 1 << i;
      pub = pub && G.reg(op.in[i]).vis == 'p';
    }
    for (int i = 0; i < np; ++i) op.in.push_back(G.add_input(G.fresh('I', sh, G.ints(sh[0], 12))));
    op.p = {0, G.g.chance(0.5), nk, bits, G.g.chance(0.5) && (proto_radix(G.s) || pub), uns};
    return true;
  }, [](SPUContext* c, const Vals& in, const HOp& op, int) {
    Vals x(in.begin(), in.end());
    for (int i = 0; i < op.p[2]; ++i) if (op.p[5] >> i & 1) x[i] = x[i].clone().setDtype(DT_U8, true);
    auto r = hlo::SimpleSort(c, x, op.p[0], op.p[1] ? hal::SortDirection::Descending : hal::SortDirection::Ascending, op.p[2], op.p[3], op.p[4] != 0);
    for (size_t i = 0; i < r.size(); ++i) r[i] = r[i].setDtype(in[i].dtype(), true);
    return r;
  }, [](const HCtx& c, const Ins& in, const HOp& op, Exps& o) {
    for (int k = 0; k < op.p[2]; ++k) for (auto x : in[k]->v) {
      int64_t w = op.p[3] > 0 ? std::min<int64_t>(op.p[3], 8) : 8;
      bool u = op.p[5] >> k & 1;
      if (u ? x < 0 || x >= (i128(1) << w) : x < -(i128(1) << (w - 1)) || x >= (i128(1) << (w - 1))) return false;
    }
    return multi_ref(c, in, o);
  },
  [](const HCtx&, const Ins& in, const Ins& out, const HOp& op) { return order_judge(in, out, op.p[0], static_cast<int>(op.p[2]), op.p[1], op.p[4]); }));
  d.push_back(def("sort", 1.5, [](HGen& G, HOp& op) {
    Shp sh = G.g.chance(0.7) ? Shp{G.g.range(1, 8)} : Shp{G.g.range(1, 3), G.g.range(1, 4)};
    op.in = {sort_key(G, sh, G.g.chance(0.5)), G.add_input(G.fresh('I', sh, G.ints(numel(sh), 12)))};
    bool pub = G.reg(op.in[0]).vis == 'p';
    op.p = {static_cast<int64_t>(G.g.below(sh.size())), G.g.chance(0.5), 1, -1, pub && G.g.chance(0.5), pub};
    return true;
  }, [](SPUContext* c, const Vals& in, const HOp& op, int) {
    return hlo::Sort(c, in, op.p[0], op.p[4] != 0, [&](absl::Span<const Value> v) { return op.p[1] ? hlo::Greater(c, v[0], v[1]) : hlo::Less(c, v[0], v[1]); }, op.p[5] ? VIS_PUBLIC : VIS_SECRET);
  }, [](const HCtx& c, const Ins& in, const HOp&, Exps& o) { return multi_ref(c, in, o); },
  [](const HCtx&, const Ins& in, const Ins& out, const HOp& op) { return order_judge(in, out, op.p[0], 1, op.p[1], op.p[4]); }));
  d.push_back(def("topk", 1.5, [](HGen& G, HOp& op) {
    Shp sh = G.g.chance(0.7) ? Shp{G.g.range(1, 9)} : Shp{G.g.range(1, 3), G.g.range(1, 5)};
    op.in = {sort_key(G, sh, G.g.chance(0.5))};
    int64_t lo = G.g.range(1, sh.back());
    op.p = {lo, G.g.chance(0.4) ? -1 : G.g.range(lo, sh.back()), G.g.chance(0.5), G.g.chance(0.4)};
    return true;
  }, [](SPUContext* c, const Vals& in, const HOp& op, int) { return hlo::TopK(c, in[0], op.p[0], op.p[1], op.p[2] != 0, op.p[3] != 0); },
  [](const HCtx& c, const Ins& in, const HOp& op, Exps& o) {
    if (!room(c, *in[0], 2)) return false;
    Shp to = in[0]->shape;
    to.back() = op.p[1] == -1 ? op.p[0] : op.p[1];
    o.push_back(same(*in[0], to, std::vector<i128>(numel(to))));
    if (!op.p[3]) o.push_back(exact('I', idx_dt(c), to, std::vector<i128>(numel(to))));
    return true;
  }, [](const HCtx&, const Ins& in, const Ins& out, const HOp& op) -> std::string {
    int64_t W = in[0]->shape.back(), K = out[0]->shape.back();
    for (int64_t r = 0; r < numel(in[0]->shape) / W; ++r) {
      std::vector<i128> x(in[0]->v.begin() + r * W, in[0]->v.begin() + (r + 1) * W), y(out[0]->v.begin() + r * K, out[0]->v.begin() + (r + 1) * K);
      if (op.p[2]) std::sort(x.rbegin(), x.rend()); else std::sort(x.begin(), x.end());
      if (y[op.p[0] - 1] != x[op.p[0] - 1]) return cat("the element of rank ", op.p[0], " is wrong");
      // the first k_lo are the best k_lo and all k_hi are the best k_hi, in any order
      for (int64_t k : {op.p[0], K}) { std::vector<i128> a(x.begin(), x.begin() + k), b(y.begin(), y.begin() + k); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) return cat("the best ", k, " are wrong"); }
      if (!op.p[3]) {
        std::set<i128> seen;
        for (int64_t k = 0; k < K; ++k) {
          i128 q = out[1]->v[r * K + k];
          if (q < 0 || q >= W || !seen.insert(q).second) return "an index is out of range or repeated";
          if (in[0]->v[r * W + static_cast<int64_t>(q)] != y[k]) return "an index does not point at its value";
        }
      }
    }
    return "";
  }));
  d.push_back(def("shuffle", 1, [](HGen& G, HOp& op) {
    Shp sh = G.g.chance(0.6) ? Shp{G.g.range(1, 8)} : Shp{G.g.range(1, 3), G.g.range(1, 4)};
    int n = static_cast<int>(G.g.range(1, 3));
    for (int i = 0; i < n; ++i) { int64_t e = numel(sh); bool fx = G.g.chance(0.4); op.in.push_back(G.add_input(G.fresh(fx ? 'F' : 'I', sh, fx ? G.reals(e, 0, 100) : G.ints(e, 12)))); }
    op.p = {static_cast<int64_t>(G.g.below(sh.size()))};
    return true;
  }, [](SPUContext* c, const Vals& in, const HOp& op, int) { return hlo::Shuffle(c, in, op.p[0]); },
  [](const HCtx& c, const Ins& in, const HOp&, Exps& o) { return multi_ref(c, in, o); },
  [](const HCtx&, const Ins& in, const Ins& out, const HOp& op) { return order_judge(in, out, op.p[0], 0, false, false); }));
  auto perm = [](const char* name, double w, bool inv) {
    return def(name, w, [](HGen& G, HOp& op) {
      if (!proto_radix(G.s)) return false;
      int64_t n = G.g.range(1, 8);
      Shp sh = G.g.chance(0.7) ? Shp{n} : G.g.chance(0.5) ? Shp{n, G.g.range(1, 3)} : Shp{G.g.range(1, 3), n};
      int64_t ax = sh.size() == 1 || sh[0] == n ? 0 : 1;
      int cnt = static_cast<int>(G.g.range(1, 2));
      HV f0;
      for (int i = 0; i < cnt; ++i) {
        int64_t e = numel(sh); bool fx = G.g.chance(0.4);
        HV v = G.fresh(fx ? 'F' : 'I', sh, fx ? G.reals(e, 0, 100) : G.ints(e, 12));
        if (i == 0) f0 = v;
        v.vis = f0.vis; v.owner = f0.owner; v.sty = f0.sty;
        op.in.push_back(G.add_input(v));
      }
      std::vector<i128> p; for (auto x : rand_perm(G, n)) p.push_back(x);
      op.in.push_back(G.add_input(lit(G, 'I', idx_dt(G.c), {n}, p)));
      op.p = {ax};
      return true;
    }, [inv](SPUContext* c, const Vals& in, const HOp& op, int) {
      Vals x(in.begin(), in.end() - 1);
      return inv ? hlo::InvPermute(c, x, in.back(), op.p[0]) : hlo::Permute(c, x, in.back(), op.p[0]);
    }, [inv](const HCtx&, const Ins& in, const HOp& op, Exps& o) {
      auto& p = in.back()->v;
      std::set<i128> once(p.begin(), p.end());
      if (once.size() != p.size() || *once.begin() != 0 || *once.rbegin() != static_cast<i128>(p.size()) - 1) return false;
      for (size_t j = 0; j + 1 < in.size(); ++j) {
        auto r = in[j]->v;
        for (auto& row : rows(in[j]->shape, op.p[0])) for (size_t i = 0; i < row.size(); ++i) { if (inv) r[row[static_cast<size_t>(p[i])]] = in[j]->v[row[i]]; else r[row[i]] = in[j]->v[row[static_cast<size_t>(p[i])]]; }
        o.push_back(same(*in[j], in[j]->shape, r));
      }
      return true;
    });
  };
  d.push_back(perm("permute", 1, false));
  d.push_back(perm("inv_permute", 1, true));
  // keys public, or private to one party
  auto group = [](const char* name, double w, bool avg) {
    return def(name, w, [avg](HGen& G, HOp& op) {
      if (!proto_radix(G.s) || (avg && G.c.k == 32)) return false;
      int64_t n = G.g.range(1, 8);
      int nk = static_cast<int>(G.g.range(1, 2)), np = static_cast<int>(G.g.range(1, 2));
      char vis = G.g.chance(0.75) ? 'v' : 'p';
      int owner = static_cast<int>(G.g.range(0, G.s.npc - 1));
      for (int i = 0; i < nk; ++i) { HV k = lit(G, 'I', idx_dt(G.c), {n}, G.ints(n, 2)); k.vis = vis; k.owner = vis == 'v' ? owner : -1; op.in.push_back(G.add_input(k)); }
      HV first;
      for (int i = 0; i < np; ++i) { bool fx = avg || G.g.chance(0.5); HV p = G.fresh(fx ? 'F' : 'I', {n}, fx ? G.reals(n, 0, 100) : G.ints(n, 12)); if (i) { p.vis = first.vis; p.owner = first.owner; } else first = p; p.dt = fx ? DT_F32 : idx_dt(G.c); op.in.push_back(G.add_input(p)); }
      op.p = {nk};
      return true;
    }, [avg](SPUContext* c, const Vals& in, const HOp& op, int) {
      Vals k(in.begin(), in.begin() + op.p[0]), p(in.begin() + op.p[0], in.end());
      std::vector<int64_t> bits;
      return hlo::GroupByAgg(c, k, p, avg ? hlo::AggFunc::Avg : hlo::AggFunc::Sum, absl::MakeSpan(bits));
    }, [](const HCtx& c, const Ins& in, const HOp&, Exps& o) {
      for (auto* v : in) if (!room(c, *v, 16)) return false;
      for (auto* v : in) o.push_back(same(*v, v->shape, std::vector<i128>(v->v.size())));
      return true;
    }, [avg](const HCtx& c, const Ins& in, const Ins& out, const HOp& op) -> std::string {
      std::map<Tup, std::vector<std::vector<i128>>> groups;
      size_t nk = op.p[0], np = in.size() - nk;
      for (size_t i = 0; i < in[0]->v.size(); ++i) { Tup k; for (size_t j = 0; j < nk; ++j) k.push_back(in[j]->v[i]); auto& g = groups[k]; g.resize(np); for (size_t j = 0; j < np; ++j) g[j].push_back(in[nk + j]->v[i]); }
      size_t i = 0;
      for (auto& [k, g] : groups) {
        for (size_t j = 0; j < nk; ++j) if (out[j]->v[i] != k[j]) return cat("group ", i, " has the wrong key");
        for (size_t j = 0; j < np; ++j) {
          i128 s = 0;
          for (auto x : g[j]) s += x;
          if (!avg) { if (out[nk + j]->v[i] != s) return cat("group ", i, " has the wrong sum"); }
          else {
            ld want = static_cast<ld>(s) / static_cast<ld>(g[j].size()), err = std::fabs(static_cast<ld>(out[nk + j]->v[i]) - want);
            ld rel = c.f >= 30 || c.s->conf.fxp_div_goldschmidt_iters >= 3 ? 1e-8L : 7e-5L, mag = 0;
            for (auto x : g[j]) mag += std::fabs(static_cast<ld>(x));
            if (err > c.E() + 2 + c.val(static_cast<i128>(mag)) * (4 + 2 * c.E()) + mag * rel) return cat("group ", i, " has the wrong average, off by ", static_cast<double>(err), " ulp");
          }
        }
        ++i;
      }
      return "";
    });
  };
  d.push_back(group("group_by_sum", 1, false));
  d.push_back(group("group_by_avg", 0.5, true));
}
// ---- control flow ----------------------------------------------------------------
static void control(std::vector<HDef>& d) {
  d.push_back(def("if_else", 1.5, [](HGen& G, HOp& op) {
    int a = num_reg(G, 0, 2), b = typed(G, a, G.reg(a).shape);
    bool scalar = G.reg(a).shape.empty();
    HV p = G.fresh('B', {}, G.bools(1));
    if (p.vis == 'v') { p.vis = 's'; p.owner = -1; }
    if (!scalar) { p.vis = 'p'; p.owner = -1; }  // a secret condition selects between results of its own shape
    op.in = {G.add_input(p), a, b};
    return true;
  }, [](SPUContext* c, const Vals& in, const HOp&, int) {
    return hlo::IfElse(c, in[0], [&] { return Vals{hlo::Add(c, in[1], in[2]), in[1]}; }, [&] { return Vals{hlo::Sub(c, in[1], in[2]), in[2]}; });
  }, [](const HCtx& c, const Ins& in, const HOp&, Exps& o) {
    if (!room(c, *in[1], 4) || !room(c, *in[2], 4)) return false;
    auto r = in[1]->v, q = in[1]->v;
    bool t = in[0]->v[0] != 0;
    for (size_t i = 0; i < r.size(); ++i) { r[i] = t ? in[1]->v[i] + in[2]->v[i] : in[1]->v[i] - in[2]->v[i]; q[i] = t ? in[1]->v[i] : in[2]->v[i]; }
    o.push_back(same(*in[1], in[1]->shape, r)); o.push_back(same(*in[1], in[1]->shape, q));
    return true;
  }));
  d.push_back(def("case", 1.5, [](HGen& G, HOp& op) {
    int a = num_reg(G, 0, 2), b = typed(G, a, G.reg(a).shape);
    int64_t n = G.g.range(1, 4);
    op.in = {G.add_input(lit(G, 'I', DT_I32, {}, {G.g.chance(0.7) ? G.g.range(0, n - 1) : G.g.range(-3, n + 2)})), a, b};
    op.p = {n};
    return G.reg(op.in[0]).vis != 'v';
  }, [](SPUContext* c, const Vals& in, const HOp& op, int) {
    std::vector<hlo::BranchFcnT> br;
    for (int64_t i = 0; i < op.p[0]; ++i) br.push_back([&, i]() -> Vals { return i == 0 ? Vals{in[1], in[2]} : i == 1 ? Vals{hlo::Add(c, in[1], in[2]), in[1]} : i == 2 ? Vals{hlo::Sub(c, in[1], in[2]), in[2]} : Vals{hlo::Neg(c, in[1]), in[1]}; });
    return hlo::Case(c, in[0], br);
  }, [](const HCtx& c, const Ins& in, const HOp& op, Exps& o) {
    if (!room(c, *in[1], 4) || !room(c, *in[2], 4)) return false;
    i128 b = in[0]->v[0];
    if (b < 0 || b >= op.p[0]) b = op.p[0] - 1;
    auto r = in[1]->v, q = in[1]->v;
    for (size_t i = 0; i < r.size(); ++i) { i128 x = in[1]->v[i], y = in[2]->v[i]; r[i] = b == 0 ? x : b == 1 ? x + y : b == 2 ? x - y : -x; q[i] = b == 0 || b == 2 ? y : x; }
    o.push_back(same(*in[1], in[1]->shape, r)); o.push_back(same(*in[1], in[1]->shape, q));
    return true;
  }));
  d.push_back(def("while", 1, [](HGen& G, HOp& op) {
    int a = num_reg(G, 0, 2), b = typed(G, a, G.reg(a).shape);
    op.in = {a, b};
    op.p = {G.g.range(0, 4)};
    return true;
  }, [](SPUContext* c, const Vals& in, const HOp& op, int) {
    auto n = hal::constant(c, static_cast<int32_t>(op.p[0]), DT_I32, {});
    auto r = hlo::While(c, Vals{in[0], in[1], hal::constant(c, 0, DT_I32, {})}, [&](absl::Span<const Value> v) { return hlo::Less(c, v[2], n); },
      [&](absl::Span<const Value> v) { return Vals{hlo::Add(c, v[0], v[1]), v[1], hlo::Add(c, v[2], hal::constant(c, 1, DT_I32, {}))}; });
    return Vals{r[0]};
  }, [](const HCtx& c, const Ins& in, const HOp& op, Exps& o) {
    if (!room(c, *in[0], 8) || !room(c, *in[1], 8)) return false;
    auto r = in[0]->v;
    for (size_t i = 0; i < r.size(); ++i) r[i] += in[1]->v[i] * op.p[0];
    o.push_back(same(*in[0], in[0]->shape, r));
    return true;
  }));
  d.push_back(def("soprf", 0.7, [](HGen& G, HOp& op) {
    if (G.s.proto != kSemi2k) return false;
    Shp sh{G.g.range(1, 6)};
    int a = G.add_input(lit(G, 'I', idx_dt(G.c), sh, G.ints(sh[0], 2)));
    op.in = {a};
    if (G.g.chance(0.4)) op.in.push_back(G.add_input(lit(G, 'I', idx_dt(G.c), sh, G.ints(sh[0], 1))));
    return true;
  }, [](SPUContext* c, const Vals& in, const HOp&, int) {
    if (in.size() == 1) return Vals{hlo::SoPrf(c, in[0])};
    // the keys of several columns come back in a wider ring: fold what is revealed
    auto r = hlo::Reveal(c, hlo::SoPrf(c, in)).data().clone();
    bool small = c->config().field == FieldType::FM32;
    std::vector<int32_t> v4; std::vector<int64_t> v8;
    for (int64_t i = 0; i < r.numel(); ++i) {
      uint64_t h = 14695981039346656037ull;
      for (int64_t b = 0; b < static_cast<int64_t>(r.elsize()); ++b) h = ((h ^ r.data<uint8_t>()[i * static_cast<int64_t>(r.elsize()) + b]) * 1099511628211ull);
      h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
      v4.push_back(static_cast<int32_t>(h >> 36)); v8.push_back(static_cast<int64_t>(h >> 6));
    }
    return Vals{small ? hal::constant(c, v4, DT_I32, r.shape()) : hal::constant(c, v8, DT_I64, r.shape())};
  },
  [](const HCtx& c, const Ins& in, const HOp&, Exps& o) { o.push_back(exact('I', idx_dt(c), in[0]->shape, std::vector<i128>(in[0]->v.size()))); return true; },
  [](const HCtx&, const Ins& in, const Ins& out, const HOp&) -> std::string {
    for (size_t i = 0; i < out[0]->v.size(); ++i) for (size_t j = 0; j < i; ++j) {
      bool eq = true;
      for (auto* v : in) eq = eq && v->v[i] == v->v[j];
      if (eq != (out[0]->v[i] == out[0]->v[j])) return eq ? "equal elements are mapped to different values" : "different elements are mapped to the same value";
    }
    return "";
  }));
}
static std::vector<HDef> build() {
  std::vector<HDef> d;
  shapes(d); indexing(d); windows(d); orders(d); control(d);
  return d;
}
const std::vector<HDef>& hl_move() { static const std::vector<HDef> v = build(); return v; }
}  // namespace h
