#include "hl.h"

#include "libspu/core/config.h"
#include "libspu/kernel/hal/constants.h"
#include "libspu/kernel/hal/prot_wrapper.h"
#include "libspu/kernel/hal/ring.h"
#include "libspu/kernel/hal/type_cast.h"
#include "libspu/mpc/common/pv2k.h"

namespace h {
using namespace spu;
namespace hal = spu::kernel::hal;

static const char* dt_name(DataType d) { switch (d) { case DT_I1: return "i1"; case DT_I32: return "i32"; case DT_I64: return "i64"; case DT_F32: return "f32"; case DT_F64: return "f64"; default: return "?"; } }
static std::string shp_str(const Shp& s) { std::string o; for (auto d : s) o += (o.empty() ? "" : "x") + std::to_string(d); return "<" + o + ">"; }
std::string HProg::str() const {
  std::string o;
  for (auto& op : ops) {
    o += o.empty() ? "" : "; ";
    for (size_t i = 0; i < op.out.size(); ++i) o += cat(i ? "," : "", "%", op.out[i]);
    o += "=" + op.name;
    if (op.name == "in") { o += cat(":", op.input.vis, op.input.sty, ":", dt_name(op.input.dt), shp_str(op.input.shape)); continue; }
    o += "(";
    for (size_t i = 0; i < op.in.size(); ++i) o += cat(i ? "," : "", "%", op.in[i]);
    o += ")";
    if (!op.p.empty()) { o += "["; for (size_t i = 0; i < op.p.size(); ++i) o += cat(i ? "," : "", op.p[i]); o += "]"; }
    for (auto& s : op.sp) o += shp_str(s);
  }
  return o;
}
HGen::HGen(Run& rr, Spec& ss, const std::string& px) : r(rr), s(ss), g(rr.rng("hl" + px)) {
  c.s = &s; c.k = s.k(); c.f = static_cast<int>(s.conf.fxp_fraction_bits);
}
Shp HGen::shape(int lo, int hi) {
  for (;;) {
    int rank = static_cast<int>(g.range(lo, hi));
    Shp o;
    for (int i = 0; i < rank; ++i) o.push_back(g.chance(0.15) ? 1 : g.range(1, rank == 1 ? 8 : 4));
    if (numel(o) <= max_numel) return o;
  }
}
std::vector<i128> HGen::ints(int64_t n, int bits, bool neg) {
  std::vector<i128> o;
  bool small = g.chance(0.4);
  for (int64_t i = 0; i < n; ++i) {
    int b = small ? static_cast<int>(g.range(0, std::min(bits, 3))) : static_cast<int>(g.range(0, bits));
    i128 m = i128(1) << b;
    i128 x = static_cast<i128>((static_cast<u128>(g.next()) << 64 | g.next()) & static_cast<u128>(m - 1));
    if (!small && g.chance(0.1)) x = m - 1;
    o.push_back(neg && g.chance(0.45) ? -x : x);
  }
  return o;
}
std::vector<i128> HGen::reals(int64_t n, ld lo, ld hi, bool neg) {
  std::vector<i128> o;
  ld one = std::pow(2.0L, c.f);
  int mode = static_cast<int>(g.range(0, 3));
  for (int64_t i = 0; i < n; ++i) {
    ld u = static_cast<ld>(g.next() >> 11) / static_cast<ld>(1ULL << 53), x;
    ld l0 = std::max(lo, 1 / one);
    if (mode == 0) x = std::min(hi, std::max(lo, static_cast<ld>(g.range(0, 8)) / 2));          // halves: ties
    else if (mode == 1) x = l0 * std::pow(std::max(hi / l0, 1.0L), u);                            // log uniform
    else if (mode == 2) x = lo + (hi - lo) * u;
    else x = g.chance(0.3) ? lo + static_cast<ld>(g.range(0, 3)) / one : g.chance(0.3) ? hi : lo + (std::min(hi, lo + 4) - lo) * u;
    i128 raw = static_cast<i128>(x * one);
    if (static_cast<ld>(raw) < lo * one) raw += 1;
    o.push_back(neg && g.chance(0.45) ? -raw : raw);
  }
  return o;
}
std::vector<i128> HGen::bools(int64_t n) { std::vector<i128> o; double q = g.pick(std::vector<int64_t>{5, 5, 1, 9}) / 10.0; for (int64_t i = 0; i < n; ++i) o.push_back(g.chance(q)); return o; }
char HGen::pick_vis() {
  if (g.chance(p_priv)) return 'v';
  return g.chance(0.2) ? 'p' : 's';
}
HV HGen::fresh(char cls, const Shp& sh, std::vector<i128> v) {
  HV o;
  o.cls = cls; o.shape = sh; o.v = std::move(v);
  o.dt = cls == 'B' ? DT_I1 : cls == 'I' ? (c.k == 32 || g.chance(0.15) ? DT_I32 : DT_I64) : g.chance(0.04) ? DT_F64 : DT_F32;
  if (cls == 'I' && o.dt == DT_I32) for (auto x : o.v) if (x > INT32_MAX || x < INT32_MIN) o.dt = DT_I64;
  o.vis = pick_vis();
  o.owner = o.vis == 'v' ? static_cast<int>(g.range(0, s.npc - 1)) : -1;
  if (o.vis == 's') o.sty = g.chance(0.6) ? 'x' : g.chance(0.5) ? 'a' : 'b';
  return o;
}
int HGen::add_input(HV v) {
  HOp op;
  op.name = "in"; op.input = v;
  op.out = {static_cast<int>(p.regs.size())};
  p.regs.push_back(std::move(v));
  p.ops.push_back(std::move(op));
  return static_cast<int>(p.regs.size()) - 1;
}
int HGen::find(const Pred& ok) {
  std::vector<int64_t> c2;
  for (size_t i = 0; i < p.regs.size(); ++i) if (ok(p.regs[i])) { c2.push_back(i); if (p.regs[i].vis == 'r') { c2.push_back(i); c2.push_back(i); } }
  return c2.empty() ? -1 : static_cast<int>(g.pick(c2));
}
int HGen::operand(const Pred& ok, const std::function<HV()>& mk, double reuse) {
  if (g.chance(reuse)) { int i = find(ok); if (i >= 0) return i; }
  return add_input(mk());
}
int HGen::any(char cls, int lo, int hi) {
  return operand([&](const HV& v) { return v.cls == cls && static_cast<int>(v.shape.size()) >= lo && static_cast<int>(v.shape.size()) <= hi; }, [&] {
    Shp sh = shape(lo, hi);
    int64_t n = numel(sh);
    return fresh(cls, sh, cls == 'B' ? bools(n) : cls == 'I' ? ints(n, std::min(c.k / 2 - 6, 40)) : reals(n, 0, std::pow(2.0L, std::min(12, (c.k - 2 * c.f) / 2 - 3))));
  });
}
int HGen::like(int q, char cls, const Pred& extra) {
  Shp sh = reg(q).shape;
  return operand([&](const HV& v) { return v.cls == cls && v.shape == sh && (!extra || extra(v)); }, [&] {
    int64_t n = numel(sh);
    HV o;
    for (int t = 0; t < 20; ++t) {
      o = fresh(cls, sh, cls == 'B' ? bools(n) : cls == 'I' ? ints(n, std::min(c.k / 2 - 6, 40)) : reals(n, 0, std::pow(2.0L, std::min(12, (c.k - 2 * c.f) / 2 - 3))));
      if (cls == reg(q).cls && g.chance(0.35)) for (int64_t i = 0; i < n; ++i) if (g.chance(0.4)) o.v[i] = reg(q).v[i] + (cls != 'B' && g.chance(0.2) ? g.range(-1, 1) : 0);
      if (!extra || extra(o)) break;
    }
    return o;
  });
}

static const HDef* find_def(const std::vector<const std::vector<HDef>*>& sets, const std::string& n) {
  for (auto* s : sets) for (auto& d : *s) if (d.name == n) return &d;
  return nullptr;
}
static const std::vector<const std::vector<HDef>*>& all_sets() { static std::vector<const std::vector<HDef>*> v{&hl_math(), &hl_move()}; return v; }

HProg gen_hl(Run& r, Spec& s, const std::vector<const std::vector<HDef>*>& sets, int min_ops, int max_ops, const std::vector<std::string>& only) {
  int n = static_cast<int>(r.draw("n_ops", min_ops, max_ops));
  HGen G(r, s, "");
  std::vector<const HDef*> defs;
  double total = 0;
  for (auto* st : sets) for (auto& d : *st) if (only.empty() || std::find(only.begin(), only.end(), d.name) != only.end()) { defs.push_back(&d); total += d.w; }
  G.max_numel = G.g.chance(0.08) ? 40 : 12;
  for (int i = 0; i < n; ++i) {
    // a skipped operation consumes the same random numbers, it is removed afterwards
    for (int attempt = 0; attempt < 25; ++attempt) {
      double x = static_cast<double>(G.g.next() >> 11) / 9007199254740992.0 * total;
      const HDef* d = defs.back();
      for (auto* e : defs) { if (x < e->w) { d = e; break; } x -= e->w; }
      HProg saved = G.p;
      HOp op;
      op.name = d->name;
      std::vector<Exp> ex;
      std::vector<const HV*> in;
      bool ok = d->gen(G, op);
      if (ok) { for (int q : op.in) in.push_back(&G.p.regs[q]); ok = d->ref(G.c, in, op, ex); }
      if (ok) for (auto& e : ex) for (auto v : e.val.v) if (v >= G.c.lim() || v <= -G.c.lim()) ok = false;
      if (!ok) { G.p = saved; continue; }
      bool pub = true;
      for (int q : op.in) pub = pub && G.p.regs[q].vis == 'p';
      for (auto& e : ex) {
        op.out.push_back(static_cast<int>(G.p.regs.size()));
        e.val.vis = e.val.vis == 'p' || e.val.vis == 'r' ? e.val.vis : pub ? 'p' : 'r';
        G.p.regs.push_back(e.val);
      }
      G.p.ops.push_back(op);
      break;
    }
  }
  // leave out skipped operations and what depends on them
  HProg out;
  out.regs = G.p.regs;
  std::set<int> gone;
  int idx = 0;
  for (auto& op : G.p.ops) {
    bool drop = false;
    for (int q : op.in) drop = drop || gone.count(q);
    if (op.name != "in") drop = r.skipped(idx++) || drop;
    if (drop) { for (int q : op.out) gone.insert(q); continue; }
    out.ops.push_back(op);
  }
  // and inputs nobody uses
  std::set<int> used;
  for (auto& op : out.ops) for (int q : op.in) used.insert(q);
  HProg fin;
  fin.regs = out.regs;
  for (auto& op : out.ops) if (op.name != "in" || used.count(op.out[0])) fin.ops.push_back(op);
  return fin;
}
bool hl_in_domain(const Spec& s, const HProg& p) {
  HCtx c;
  c.s = &s; c.k = s.k(); c.f = static_cast<int>(s.conf.fxp_fraction_bits);
  std::vector<HV> val(p.regs);
  for (auto& op : p.ops) {
    if (op.name == "in") { val[op.out[0]].v = op.input.v; continue; }
    std::vector<const HV*> in;
    std::vector<Exp> ex;
    for (int q : op.in) in.push_back(&val[q]);
    if (!find_def(all_sets(), op.name)->ref(c, in, op, ex) || ex.size() != op.out.size()) return false;
    for (size_t i = 0; i < ex.size(); ++i) {
      for (auto v : ex[i].val.v) if (v >= c.lim() || v <= -c.lim()) return false;
      val[op.out[i]].v = ex[i].val.v;
    }
  }
  return true;
}
static Ten to_ring(const Spec& s, const std::vector<i128>& v) { Ten o; for (auto x : v) o.push_back(static_cast<u128>(x) & s.mask()); return o; }
static i128 from_ring(const Spec& s, u128 x) {
  x &= s.mask();
  if (s.k() == 128) return static_cast<i128>(x);
  return (x >> (s.k() - 1)) & 1 ? static_cast<i128>(x) - (i128(1) << s.k()) : static_cast<i128>(x);
}
static Value make_input(SPUContext* ctx, const Spec& s, const HV& v) {
  Value x = make_pub(s, v.shape, to_ring(s, v.v));
  x.setDtype(v.dt, true);
  if (v.vis == 'v') return hal::_p2v(ctx, x, v.owner).setDtype(v.dt, true);
  if (v.vis == 's') {
    // a secret with an owner is shared by its owner
    x = hal::seal(ctx, v.owner >= 0 ? hal::_p2v(ctx, x, v.owner).setDtype(v.dt, true) : x);
    if (v.sty == 'a') x = hal::_prefer_a(ctx, x).setDtype(v.dt, true);
    if (v.sty == 'b') x = hal::_prefer_b(ctx, x).setDtype(v.dt, true);
  }
  return x;
}
std::vector<HOut> run_hl(SPUContext* ctx, const Spec& s, const HProg& p, int rank, bool reveal) {
  std::vector<std::optional<Value>> regs(p.regs.size());
  for (auto& op : p.ops) {
    if (op.name == "in") { regs[op.out[0]] = make_input(ctx, s, op.input); continue; }
    std::vector<Value> in;
    for (int q : op.in) in.push_back(*regs[q]);
    auto out = find_def(all_sets(), op.name)->run(ctx, in, op, rank);
    SPU_ENFORCE(out.size() == op.out.size(), "{}: {} results, expected {}", op.name, out.size(), op.out.size());
    for (size_t i = 0; i < out.size(); ++i) regs[op.out[i]] = out[i];
  }
  std::vector<HOut> res(p.regs.size());
  if (!reveal) return res;
  for (size_t i = 0; i < regs.size(); ++i) {
    if (!regs[i]) continue;
    Value x = *regs[i];
    HOut& o = res[i];
    o.type = x.storage_type().toString();
    if (!x.isPublic()) x = hal::reveal(ctx, x);
    o.ok = true;
    o.v.dt = x.dtype();
    o.v.shape = Shp(x.shape().begin(), x.shape().end());
    o.v.vis = regs[i]->isPublic() ? 'p' : regs[i]->isPrivate() ? 'v' : 's';
    SPU_ENFORCE(x.data().elsize() == static_cast<size_t>(s.k() / 8), "revealed element of {} bytes", x.data().elsize());
    for (auto q : ring_values(x.data())) o.v.v.push_back(from_ring(s, q));
  }
  return res;
}
static char cls_of(DataType d) { return d == DT_I1 ? 'B' : d == DT_F16 || d == DT_F32 || d == DT_F64 ? 'F' : 'I'; }
static std::string raw_str(const HCtx& c, const HV& v, size_t i) { return v.cls == 'F' ? cat(static_cast<double>(c.val(v.v[i]))) : (v.v[i] < 0 ? "-" + u128s(static_cast<u128>(-v.v[i])) : u128s(static_cast<u128>(v.v[i]))); }
static std::string hv_str(const HCtx& c, const HV& v) { std::string o = cat(dt_name(v.dt), shp_str(v.shape), "["); for (size_t i = 0; i < v.v.size() && i < 10; ++i) o += (i ? "," : "") + raw_str(c, v, i); return o + (v.v.size() > 10 ? ",..]" : "]"); }

void check_hl(Run& r, const Spec& s, const HProg& p, const std::vector<std::vector<HOut>>& out) {
  HCtx c;
  c.s = &s; c.k = s.k(); c.f = static_cast<int>(s.conf.fxp_fraction_bits);
  for (int rank = 1; rank < s.npc; ++rank)
    for (size_t i = 0; i < p.regs.size(); ++i) if (out[0][i].ok || out[rank][i].ok)
      r.check(out[0][i].ok == out[rank][i].ok && out[0][i].v.v == out[rank][i].v.v && out[0][i].v.shape == out[rank][i].v.shape && out[0][i].v.dt == out[rank][i].v.dt, "parties_disagree",
              cat(s.str(), ": register %", i, " differs between party 0 and party ", rank, " in ", p.str()));
  std::vector<HV> val(p.regs.size());
  for (size_t i = 0; i < p.regs.size(); ++i) if (out[0][i].ok) { val[i] = out[0][i].v; val[i].cls = cls_of(val[i].dt); }
  for (auto& op : p.ops) {
    if (op.name == "in") {
      r.check(val[op.out[0]].v == op.input.v && val[op.out[0]].shape == op.input.shape, "wrong_result", cat(s.str(), ": input %", op.out[0], " ", hv_str(c, op.input), " revealed as ", hv_str(c, val[op.out[0]]), " in ", p.str()));
      continue;
    }
    const HDef* d = find_def(all_sets(), op.name);
    std::vector<const HV*> in, res;
    bool dom = true;
    for (int q : op.in) { in.push_back(&val[q]); for (auto x : val[q].v) if (x >= 2 * c.lim() || x <= -2 * c.lim()) dom = false; }
    for (int q : op.out) res.push_back(&val[q]);
    std::vector<Exp> ex;
    if (!dom || !d->ref(c, in, op, ex)) { r.tag("hl_skipped"); continue; }
    std::string ins;
    for (size_t i = 0; i < in.size(); ++i) ins += cat(i ? ", " : "", out[0][op.in[i]].type, " ", hv_str(c, *in[i]));
    std::string head = cat(s.str(), " f=", c.f, ": ", op.name, "(", ins, ")", op.p.empty() ? "" : " with params");
    for (size_t j = 0; j < ex.size(); ++j) {
      const HV& got = *res[j];
      const HV& e = ex[j].val;
      r.check(got.shape == e.shape, "wrong_shape", cat(head, " result ", j, " has shape ", shp_str(got.shape), ", expected ", shp_str(e.shape), " in ", p.str()));
      r.check(got.cls == e.cls, "wrong_type", cat(head, " result ", j, " has type ", dt_name(got.dt), " in ", p.str()));
      if (d->judge) continue;
      for (size_t i = 0; i < e.v.size(); ++i) {
        if (ex[j].tol.empty()) {
          if (got.v[i] != e.v[i]) r.fail("wrong_result", cat(head, " result ", j, " element ", i, " is ", raw_str(c, got, i), ", expected ", raw_str(c, e, i), " in ", p.str()));
        } else {
          if (ex[j].tol[i] < 0) continue;  // this element is outside of the domain
          ld err = std::fabs(static_cast<ld>(got.v[i]) - ex[j].real[i]);
          if (std::getenv("HL_CAL")) fprintf(stderr, "CAL %s %s f%d used=%.4f err=%.3f real=%.6g got=%.6g\n", op.name.c_str(), in[0]->vis == 'p' ? "p" : "s", c.f, (double)(err / ex[j].tol[i]), (double)err, (double)(ex[j].real[i] / std::pow(2.0L, c.f)), (double)c.val(got.v[i]));
          if (!(err <= ex[j].tol[i] + std::fabs(ex[j].real[i]) * 1e-18L)) r.fail("wrong_result", cat(head, " result ", j, " element ", i, " is ", raw_str(c, got, i), ", expected ", static_cast<double>(ex[j].real[i] / (e.cls == 'F' ? std::pow(2.0L, c.f) : 1.0L)), " within ", static_cast<double>(ex[j].tol[i]), " ulp, off by ", static_cast<double>(err), " ulp, in ", p.str()));
        }
      }
      ++r.evals;
    }
    if (d->judge) { ++r.evals; auto why = d->judge(c, in, res, op); if (!why.empty()) r.fail("wrong_result", cat(head, ": ", why, " in ", p.str())); }
    r.tag("op:" + op.name);
  }
}
void hl_config(Run& r, Spec& s) {
  auto& c = s.conf;
  c.trunc_allow_msb_error = false;
  if (s.proto == kCheetah) c.experimental_enable_intra_op_par = false;  // its OT state cannot be forked
  if (s.field == FM32) c.fxp_fraction_bits = r.pick("fxp_bits", {8, 6, 9});
  if (s.field == FM64) c.fxp_fraction_bits = r.pick("fxp_bits", {18, 17, 16, 19});
  if (s.field == FM128) c.fxp_fraction_bits = r.pick("fxp_bits", {26, 26, 30, 40});
  c.fxp_exp_mode = static_cast<RuntimeConfig::ExpMode>(r.pick("exp_mode", {RuntimeConfig::EXP_TAYLOR, RuntimeConfig::EXP_TAYLOR, RuntimeConfig::EXP_PADE}));
  c.fxp_log_mode = static_cast<RuntimeConfig::LogMode>(r.pick("log_mode", {RuntimeConfig::LOG_MINMAX, RuntimeConfig::LOG_MINMAX, RuntimeConfig::LOG_PADE, RuntimeConfig::LOG_NEWTON}));
  c.sigmoid_mode = static_cast<RuntimeConfig::SigmoidMode>(r.pick("sigmoid_mode", {RuntimeConfig::SIGMOID_REAL, RuntimeConfig::SIGMOID_MM1, RuntimeConfig::SIGMOID_SEG3}));
  c.enable_lower_accuracy_rsqrt = r.coin("low_rsqrt", 0.2);
  c.sort_method = static_cast<RuntimeConfig::SortMethod>(r.pick("sort_method", {RuntimeConfig::SORT_DEFAULT, RuntimeConfig::SORT_DEFAULT, RuntimeConfig::SORT_RADIX, RuntimeConfig::SORT_QUICK, RuntimeConfig::SORT_NETWORK}));
  c.quick_sort_threshold = r.pick("quick_threshold", {32, 2, 4});
  populateRuntimeConfig(c);
}
}  // namespace h
