// Numeric kernels: the plaintext function of each and its documented error.
#include "hl.h"

#include "libspu/kernel/hal/constants.h"
#include "libspu/kernel/hal/fxp_approx.h"
#include "libspu/kernel/hal/fxp_base.h"
#include "libspu/kernel/hal/polymorphic.h"
#include "libspu/kernel/hal/prot_wrapper.h"
#include "libspu/kernel/hlo/basic_binary.h"
#include "libspu/kernel/hlo/basic_ternary.h"
#include "libspu/kernel/hlo/basic_unary.h"
#include "libspu/kernel/hlo/casting.h"
#include "libspu/kernel/hlo/const.h"
#include "libspu/kernel/hlo/rand.h"
#include "libspu/kernel/hlo/shift.h"
#include "libspu/kernel/hlo/soprf.h"

namespace h {
using namespace spu;
namespace hal = spu::kernel::hal;
namespace hlo = spu::kernel::hlo;
using Vals = std::vector<Value>;
using Ins = std::vector<const HV*>;
using Exps = std::vector<Exp>;

static bool msb_ok(const HCtx& c, i128 a, i128 b = 0) { return iabs(a) + iabs(b) < c.lim() / 2; }
static i128 wrap(const HCtx& c, u128 x) { x &= c.s->mask(); if (c.k == 128) return static_cast<i128>(x); return (x >> (c.k - 1)) & 1 ? static_cast<i128>(x) - (i128(1) << c.k) : static_cast<i128>(x); }
static bool fm32(const HCtx& c) { return c.k == 32; }

// ---- element-wise binary operations on two registers of the same shape ----
using BinFn = Value (*)(SPUContext*, const Value&, const Value&);
static HDef bin(const std::string& name, double w, BinFn fn, std::function<bool(HGen&, HOp&)> gen, std::function<bool(const HCtx&, const Ins&, const HOp&, Exps&)> ref) {
  return HDef{name, w, std::move(gen), [fn](SPUContext* ctx, const Vals& in, const HOp&, int) { return Vals{fn(ctx, in[0], in[1])}; }, std::move(ref), {}};
}
// operands of classes drawn from the list, e.g. "II", "FF", "FI", "IF", "BB"
static std::function<bool(HGen&, HOp&)> gen2(std::vector<std::string> kinds, bool same_dt = false) {
  return [kinds, same_dt](HGen& G, HOp& op) {
    auto k = kinds[G.g.below(kinds.size())];
    int a = G.any(k[0]);
    DataType da = G.reg(a).dt;
    int b = G.like(a, k[1], [&](const HV& v) { return !same_dt || v.dt == da; });
    op.in = {a, b};
    return true;
  };
}
static std::function<bool(HGen&, HOp&)> same_dt(std::function<bool(HGen&, HOp&)> gen) {
  return [gen](HGen& G, HOp& op) { return gen(G, op) && G.reg(op.in[0]).dt == G.reg(op.in[1]).dt; };
}
static i128 scale_to(const HCtx& c, const HV& v, size_t i, bool fx) { return fx && v.cls != 'F' ? v.v[i] << c.f : v.v[i]; }
static std::function<bool(const HCtx&, const Ins&, const HOp&, Exps&)> arith2(std::function<i128(i128, i128)> fn, bool cmp) {
  return [fn, cmp](const HCtx& c, const Ins& in, const HOp&, Exps& o) {
    bool fx = in[0]->cls == 'F' || in[1]->cls == 'F';
    if (!fx && (in[0]->cls == 'B') != (in[1]->cls == 'B')) return false;
    std::vector<i128> v;
    for (size_t i = 0; i < in[0]->v.size(); ++i) {
      i128 a = scale_to(c, *in[0], i, fx), b = scale_to(c, *in[1], i, fx);
      if (!msb_ok(c, a, b)) return false;
      v.push_back(fn(a, b));
    }
    if (cmp) o.push_back(exact('B', DT_I1, in[0]->shape, v));
    else o.push_back(exact(fx ? 'F' : 'I', in[0]->cls == in[1]->cls ? common(in[0]->dt, in[1]->dt) : fx ? (in[0]->cls == 'F' ? in[0]->dt : in[1]->dt) : DT_I64, in[0]->shape, v));
    return true;
  };
}
static bool ref_mul(const HCtx& c, const Ins& in, const HOp&, Exps& o) {
  bool f0 = in[0]->cls == 'F', f1 = in[1]->cls == 'F';
  std::vector<i128> v; std::vector<ld> re, tol;
  for (size_t i = 0; i < in[0]->v.size(); ++i) {
    ld p = static_cast<ld>(in[0]->v[i]) * static_cast<ld>(in[1]->v[i]);
    if (std::fabs(p) >= static_cast<ld>(c.lim())) return false;
    v.push_back(in[0]->v[i] * in[1]->v[i]);
    re.push_back(p / std::pow(2.0L, c.f)); tol.push_back(c.E());
  }
  char cls = f0 || f1 ? 'F' : 'I';
  DataType dt = f0 == f1 ? common(in[0]->dt, in[1]->dt) : f0 ? in[0]->dt : in[1]->dt;
  o.push_back(f0 && f1 ? approx(c, cls, dt, in[0]->shape, re, tol) : exact(cls, dt, in[0]->shape, v));
  return true;
}
static bool ref_bits(const HCtx& c, const Ins& in, const HOp&, Exps& o, int kind) {
  std::vector<i128> v;
  for (size_t i = 0; i < in[0]->v.size(); ++i) { u128 a = static_cast<u128>(in[0]->v[i]), b = static_cast<u128>(in[1]->v[i]); v.push_back(wrap(c, kind == 0 ? a & b : kind == 1 ? a | b : a ^ b)); }
  o.push_back(exact(in[0]->cls, in[0]->dt, in[0]->shape, v));
  return true;
}
// division
static ld div_tol(const HCtx& c, ld a, ld b, bool pub) {  // real operands; in ulp
  ld q = std::fabs(a / b);
  bool three = c.f >= 30 || c.s->conf.fxp_div_goldschmidt_iters >= 3;
  ld rel = three ? 1e-8L : 7e-5L;
  if (pub) return c.ulp(q) * 4e-7L + 2;
  return c.ulp(q) * rel + (c.E() + 14 * (c.E() / 4) * std::fabs(a)) / std::min<ld>(std::fabs(b), 1e30L) * 2 + 2 * c.E() + (std::fabs(a) * 8);
}
static bool div_dom(const HCtx& c, i128 a, i128 b) {  // raw
  if (b == 0 || fm32(c)) return false;
  ld A = static_cast<ld>(iabs(a)), B = static_cast<ld>(iabs(b));
  if (B >= std::pow(2.0L, 2 * c.f - 2)) return false;
  if (3 * c.f + 2 >= c.k - 3) return false;
  if (A * std::pow(2.0L, c.f + 1) >= static_cast<ld>(c.lim())) return false;
  return A * 2 * (std::pow(2.0L, 2 * c.f) / B) * 2 < static_cast<ld>(c.lim());
}
static bool ref_div(const HCtx& c, const Ins& in, const HOp& op, Exps& o) {
  bool fx = in[0]->cls == 'F' || in[1]->cls == 'F';
  bool pub = in[0]->vis == 'p' && in[1]->vis == 'p';
  std::vector<i128> v; std::vector<ld> re, tol;
  for (size_t i = 0; i < in[0]->v.size(); ++i) {
    i128 a = in[0]->v[i], b = in[1]->v[i];
    i128 fa = fx ? scale_to(c, *in[0], i, true) : a << c.f, fb = fx ? scale_to(c, *in[1], i, true) : b << c.f;
    if (iabs(a) >= (i128(1) << (c.k - 8 - c.f)) || !div_dom(c, fa, fb)) return false;
    if (!fx) {
      if (iabs(a) >= 4096 || iabs(b) >= 4096) return false;
      v.push_back(a / b);
    } else {
      ld x = c.val(fa), y = c.val(fb);
      re.push_back(c.ulp(x / y)); tol.push_back(div_tol(c, x, y, pub));
    }
  }
  DataType dt = std::max(in[0]->dt, in[1]->dt);
  if (!fx) o.push_back(exact('I', dt, in[0]->shape, v)); else o.push_back(approx(c, 'F', dt, in[0]->shape, re, tol));
  (void)op;
  return true;
}
static bool gen_div(HGen& G, HOp& op) {
  bool integer = G.g.chance(0.3);
  if (G.c.k == 32) return false;
  Shp sh = G.shape();
  int64_t n = numel(sh);
  if (integer) {
    int a = G.operand([&](const HV& v) { if (v.cls != 'I') return false; for (auto x : v.v) if (iabs(x) >= 4096) return false; return true; }, [&] { return G.fresh('I', sh, G.ints(n, 12)); });
    int b = G.like(a, 'I', [&](const HV& v) { if (v.dt != G.reg(a).dt) return false; for (auto x : v.v) if (x == 0 || iabs(x) >= 4096) return false; return true; });
    for (auto x : G.reg(b).v) if (x == 0) return false;
    op.in = {a, b};
    return true;
  }
  int b = G.operand([&](const HV& v) { if (v.cls != 'F') return false; for (auto x : v.v) if (x == 0 || iabs(x) >= (i128(1) << (2 * G.c.f - 3))) return false; return true; },
                    [&] { return G.fresh('F', sh, G.reals(n, std::pow(2.0L, -std::min(12, G.c.f / 2)), std::pow(2.0L, std::min(10, G.c.f - 4)))); });
  int a = G.like(b, 'F', [&](const HV& v) { return v.dt == G.reg(b).dt; });
  op.in = {a, b};
  return true;
}
static bool ref_rem(const HCtx& c, const Ins& in, const HOp& op, Exps& o) {
  if (in[0]->cls == 'I') {
    Exps t;
    if (!ref_div(c, in, op, t)) return false;
    std::vector<i128> v;
    for (size_t i = 0; i < in[0]->v.size(); ++i) v.push_back(in[0]->v[i] % in[1]->v[i]);
    o.push_back(exact('I', in[0]->dt, in[0]->shape, v));
    return true;
  }
  std::vector<ld> re, tol;
  bool pub = in[0]->vis == 'p' && in[1]->vis == 'p';
  for (size_t i = 0; i < in[0]->v.size(); ++i) {
    if (!div_dom(c, in[0]->v[i], in[1]->v[i])) return false;
    ld a = c.val(in[0]->v[i]), b = c.val(in[1]->v[i]), q = a / b, t = c.val(static_cast<i128>(div_tol(c, a, b, pub))) + c.val(4);
    if (std::fabs(a) > 1000 || std::fabs(q) > 4000) return false;
    ld fr = std::fabs(q - std::nearbyint(static_cast<double>(q)));
    re.push_back(c.ulp(std::fmod(a, b)));
    tol.push_back(fr <= 2 * t ? -1 : c.E() + 1);  // next to a multiple the quotient may round either way
  }
  o.push_back(approx(c, 'F', in[0]->dt, in[0]->shape, re, tol));
  return true;
}
// ---- unary approximations --------------------------------------------------
struct Approx {
  const char* name; double w;
  Value (*fn)(SPUContext*, const Value&);
  ld (*f)(ld);
  std::function<bool(const HCtx&, ld)> dom;
  std::function<ld(const HCtx&, ld x, ld y)> tol;  // in ulp, secret operands
  ld lo, hi; bool neg;  // range of fresh operands
  bool coarse;          // usable with the 32-bit ring
  bool cleartext;       // public operands are computed in floating point
};
static HDef unary(const Approx& a) {
  return HDef{a.name, a.w,
    [a](HGen& G, HOp& op) {
      if (G.c.k == 32 && !a.coarse) return false;
      Shp sh = G.shape();
      op.in = {G.operand([&](const HV& v) { if (v.cls != 'F') return false; for (auto x : v.v) if (!a.dom(G.c, G.c.val(x))) return false; return true; },
                         [&] { return G.fresh('F', sh, G.reals(numel(sh), a.lo, a.hi, a.neg)); }, 0.5)};
      return true;
    },
    [a](SPUContext* ctx, const Vals& in, const HOp&, int) { return Vals{a.fn(ctx, in[0])}; },
    [a](const HCtx& c, const Ins& in, const HOp&, Exps& o) {
      std::vector<ld> re, tol;
      for (auto q : in[0]->v) {
        ld x = c.val(q);
        if (!a.dom(c, x)) return false;
        ld y = a.f(x);
        ld t = a.tol(c, x, y);
        if (a.cleartext && in[0]->vis == 'p') {
          ld d = std::fabs(a.f(x * (1 + 1e-6L)) - y) + std::fabs(a.f(x * (1 - 1e-6L)) - y);
          t = c.ulp(std::fabs(y) * 1e-6L + (std::isfinite(static_cast<double>(d)) ? d : 1) + (a.name == "log1p" ? 2e-7L : 0)) + 3;
        }
        re.push_back(c.ulp(y)); tol.push_back(t);
      }
      o.push_back(approx(c, 'F', in[0]->dt, in[0]->shape, re, tol));
      return true;
    }, {}};
}
static bool log_dom(const HCtx& c, ld x) {
  if (c.s->conf.fxp_log_mode == RuntimeConfig::LOG_NEWTON) return x >= 0.02L && x <= 200;
  return x > 0 && x < std::pow(2.0L, c.f - 2) && (c.s->conf.fxp_log_mode != RuntimeConfig::LOG_PADE || 3 * c.f + 6 < c.k);
}
static ld log_tol(const HCtx& c, ld, ld y) {
  switch (c.s->conf.fxp_log_mode) {
    case RuntimeConfig::LOG_NEWTON: return c.ulp(0.05L + 0.03L * std::fabs(y));
    case RuntimeConfig::LOG_PADE: return c.ulp(4e-4L) + 40 * c.E();
    default: return c.ulp(2e-4L) + 12 * c.E() + std::fabs(y) * 4;
  }
}
static bool exp_dom(const HCtx& c, ld x) {
  ld top = (c.k - 8 - 2 * c.f) * 0.6931L;
  if (c.s->conf.fxp_exp_mode == RuntimeConfig::EXP_PADE) return std::fabs(x) < 21 && x < (c.k - 6 - c.f - 2) * 0.6931L && c.f + 34 < c.k - 4;
  return x > -30 && x < std::min<ld>(top, 14);
}
constexpr ld kExp2Rel = 9.2e-5L;  // of the degree 5 polynomial on [0, 1]
static ld exp_tol(const HCtx& c, ld x, ld y) {
  if (c.s->conf.fxp_exp_mode == RuntimeConfig::EXP_PADE) return c.ulp(y) * ((60 + 8 * std::fabs(x)) * c.val(1) * c.E() / 4 + kExp2Rel + 1e-7L * std::fabs(x)) + 4 * c.E();
  return c.ulp(y) * (x * x / 512 * 1.3L + std::fabs(x * x * x) / 60000 + 256 * c.E() * c.val(1) * 1.5L + 1e-4L) + 24 * c.E();
}
static std::vector<HDef> build() {
  std::vector<HDef> d;
  auto bits_gen = gen2({"II", "II", "BB"}, true);
  d.push_back(bin("add", 4, hlo::Add, gen2({"II", "FF", "FI", "IF"}), arith2([](i128 a, i128 b) { return a + b; }, false)));
  d.push_back(bin("sub", 4, hlo::Sub, gen2({"II", "FF", "FI", "IF"}), arith2([](i128 a, i128 b) { return a - b; }, false)));
  d.push_back(bin("equal", 2, hlo::Equal, gen2({"II", "FF", "FI", "IF", "BB"}), arith2([](i128 a, i128 b) -> i128 { return a == b; }, true)));
  d.push_back(bin("not_equal", 1, hlo::NotEqual, gen2({"II", "FF", "FI", "BB"}), arith2([](i128 a, i128 b) -> i128 { return a != b; }, true)));
  d.push_back(bin("less", 2, hlo::Less, gen2({"II", "FF", "FI", "IF"}), arith2([](i128 a, i128 b) -> i128 { return a < b; }, true)));
  d.push_back(bin("less_equal", 1, hlo::LessEqual, gen2({"II", "FF", "FI", "IF"}), arith2([](i128 a, i128 b) -> i128 { return a <= b; }, true)));
  d.push_back(bin("greater", 2, hlo::Greater, gen2({"II", "FF", "FI", "IF"}), arith2([](i128 a, i128 b) -> i128 { return a > b; }, true)));
  d.push_back(bin("greater_equal", 1, hlo::GreaterEqual, gen2({"II", "FF", "FI", "IF"}), arith2([](i128 a, i128 b) -> i128 { return a >= b; }, true)));
  d.push_back(bin("max", 2, hlo::Max, same_dt(gen2({"II", "FF"}, true)), arith2([](i128 a, i128 b) { return a > b ? a : b; }, false)));
  d.push_back(bin("min", 2, hlo::Min, same_dt(gen2({"II", "FF"}, true)), arith2([](i128 a, i128 b) { return a < b ? a : b; }, false)));
  d.push_back(bin("mul", 6, hlo::Mul, gen2({"II", "FF", "FF", "FI", "IF"}), ref_mul));
  d.push_back(bin("and", 2, hlo::And, bits_gen, [](const HCtx& c, const Ins& in, const HOp& op, Exps& o) { return ref_bits(c, in, op, o, 0); }));
  d.push_back(bin("or", 2, hlo::Or, bits_gen, [](const HCtx& c, const Ins& in, const HOp& op, Exps& o) { return ref_bits(c, in, op, o, 1); }));
  d.push_back(bin("xor", 2, hlo::Xor, bits_gen, [](const HCtx& c, const Ins& in, const HOp& op, Exps& o) { return ref_bits(c, in, op, o, 2); }));
  d.push_back(bin("div", 3, hlo::Div, gen_div, ref_div));
  d.push_back(bin("remainder", 1.2, hlo::Remainder, same_dt(gen_div), ref_rem));
  d.push_back(HDef{"atan2", 1, [](HGen& G, HOp& op) {
    if (G.c.k == 32) return false;
    Shp sh = G.shape();
    int a = G.operand([&](const HV& v) { return v.cls == 'F'; }, [&] { return G.fresh('F', sh, G.reals(numel(sh), 0.05L, 100)); }, 0.3);
    op.in = {a, G.like(a, 'F', [&](const HV& v) { return v.dt == G.reg(a).dt; })};
    return G.reg(op.in[1]).dt == G.reg(a).dt;
  }, [](SPUContext* ctx, const Vals& in, const HOp&, int) { return Vals{hlo::Atan2(ctx, in[0], in[1])}; },
  [](const HCtx& c, const Ins& in, const HOp&, Exps& o) {
    std::vector<ld> re, tol;
    bool pub = in[0]->vis == 'p' && in[1]->vis == 'p';
    for (size_t i = 0; i < in[0]->v.size(); ++i) {
      i128 a = in[0]->v[i], b = in[1]->v[i];
      i128 big = std::max(iabs(a), iabs(b)), sm = std::min(iabs(a), iabs(b));
      if (big == 0 || !div_dom(c, sm, big)) return false;
      ld y = c.val(a), x = c.val(b), hyp = c.val(big);
      re.push_back(c.ulp(std::atan2(y, x)));
      tol.push_back(pub ? c.ulp(2e-6L) + 3 : c.ulp(5e-5L) + div_tol(c, c.val(sm), hyp, false) * 1.2L + 12 * c.E());
    }
    o.push_back(approx(c, 'F', in[0]->dt, in[0]->shape, re, tol));
    return true;
  }, {}});
  // integer power: repeated multiplication in the ring
  d.push_back(HDef{"power_int", 1.4, [](HGen& G, HOp& op) {
    Shp sh = G.shape();
    const bool wide = G.g.chance(0.5);  // small bases, exponents up to the width of the ring
    int a = G.operand([&](const HV& v) { if (v.cls != 'I') return false; for (auto x : v.v) if (iabs(x) > (wide ? 2 : 6)) return false; return true; }, [&] { auto v = G.fresh('I', sh, G.ints(numel(sh), 2)); if (wide) for (auto& x : v.v) x = G.g.range(-2, 2); return v; });
    int b = G.operand([&](const HV& v) { return !wide && v.cls == 'I' && v.shape == G.reg(a).shape && v.dt == G.reg(a).dt; }, [&] {
      auto v = G.fresh('I', G.reg(a).shape, G.ints(numel(G.reg(a).shape), 3));
      v.dt = G.reg(a).dt;
      if (wide) for (size_t i = 0; i < v.v.size(); ++i) {
        const i128 x = G.reg(a).v[i];
        v.v[i] = iabs(x) == 2 ? G.g.range(G.c.k / 4, G.c.k - 7) : x == 0 ? G.g.range(0, G.c.k * 3) : G.g.range(-G.c.k, G.c.k * 2);
      }
      return v; }, wide ? 0 : 0.3);
    op.in = {a, b};
    return true;
  }, [](SPUContext* ctx, const Vals& in, const HOp&, int) { return Vals{hlo::Power(ctx, in[0], in[1])}; },
  [](const HCtx& c, const Ins& in, const HOp&, Exps& o) {
    std::vector<i128> v;
    for (size_t i = 0; i < in[0]->v.size(); ++i) {
      i128 x = in[0]->v[i], y = in[1]->v[i];
      i128 t = 1;
      if (y < 0) t = iabs(x) == 1 ? (x < 0 && (y & 1) ? -1 : 1) : 0;
      else if (iabs(x) <= 1) t = y == 0 ? 1 : x < 0 && !(y & 1) ? 1 : x;
      else for (i128 q = 0; q < y; ++q) { t *= x; if (iabs(t) >= c.lim()) return false; }
      if (x == 0 && y < 0) return false;
      v.push_back(t);
    }
    o.push_back(exact('I', in[0]->dt, in[0]->shape, v));
    return true;
  }, {}});
  d.push_back(HDef{"power", 0.8, [](HGen& G, HOp& op) {
    if (G.c.k == 32) return false;
    Shp sh = G.shape();
    int a = G.operand([&](const HV& v) { if (v.cls != 'F') return false; for (auto x : v.v) if (x == 0) return false; return true; }, [&] { return G.fresh('F', sh, G.reals(numel(sh), 0.1L, 8)); }, 0.3);
    HV y = G.fresh('F', G.reg(a).shape, G.reals(numel(G.reg(a).shape), 0, 3));
    for (size_t i = 0; i < y.v.size(); ++i) if (G.reg(a).v[i] < 0) y.v[i] = (y.v[i] >> G.c.f) << G.c.f;
    y.dt = G.reg(a).dt;
    op.in = {a, G.add_input(y)};
    return true;
  }, [](SPUContext* ctx, const Vals& in, const HOp&, int) { return Vals{hlo::Power(ctx, in[0], in[1])}; },
  [](const HCtx& c, const Ins& in, const HOp&, Exps& o) {
    if (fm32(c) || c.f + 34 >= c.k - 4) return false;
    std::vector<ld> re, tol;
    bool pub = in[0]->vis == 'p' && in[1]->vis == 'p';
    for (size_t i = 0; i < in[0]->v.size(); ++i) {
      ld x = c.val(in[0]->v[i]), y = c.val(in[1]->v[i]);
      if (std::fabs(x) < 0.05L || std::fabs(x) > 1000 || std::fabs(y) > 5) return false;
      if (x < 0 && (in[1]->v[i] & ((i128(1) << c.f) - 1))) return false;
      ld z = std::pow(x, y);
      ld e = std::fabs(y * std::log(std::fabs(x)));
      if (e > std::min<ld>(13, (c.k - 10 - 2 * c.f) * 0.69L)) return false;
      re.push_back(c.ulp(z));
      tol.push_back(pub ? c.ulp(std::fabs(z)) * 1e-5L + 4 : c.ulp(std::fabs(z)) * (kExp2Rel + std::fabs(y) * (3e-4L + 20 * c.val(1) * c.E()) + (80 + 10 * e) * c.val(1) * c.E()) + 6 * c.E());
    }
    o.push_back(approx(c, 'F', in[0]->dt, in[0]->shape, re, tol));
    return true;
  }, {}});
  // select and clamp
  d.push_back(HDef{"select", 3, [](HGen& G, HOp& op) {
    int p = G.any('B');
    char k = G.g.pick(std::vector<int64_t>{'I', 'F', 'F', 'B'});
    int a = G.like(p, k);
    op.in = {p, a, G.like(a, k, [&](const HV& v) { return v.dt == G.reg(a).dt; })};
    return G.reg(op.in[2]).dt == G.reg(a).dt;
  }, [](SPUContext* ctx, const Vals& in, const HOp&, int) { return Vals{hlo::Select(ctx, in[0], in[1], in[2])}; },
  [](const HCtx&, const Ins& in, const HOp&, Exps& o) {
    if (in[1]->dt != in[2]->dt) return false;
    std::vector<i128> v;
    for (size_t i = 0; i < in[0]->v.size(); ++i) v.push_back(in[0]->v[i] ? in[1]->v[i] : in[2]->v[i]);
    o.push_back(exact(in[1]->cls, in[1]->dt, in[1]->shape, v));
    return true;
  }, {}});
  d.push_back(HDef{"clamp", 1, [](HGen& G, HOp& op) {
    char k = G.g.chance(0.5) ? 'I' : 'F';
    int x = G.any(k);
    auto same = [&](const HV& v) { return v.dt == G.reg(x).dt; };
    int lo = G.like(x, k, same), hi = G.like(x, k, same);
    op.in = {x, lo, hi};
    return true;
  }, [](SPUContext* ctx, const Vals& in, const HOp&, int) { return Vals{hlo::Clamp(ctx, in[0], in[1], in[2])}; },
  [](const HCtx& c, const Ins& in, const HOp&, Exps& o) {
    std::vector<i128> v;
    if (in[0]->dt != in[1]->dt || in[0]->dt != in[2]->dt) return false;
    for (size_t i = 0; i < in[0]->v.size(); ++i) {
      i128 x = in[0]->v[i], lo = in[1]->v[i], hi = in[2]->v[i];
      if (!msb_ok(c, x, lo) || !msb_ok(c, x, hi) || !msb_ok(c, lo, hi)) return false;
      v.push_back(std::min(std::max(lo, x), hi));
    }
    o.push_back(exact(in[0]->cls, in[0]->dt, in[0]->shape, v));
    return true;
  }, {}});
  // exact unary operations
  struct U { const char* n; double w; Value (*fn)(SPUContext*, const Value&); const char* cls; std::function<bool(const HCtx&, const HV&, i128, i128&)> f; };
  auto fl = [](const HCtx& c, i128 x) { i128 one = i128(1) << c.f; i128 q = x / one; if (x % one < 0) --q; return q * one; };
  std::vector<U> us = {
    {"neg", 2, hlo::Neg, "IF", [](const HCtx&, const HV&, i128 x, i128& y) { y = -x; return true; }},
    {"abs", 2, hlo::Abs, "IF", [](const HCtx& c, const HV&, i128 x, i128& y) { y = iabs(x); return msb_ok(c, x); }},
    {"sign", 1, [](SPUContext* ctx, const Value& v) { return hlo::Sign(ctx, v, false); }, "IF", [](const HCtx& c, const HV& v, i128 x, i128& y) { y = x > 0 ? 1 : x < 0 ? -1 : 0; if (v.cls == 'F') y *= i128(1) << c.f; return msb_ok(c, x); }},
    {"sign_nz", 1, [](SPUContext* ctx, const Value& v) { return hlo::Sign(ctx, v, true); }, "IF", [](const HCtx& c, const HV& v, i128 x, i128& y) { y = x >= 0 ? 1 : -1; if (v.cls == 'F') y *= i128(1) << c.f; return msb_ok(c, x); }},
    {"not", 1.5, hlo::Not, "IB", [](const HCtx&, const HV& v, i128 x, i128& y) { y = v.cls == 'B' ? 1 - x : ~x; return true; }},
    {"floor", 1.5, hlo::Floor, "F", [fl](const HCtx& c, const HV&, i128 x, i128& y) { y = fl(c, x); return msb_ok(c, x); }},
    {"ceil", 1.5, hlo::Ceil, "F", [fl](const HCtx& c, const HV&, i128 x, i128& y) { y = -fl(c, -x); return msb_ok(c, x); }},
    {"round_afz", 1, hlo::Round_AFZ, "F", [fl](const HCtx& c, const HV&, i128 x, i128& y) { i128 h = i128(1) << (c.f - 1); y = x >= 0 ? fl(c, x + h) : -fl(c, -x + h); return msb_ok(c, x); }},
    {"round_rnte", 1, hlo::Round_RNTE, "F", [fl](const HCtx& c, const HV&, i128 x, i128& y) { i128 one = i128(1) << c.f, h = one >> 1; i128 b = fl(c, x), r = x - b; y = r > h || (r == h && ((b >> c.f) & 1)) ? b + one : b; return msb_ok(c, x); }},
    {"popcnt", 1, hlo::Popcnt, "I", [](const HCtx& c, const HV& v, i128 x, i128& y) { int w = v.dt == DT_I32 ? 32 : 64; y = 0; if (w > c.k) return false; for (int i = 0; i < w; ++i) y += static_cast<int>((static_cast<u128>(x) >> i) & 1); return true; }},
    {"square", 1, hal::square, "I", [](const HCtx& c, const HV&, i128 x, i128& y) { if (iabs(x) >= (i128(1) << (c.k / 2 - 3))) return false; y = x * x; return true; }},
  };
  for (auto& u : us) d.push_back(HDef{u.n, u.w, [u](HGen& G, HOp& op) { std::string k = u.cls; op.in = {G.any(k[G.g.below(k.size())])}; return true; },
    [u](SPUContext* ctx, const Vals& in, const HOp&, int) { return Vals{u.fn(ctx, in[0])}; },
    [u](const HCtx& c, const Ins& in, const HOp&, Exps& o) {
      std::vector<i128> v;
      for (auto x : in[0]->v) { i128 y; if (!u.f(c, *in[0], x, y)) return false; v.push_back(y); }
      o.push_back(exact(in[0]->cls, in[0]->dt, in[0]->shape, v));
      return true;
    }, {}});
  d.push_back(HDef{"cast", 3, [](HGen& G, HOp& op) {
    std::vector<std::string> ks{"BI", "BF", "IF", "FI", "FI", "II", "FF"};
    auto k = ks[G.g.below(ks.size())];
    op.in = {G.any(k[0])};
    op.p = {k[1] == 'F' ? (k[0] == 'F' && G.reg(op.in[0]).dt == DT_F32 ? DT_F64 : DT_F32) : G.c.k == 32 ? DT_I32 : G.g.chance(0.2) ? DT_I32 : DT_I64, G.g.chance(0.15) ? 1 : 0};
    return true;
  }, [](SPUContext* ctx, const Vals& in, const HOp& op, int) {
    auto vis = in[0].vtype();
    if (op.p[1]) vis = in[0].isSecret() ? VIS_PUBLIC : VIS_SECRET;
    return Vals{hlo::Cast(ctx, in[0], vis, static_cast<DataType>(op.p[0]))};
  }, [](const HCtx& c, const Ins& in, const HOp& op, Exps& o) {
    auto dt = static_cast<DataType>(op.p[0]);
    bool tf = dt == DT_F32 || dt == DT_F64;
    std::vector<i128> v;
    for (auto x : in[0]->v) {
      if (in[0]->cls == 'F' && !tf) { if (!msb_ok(c, x)) return false; v.push_back(x / (i128(1) << c.f)); }
      else if (in[0]->cls != 'F' && tf) { if (iabs(x) >= (c.lim() >> c.f)) return false; v.push_back(x << c.f); }
      else v.push_back(x);
    }
    o.push_back(exact(tf ? 'F' : 'I', dt, in[0]->shape, v));
    if (op.p[1]) o.back().val.vis = in[0]->vis == 'p' || in[0]->vis == 'v' ? 'r' : 'p';
    return true;
  }, {}});
  // shifts, public (per element or one for all) and secret amounts
  auto shift = [&](const char* name, int kind, BinFn fn) {
    d.push_back(HDef{name, 1, [](HGen& G, HOp& op) {
      int a = G.any('I');
      std::vector<i128> b;
      bool one = G.g.chance(0.4);
      int hi = G.reg(a).dt == DT_I32 ? 31 : G.c.k == 128 ? 63 : G.c.k - 1;
      bool small = G.g.chance(0.6);
      for (size_t i = 0; i < G.reg(a).v.size(); ++i) b.push_back(i && one ? b[0] : i128(G.g.range(0, small ? 6 : hi)));
      HV v = G.fresh('I', G.reg(a).shape, b);
      v.dt = G.reg(a).dt;
      if (G.g.chance(0.75) || G.c.s->proto == kCheetah || G.c.s->proto == kSecurenn) { v.vis = 'p'; v.owner = -1; }
      op.in = {a, G.add_input(v)};
      return true;
    }, [fn](SPUContext* ctx, const Vals& in, const HOp&, int) { return Vals{fn(ctx, in[0], in[1])}; },
    [kind](const HCtx& c, const Ins& in, const HOp&, Exps& o) {
      std::vector<i128> v;
      for (size_t i = 0; i < in[0]->v.size(); ++i) {
        i128 x = in[0]->v[i];
        int b = static_cast<int>(in[1]->v[i]);
        if (in[1]->v[i] < 0 || in[1]->v[i] >= (in[0]->dt == DT_I32 ? 32 : std::min(c.k, 64))) return false;
        if (kind == 0) { if (iabs(x) >= (c.lim() >> b)) return false; v.push_back(x * (i128(1) << b)); }
        else if (kind == 1) { u128 y = (static_cast<u128>(x) & c.s->mask()) >> b; v.push_back(wrap(c, y)); if (iabs(v.back()) >= c.lim() && in[1]->vis != 'p') return false; }
        else v.push_back(x >> b);
      }
      o.push_back(exact('I', in[0]->dt, in[0]->shape, v));
      return true;
    }, {}});
  };
  shift("lshift", 0, hlo::Lshift);
  shift("rshift", 1, hlo::Rshift);
  shift("arshift", 2, hlo::ARshift);
  // products
  auto dot = [&](const char* name, double w, bool general) {
    d.push_back(HDef{name, w, [general](HGen& G, HOp& op) {
      std::vector<std::string> ks{"II", "FF", "FF", "FI", "IF"};
      auto k = ks[G.g.below(ks.size())];
      Shp a, b;
      if (general) { int64_t n = G.g.range(1, 3), m = G.g.range(1, 3), q = G.g.range(1, 3), t = G.g.range(1, 3); a = {n, m, q}; b = {n, q, t}; }
      else {
        int64_t m = G.g.range(1, 4), q = G.g.range(1, 4), t = G.g.range(1, 4);
        a = G.g.chance(0.2) ? Shp{q} : Shp{m, q}; b = G.g.chance(0.2) ? Shp{q} : Shp{q, t};
        if (a.size() == 1 && b.size() == 2) a = {1, q};
      }
      auto mk = [&](char cls, Shp sh) { return G.operand([&](const HV& v) { return v.cls == cls && v.shape == sh; }, [&] { return G.fresh(cls, sh, cls == 'I' ? G.ints(numel(sh), G.c.k == 32 ? 9 : 20) : G.reals(numel(sh), 0, G.c.k == 32 ? 8 : 500)); }, 0.5); };
      op.in = {mk(k[0], a), mk(k[1], b)};
      return true;
    }, [general](SPUContext* ctx, const Vals& in, const HOp&, int) { return Vals{general ? hlo::DotGeneral(ctx, in[0], in[1]) : hlo::Dot(ctx, in[0], in[1])}; },
    [general](const HCtx& c, const Ins& in, const HOp&, Exps& o) {
      const Shp &a = in[0]->shape, &b = in[1]->shape;
      int64_t B = general ? a[0] : 1, M, Q, T;
      Shp rs;
      if (general) { M = a[1]; Q = a[2]; T = b[2]; rs = {B, M, T}; }
      else {
        M = a.size() == 2 ? a[0] : 1; Q = a.back(); T = b.size() == 2 ? b[1] : 1;
        rs = {M, T};  // the caller gives a vector result its final shape
      }
      bool f0 = in[0]->cls == 'F', f1 = in[1]->cls == 'F';
      std::vector<i128> v; std::vector<ld> re, tol;
      for (int64_t n = 0; n < B; ++n) for (int64_t i = 0; i < M; ++i) for (int64_t j = 0; j < T; ++j) {
        i128 s = 0; ld mag = 0;
        for (int64_t q = 0; q < Q; ++q) { i128 x = in[0]->v[(n * M + i) * Q + q], y = in[1]->v[(n * Q + q) * T + j]; mag += std::fabs(static_cast<ld>(x) * static_cast<ld>(y)); if (mag >= static_cast<ld>(c.lim())) return false; s += x * y; }
        v.push_back(s); re.push_back(static_cast<ld>(s) / std::pow(2.0L, c.f)); tol.push_back(c.E());
      }
      DataType dt = f0 == f1 ? common(in[0]->dt, in[1]->dt) : f0 ? in[0]->dt : in[1]->dt;
      o.push_back(f0 && f1 ? approx(c, 'F', dt, rs, re, tol) : exact(f0 || f1 ? 'F' : 'I', dt, rs, v));
      return true;
    }, {}});
  };
  dot("dot", 3, false);
  dot("dot_general", 1.5, true);
  // approximated functions
  auto posf = [](ld lo, ld hi) { return [lo, hi](const HCtx&, ld x) { return x >= lo && x <= hi; }; };
  auto sqrt_dom = [](const HCtx& c, ld x) { return x > 0 && x < std::pow(2.0L, c.f - 3) && 3 * c.f + 4 < c.k; };
  std::vector<Approx> as = {
    {"fsquare", 1, hal::square, [](ld x) { return x * x; }, [](const HCtx& c, ld x) { return x * x < c.val(c.lim() >> c.f); }, [](const HCtx& c, ld, ld) { return c.E(); }, 0, 8, true, true, false},
    {"reciprocal", 2, hlo::Reciprocal, [](ld x) { return 1 / x; }, [](const HCtx& c, ld x) { return std::fabs(x) >= c.val(8) && div_dom(c, i128(1) << c.f, static_cast<i128>(c.ulp(x))); }, [](const HCtx& c, ld x, ld) { return div_tol(c, 1, x, false); }, 0.002L, 1000, true, false, true},
    {"exp", 2, hlo::Exp, [](ld x) { return std::exp(x); }, exp_dom, exp_tol, 0, 8, true, false, true},
    {"expm1", 1, hlo::Expm1, [](ld x) { return std::exp(x) - 1; }, exp_dom, [](const HCtx& c, ld x, ld y) { return exp_tol(c, x, y + 1) + 1; }, 0, 8, true, false, false},
    {"exp2", 0.7, hal::exp2, [](ld x) { return std::exp2(x); }, [](const HCtx& c, ld x) { return std::fabs(x) < 30 && x < c.k - 8 - c.f && c.f + 34 < c.k - 4; }, [](const HCtx& c, ld x, ld y) { return c.ulp(y) * (50 * c.val(1) * c.E() / 4 + kExp2Rel) + 4 * c.E() + 0 * x; }, 0, 12, true, false, false},
    {"log", 2, hlo::Log, [](ld x) { return std::log(x); }, log_dom, log_tol, 0.03L, 150, false, false, true},
    {"log1p", 1, hlo::Log1p, [](ld x) { return std::log1p(x); }, [](const HCtx& c, ld x) { return log_dom(c, 1 + x); }, [](const HCtx& c, ld x, ld y) { return log_tol(c, x, y) + c.ulp(2e-7L); }, 0, 100, false, false, true},
    {"log2", 0.7, hal::log2, [](ld x) { return std::log2(x); }, [](const HCtx& c, ld x) { return x > 0 && x < std::pow(2.0L, c.f - 2) && 3 * c.f + 6 < c.k; }, [](const HCtx& c, ld, ld) { return c.ulp(1e-4L) + 15 * c.E(); }, 0.03L, 150, false, false, false},
    {"tanh", 1, hlo::Tanh, [](ld x) { return std::tanh(x); }, posf(-1000, 1000), [](const HCtx& c, ld, ld) { return c.ulp(0.012L) + 60 * c.E(); }, 0, 8, true, false, false},
    {"sine", 1, hlo::Sine, [](ld x) { return std::sin(x); }, posf(-60, 60), [](const HCtx& c, ld x, ld) { return c.ulp(3e-4L) + (15 + 2 * std::fabs(x)) * c.E(); }, 0, 20, true, false, true},
    {"cosine", 1, hlo::Cosine, [](ld x) { return std::cos(x); }, posf(-60, 60), [](const HCtx& c, ld x, ld) { return c.ulp(3e-4L) + (15 + 2 * std::fabs(x)) * c.E(); }, 0, 20, true, false, true},
    {"rsqrt", 1, hlo::Rsqrt, [](ld x) { return 1 / std::sqrt(x); }, sqrt_dom, [](const HCtx& c, ld, ld y) { return c.ulp(y) * (c.s->conf.enable_lower_accuracy_rsqrt ? 0.012L : 0.002L) + (20 * c.E() * y) + 4 * c.E(); }, 0.01L, 500, false, false, false},
    {"sqrt", 1, hlo::Sqrt, [](ld x) { return std::sqrt(x); }, sqrt_dom, [](const HCtx& c, ld x, ld y) { return c.ulp(y) * (c.s->conf.enable_lower_accuracy_rsqrt ? 3e-4L : 3e-5L) + (4 * y + 4 * std::max<ld>(x, 1 / y)) * c.E() + 4 * c.E(); }, 0.01L, 500, false, false, false},
    {"erf", 0.7, hal::f_erf, [](ld x) { return std::erf(x); }, posf(-100, 100), [](const HCtx& c, ld, ld) { return c.ulp(2e-3L) + 60 * c.E(); }, 0, 4, true, false, true},
    {"acos", 0.7, hlo::Acos, [](ld x) { return std::acos(x); }, posf(-1, 1), [](const HCtx& c, ld x, ld) { return c.ulp(4e-4L) + 20 * c.E() + 15 * c.E() * std::sqrt(c.ulp(1)) * (1 - std::fabs(x) < c.val(64) ? 1 : 0); }, 0, 1, true, false, true},
    {"asin", 0.7, hlo::Asin, [](ld x) { return std::asin(x); }, posf(-1, 1), [](const HCtx& c, ld x, ld) { return c.ulp(4e-4L) + 20 * c.E() + 15 * c.E() * std::sqrt(c.ulp(1)) * (1 - std::fabs(x) < c.val(64) ? 1 : 0); }, 0, 1, true, false, true},
  };
  for (auto& a : as) d.push_back(unary(a));
  // the logistic function follows the configured approximation
  d.push_back(HDef{"logistic", 1, [](HGen& G, HOp& op) {
    if (G.c.k == 32 && G.c.s->conf.sigmoid_mode == RuntimeConfig::SIGMOID_REAL) return false;
    Shp sh = G.shape();
    op.in = {G.operand([&](const HV& v) { if (v.cls != 'F') return false; for (auto x : v.v) if (std::fabs(G.c.val(x)) > 8) return false; return true; }, [&] { return G.fresh('F', sh, G.reals(numel(sh), 0, 7)); }, 0.5)};
    return true;
  }, [](SPUContext* ctx, const Vals& in, const HOp&, int) { return Vals{hlo::Logistic(ctx, in[0])}; },
  [](const HCtx& c, const Ins& in, const HOp&, Exps& o) {
    std::vector<ld> re, tol;
    auto m = c.s->conf.sigmoid_mode;
    for (auto q : in[0]->v) {
      ld x = c.val(q), y, t = 2 * c.E();
      if (!msb_ok(c, q, i128(5) << c.f) || std::fabs(x) > 1000) return false;
      if (m == RuntimeConfig::SIGMOID_MM1) y = 0.5L + 0.125L * x;
      else if (m == RuntimeConfig::SIGMOID_SEG3) y = x > 4 ? 1 : x < -4 ? 0 : 0.5L + 0.125L * x;
      else {
        ld e = std::exp(-x);
        if (std::fabs(x) > 8 || !exp_dom(c, -x) || fm32(c) || 3 * c.f + 6 >= c.k) return false;
        y = 1 / (1 + e);
        t = exp_tol(c, -x, e) * y * y * 1.2L + div_tol(c, 1, 1 + e, false) + 4 * c.E();
      }
      re.push_back(c.ulp(y)); tol.push_back(t);
    }
    o.push_back(approx(c, 'F', in[0]->dt, in[0]->shape, re, tol));
    return true;
  }, {}});
  // complex numbers: parts survive any shape or select operation
  d.push_back(HDef{"complex", 0.5, [](HGen& G, HOp& op) {
    Shp sh = G.shape();  // both parts are represented in the same way
    HV x = G.fresh('F', sh, G.reals(numel(sh), 0, 100)), y = x;
    if (x.vis == 's') x.sty = 'a';
    y.sty = x.sty;
    y.v = G.reals(numel(sh), 0, 100);
    int a = G.add_input(x);
    op.in = {a, G.add_input(y)};
    op.in.push_back(G.like(a, 'B'));
    return true;
  }, [](SPUContext* ctx, const Vals& in, const HOp&, int) {
    auto z = hlo::Complex(ctx, in[0], in[1]), y = hlo::Complex(ctx, in[1], in[0]);
    auto x = hlo::Select(ctx, in[2], z, y);
    return Vals{hlo::Real(ctx, x), hlo::Imag(ctx, x)};
  }, [](const HCtx&, const Ins& in, const HOp&, Exps& o) {
    std::vector<i128> a, b;
    for (size_t i = 0; i < in[0]->v.size(); ++i) { a.push_back(in[2]->v[i] ? in[0]->v[i] : in[1]->v[i]); b.push_back(in[2]->v[i] ? in[1]->v[i] : in[0]->v[i]); }
    o.push_back(exact('F', in[0]->dt, in[0]->shape, a));
    o.push_back(exact('F', in[0]->dt, in[0]->shape, b));
    return true;
  }, {}});
  d.push_back(HDef{"iota", 0.5, [](HGen& G, HOp& op) { op.p = {G.g.range(1, 9), G.g.chance(0.5) ? DT_F32 : DT_I32}; return true; },
    [](SPUContext* ctx, const Vals&, const HOp& op, int) { return Vals{hlo::Iota(ctx, static_cast<DataType>(op.p[1]), op.p[0])}; },
    [](const HCtx& c, const Ins&, const HOp& op, Exps& o) {
      std::vector<i128> v;
      for (int64_t i = 0; i < op.p[0]; ++i) v.push_back(op.p[1] == DT_F32 ? i128(i) << c.f : i128(i));
      o.push_back(exact(op.p[1] == DT_F32 ? 'F' : 'I', static_cast<DataType>(op.p[1]), {op.p[0]}, v));
      o.back().val.vis = 'p';
      return true;
    }, {}});
  // public randomness: same at all parties (compared for every register), within the bounds, of the shape asked for
  d.push_back(HDef{"uniform", 0.5, [](HGen& G, HOp& op) {
    HV lo = G.fresh('F', {}, G.reals(1, 0, 4, false)), hi = lo;
    hi.v[0] += i128(G.g.range(1, 5)) << G.c.f;
    lo.vis = hi.vis = 'p'; lo.dt = hi.dt = DT_F32;
    int a = G.add_input(lo);
    op.in = {a, G.add_input(hi)};
    op.sp = {G.shape(1, 3)};
    return true;
  }, [](SPUContext* ctx, const Vals& in, const HOp& op, int) { return Vals{hlo::Uniform_rand(ctx, in[0], in[1], Shape(op.sp[0].begin(), op.sp[0].end()))}; },
  [](const HCtx&, const Ins&, const HOp& op, Exps& o) { o.push_back(exact('F', DT_F32, op.sp[0], std::vector<i128>(numel(op.sp[0]), 0))); o.back().val.vis = 'p'; return true; },
  [](const HCtx& c, const Ins& in, const Ins& out, const HOp&) -> std::string {
    for (auto x : out[0]->v) if (x < in[0]->v[0] - 2 || x > in[1]->v[0] + 2) return cat("value ", static_cast<double>(c.val(x)), " outside of the bounds");
    std::set<i128> u(out[0]->v.begin(), out[0]->v.end());
    return out[0]->v.size() > 3 && u.size() == 1 ? "constant" : "";
  }});
  return d;
}
const std::vector<HDef>& hl_math() { static const std::vector<HDef> v = build(); return v; }
}  // namespace h
