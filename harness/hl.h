// Random typed programs over the hlo and hal kernels, judged operation by operation:
// every register is revealed at the end of the run, and each result is compared with a
// plaintext model applied to the *revealed* operands, so errors never accumulate in the oracle.
#pragma once
#include <cmath>
#include "world.h"

namespace h {
using i128 = __int128;
using ld = long double;
using Shp = std::vector<int64_t>;
inline int64_t numel(const Shp& s) { int64_t n = 1; for (auto d : s) n *= d; return n; }
// A tensor of signed ring values; class B (bool), I (integer) or F (fixed point).
struct HV {
  char cls = 'I';
  spu::DataType dt = spu::DT_I64;
  Shp shape;
  std::vector<i128> v;
  char vis = 's';  // p public, s secret, v private (of owner)
  int owner = -1;
  char sty = 'x';  // inputs only: share representation requested (a, b or x: whatever comes)
};
struct Exp {
  HV val;
  std::vector<ld> tol;   // in units of the last place; empty: exact
  std::vector<ld> real;  // expected value in raw units where tol is given
};
struct HOp {
  std::string name;
  std::vector<int> in, out;
  std::vector<int64_t> p;
  std::vector<Shp> sp;
  HV input;
};
struct HCtx {  // what the oracle may depend on
  const Spec* s;
  int f, k;
  ld ulp(ld x) const { return x * std::pow(2.0L, f); }
  ld val(i128 r) const { return static_cast<ld>(r) / std::pow(2.0L, f); }
  i128 lim() const { return i128(1) << (k - 4); }
  ld E() const { return s->npc + 2; }  // one truncation
};
struct HGen;
struct HDef {
  std::string name;
  double w;
  std::function<bool(HGen&, HOp&)> gen;
  std::function<std::vector<spu::Value>(spu::SPUContext*, const std::vector<spu::Value>&, const HOp&, int rank)> run;
  // expected results; false: the operands are outside of the operation's domain
  std::function<bool(const HCtx&, const std::vector<const HV*>&, const HOp&, std::vector<Exp>&)> ref;
  // for results that are not a function of the operands: empty string when acceptable
  std::function<std::string(const HCtx&, const std::vector<const HV*>&, const std::vector<const HV*>&, const HOp&)> judge;
};
struct HProg {
  std::vector<HOp> ops;
  std::vector<HV> regs;  // values the generator expects
  std::string str() const;
};
struct HGen {
  Run& r;
  Spec& s;
  HCtx c;
  sim::Rng g;
  HProg p;
  int64_t max_numel = 12;
  double p_priv = 0.15;
  const std::vector<HDef>* defs = nullptr;
  HGen(Run& r, Spec& s, const std::string& px);
  Shp shape(int lo = 0, int hi = 3);
  // distribution: magnitudes below 2^bits for integers, |x| <= hi and |x| >= lo (reals) for fixed point
  std::vector<i128> ints(int64_t n, int bits, bool neg = true);
  std::vector<i128> reals(int64_t n, ld lo, ld hi, bool neg = true);
  std::vector<i128> bools(int64_t n);
  int add_input(HV v);
  HV fresh(char cls, const Shp& sh, std::vector<i128> v);
  char pick_vis();
  using Pred = std::function<bool(const HV&)>;
  // an existing register that satisfies the predicate, or -1
  int find(const Pred& ok);
  int operand(const Pred& ok, const std::function<HV()>& mk, double reuse = 0.6);
  int any(char cls, int lo = 0, int hi = 3);              // any register of this class
  int like(int reg, char cls, const Pred& extra = {});     // same shape
  const HV& reg(int i) const { return p.regs[i]; }
};
inline spu::DataType common(spu::DataType a, spu::DataType b) { return std::max(a, b); }
inline i128 iabs(i128 x) { return x < 0 ? -x : x; }
inline Exp exact(char cls, spu::DataType dt, const Shp& sh, std::vector<i128> v) { Exp e; e.val.cls = cls; e.val.dt = dt; e.val.shape = sh; e.val.v = std::move(v); return e; }
inline Exp approx(const HCtx&, char cls, spu::DataType dt, const Shp& sh, std::vector<ld> real, std::vector<ld> tol) {
  Exp e; e.val.cls = cls; e.val.dt = dt; e.val.shape = sh;
  for (auto x : real) e.val.v.push_back(std::isfinite(static_cast<double>(x)) && std::fabs(x) < 1e36L ? static_cast<i128>(std::floor(x + 0.5L)) : (i128(1) << 126));
  e.real = std::move(real); e.tol = std::move(tol);
  return e;
}
const std::vector<HDef>& hl_math();
const std::vector<HDef>& hl_move();
HProg gen_hl(Run& r, Spec& s, const std::vector<const std::vector<HDef>*>& sets, int min_ops, int max_ops, const std::vector<std::string>& only = {});
struct HOut { bool ok = false; HV v; std::string type; };
// Runs the program on one party and reveals all registers.
std::vector<HOut> run_hl(spu::SPUContext* ctx, const Spec& s, const HProg& p, int rank, bool reveal = true);
void check_hl(Run& r, const Spec& s, const HProg& p, const std::vector<std::vector<HOut>>& out);
// Are the program's own inputs inside of every operation's domain?
bool hl_in_domain(const Spec& s, const HProg& p);
void hl_config(Run& r, Spec& s);  // kernel related run-time settings
}  // namespace h
