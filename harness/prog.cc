#include "prog.h"

#include <algorithm>
#include <numeric>

#include "libspu/core/type_util.h"
#include "libspu/mpc/ab_api.h"
#include "libspu/mpc/api.h"
#include "libspu/mpc/common/pv2k.h"
#include "libspu/mpc/kernel.h"
#include "libspu/kernel/hal/ring.h"

namespace h {
using namespace spu;
namespace m = spu::mpc;

namespace {
int64_t numel(const std::vector<int64_t>& s) { int64_t n = 1; for (auto d : s) n *= d; return n; }
u128 sra(u128 v, int n, int k) {  // arithmetic shift right in k bits
  if (k == 128) return static_cast<u128>(static_cast<__int128>(v) >> n);
  __int128 x = static_cast<__int128>(v);
  if ((v >> (k - 1)) & 1) x -= static_cast<__int128>(1) << k;
  return static_cast<u128>(x >> n) & ((u128(1) << k) - 1);
}
u128 bitrev(u128 v, int s, int e) {
  u128 o = v;
  for (int i = s; i < e; ++i) { int j = e - 1 - (i - s); o &= ~(u128(1) << j); }
  for (int i = s; i < e; ++i) { int j = e - 1 - (i - s); o |= ((v >> i) & 1) << j; }
  return o;
}
u128 rand_val(sim::Rng& g, int k, int cls) {
  u128 m = k == 128 ? ~u128(0) : ((u128(1) << k) - 1);
  u128 v = (u128(g.next()) << 64) | g.next();
  switch (cls) {
    case 0: return v & m;
    case 1: return v & 15;
    case 2: { static const int64_t b[] = {0, 1, -1, 2, -2}; u128 t[] = {u128(1) << (k - 1), (u128(1) << (k - 1)) - 1, (u128(1) << (k - 1)) + 1, u128(1) << (k / 2), m, u128(1) << (k - 2)};
              uint64_t q = g.below(11); return (q < 5 ? u128(__int128(b[q])) : t[q - 5]) & m; }
    case 3: return v & 1;
    case 4: return u128(__int128(g.range(-1000, 1000))) & m;
    case 5: return v & m & ((u128(1) << (k - 3)) - 1);              // positive, below 2^(k-3)
    case 6: return (u128(0) - 1 - (v & ((u128(1) << (k - 3)) - 1))) & m;  // negative
    case 7: return sra(v & m, 3, k);                                    // |x| < 2^(k-4)
    case 8: return u128(__int128(g.range(-512, 511))) & m;
    case 9: return u128(__int128(g.range(0, 1023))) & m;
    case 10: return u128(__int128(g.range(-1024, -1))) & m;
    case 11: return sra(v & m, 1, k);
    case 13: return m;
    // 100 + w: exactly w bits are enough
    default: if (cls > 100) return v & m & ((u128(1) << (cls - 100)) - 1); return 0;
    case 12: return v & m & ((u128(1) << g.range(1, k - 1)) - 1);  // widths that differ from element to element
  }
}
int edge_width(sim::Rng& g, int k) {
  std::vector<int> w;
  for (int b : {1, 8, 9, 16, 17, 32, 33, 64, 65}) if (b < k) w.push_back(b);
  return g.pick(w);
}
int mag_of(const Ten& v, int k) {
  int mg = 0;
  for (auto x : v) {
    bool neg = (x >> (k - 1)) & 1;
    u128 y = neg ? (~x) & (k == 128 ? ~u128(0) : ((u128(1) << k) - 1)) : x;
    int b = 0; while (y) { ++b; y >>= 1; }
    mg = std::max(mg, b);
  }
  return mg;
}
std::vector<int64_t> gen_shape(sim::Rng& g, const ProgOpt& o) {
  if (!o.fixed.empty()) return o.fixed;
  if (o.p_long > 0 && g.chance(o.p_long)) return {g.range(90, 300)};
  if (o.big && g.chance(0.06)) return {g.range(60, 300)};
  if (o.big && g.chance(0.04)) return {g.range(5, 20), g.range(5, 20)};
  switch (g.below(6)) {
    case 0: return {1};
    case 1: return {g.range(2, std::min<int64_t>(11, o.max_numel))};
    case 2: case 3: return {g.range(1, 4), g.range(1, 5)};
    case 4: return {g.range(1, 3), g.range(1, 3), g.range(1, 3)};
    default: return {o.max_numel >= 24 && g.chance(0.35) ? g.range(10, 40) : g.range(2, 9)};
  }
}
std::vector<int64_t> unflat(int64_t i, const std::vector<int64_t>& s) { std::vector<int64_t> o(s.size()); for (int d = int(s.size()) - 1; d >= 0; --d) { o[d] = i % s[d]; i /= s[d]; } return o; }
int64_t flat(const std::vector<int64_t>& ix, const std::vector<int64_t>& s) { int64_t r = 0; for (size_t d = 0; d < s.size(); ++d) r = r * s[d] + ix[d]; return r; }
}  // namespace

std::string Prog::str() const {
  std::string o;
  for (size_t i = 0; i < ops.size(); ++i) {
    if (dead[i]) continue;
    o += cat(o.empty() ? "" : "; ", "r", i, "=", ops[i].name, "(");
    for (size_t j = 0; j < ops[i].in.size(); ++j) o += cat(j ? "," : "", "r", ops[i].in[j]);
    if (!ops[i].p.empty()) { o += "|"; for (size_t j = 0; j < ops[i].p.size() && j < 8; ++j) o += cat(j ? "," : "", ops[i].p[j]); }
    o += ")[";
    for (size_t j = 0; j < ops[i].shape.size(); ++j) o += cat(j ? "x" : "", ops[i].shape[j]);
    o += "]";
  }
  return o;
}

Prog gen_prog(Run& r, const Spec& s, const ProgOpt& o, const std::string& px) {
  Prog pr;
  auto g = r.rng(px + "prog");
  const int k = s.k();
  const int full = k - 1;
  auto add = [&](Op op) { pr.ops.push_back(std::move(op)); return static_cast<int>(pr.ops.size()) - 1; };
  auto& ops = pr.ops;
  auto new_input = [&](const std::vector<int64_t>& shape, int cls, int vis) {
    Op op; op.name = "in"; op.shape = shape;
    op.vals.resize(numel(shape));
    if (cls < 0) { static const int c[] = {0, 0, 0, 2, 2, 4, 4, 1, 3, 12}; cls = c[g.below(10)]; }
    // Storage types change at these widths, so both sides of each are worth visiting.
    if (cls == 12 && g.chance(0.6)) cls = 100 + edge_width(g, k);
    for (auto& v : op.vals) v = rand_val(g, k, cls);
    if (cls > 100) op.vals[g.below(op.vals.size())] |= u128(1) << (cls - 101);
    op.mag = std::max(mag_of(op.vals, k), 1);
    int owner = static_cast<int>(g.below(s.npc));
    // vis: 0 public, 1 private given as share, 2 secret given as share, 3 public->private, 4 public->secret, 5 public->B, 6 private->secret
    if (vis < 0) { static const int vv[] = {0, 1, 2, 2, 2, 3, 4, 5, 6}; vis = vv[g.below(9)]; }
    if (!o.privates && (vis == 1 || vis == 3 || vis == 6)) vis = 2;
    if (s.proto == kSpdz2k && vis == 1) vis = 3;
    if (s.proto == kSpdz2k && vis == 2) vis = 4;
    if (vis == 5 && (!o.boolean || s.proto == kRef2k || s.proto == kSpdz2k)) vis = 4;
    op.p = {vis, owner};
    return add(op);
  };
  std::vector<std::string> kinds = o.only;
  if (kinds.empty()) {
    kinds = {"add", "add", "mul", "mul", "mmul", "negate", "not", "square", "s2v", "toP", "toS"};
    if (o.boolean) for (auto x : {"and", "xor", "lshift", "rshift", "arshift", "bitrev", "a2b", "b2a", "add_bb", "bitintl", "bitdeintl"}) kinds.push_back(x);
    if (o.cmp) for (auto x : {"msb", "msb", "equal", "mul_1b"}) kinds.push_back(x);
    if (o.shapes) for (auto x : {"reshape", "transpose", "slice", "reverse", "broadcast", "concat", "pad", "update", "fill"}) kinds.push_back(x);
    if (o.trunc) { kinds.push_back("trunc"); kinds.push_back("trunc"); }
    if (o.rnd) { kinds.push_back("rand_p"); kinds.push_back("rand_s"); }
    if (o.perm) for (auto x : {"perm_rand", "inv_perm_rand", "perm_p", "inv_perm_p", "inv_perm_v"}) kinds.push_back(x);
    static const std::set<std::string> no_ref2k = {"a2b", "b2a", "add_bb", "bitintl", "bitdeintl", "mul_1b"};
    static const std::set<std::string> no_spdz2k = {"mul_1b", "fill", "pad", "add_bb", "bitintl", "bitdeintl"};
    kinds.erase(std::remove_if(kinds.begin(), kinds.end(), [&](auto& x) { return (s.proto == kRef2k && no_ref2k.count(x)) || (s.proto == kSpdz2k && no_spdz2k.count(x)); }), kinds.end());
    if (s.proto == kSemi2k) for (int q = 0; q < 3; ++q) kinds.push_back("cache");
    // swarm: a random subset per run
    std::vector<std::string> sub;
    int keep = static_cast<int>(g.range(25, 100));
    for (auto& x : kinds) if (static_cast<int>(g.below(100)) < keep) sub.push_back(x);
    if (!sub.empty()) kinds = sub;
  }
  const int n_base = 2;
  for (int i = 0; i < n_base; ++i) new_input(gen_shape(g, o), -1, -1);
  int target = static_cast<int>(g.range(o.min_ops, o.max_ops));
  int made = 0, guard = 0;
  std::vector<int> cached;
  auto any = [&]() { if (!cached.empty() && g.chance(0.4)) return g.pick(cached); return static_cast<int>(g.chance(0.6) && ops.size() > 3 ? ops.size() - 1 - g.below(3) : g.below(ops.size())); };
  auto same_shape = [&](int x) {
    std::vector<int> c;
    for (size_t i = 0; i < ops.size(); ++i) if (ops[i].shape == ops[x].shape) c.push_back(static_cast<int>(i));
    if (c.size() > 1 && g.chance(0.75)) return c[g.below(c.size())];
    auto sh = ops[x].shape;
    return new_input(sh, -1, -1);
  };
  while (made < target && guard++ < 200) {
    std::string n = kinds[g.below(kinds.size())];
    Op op; op.name = n; op.mag = full;
    if (n == "cache") {  // keep, or forget, what multiplications open about this tensor
      int x = g.chance(0.5) ? new_input(gen_shape(g, o), -1, 2) : any();
      op.in = {x}; op.shape = ops[x].shape; op.mag = ops[x].mag; op.p = {g.chance(0.85) ? 1 : 0};
      cached.push_back(static_cast<int>(ops.size()));
    } else if (n == "add" || n == "mul" || n == "and" || n == "xor" || n == "equal" || n == "add_bb") {
      int x = any();
      if (o.boolean && (n == "and" || n == "xor" || n == "add_bb") && g.chance(0.25)) { auto sh = ops[x].shape; x = new_input(sh, 12, 5); new_input(sh, 12, 5); }
      int y = same_shape(x);
      op.in = {x, y}; op.shape = ops[x].shape;
      if (n == "add") op.mag = std::min(full, std::max(ops[x].mag, ops[y].mag) + 1);
      if (n == "mul") op.mag = std::min(full, ops[x].mag + ops[y].mag);
      if (n == "equal") op.mag = 1;
      if (n == "equal" && g.chance(0.5)) {  // make equality likely
        // y := x with a few elements changed is hard on shares; use small inputs
        x = new_input(ops[x].shape, 3, -1); y = new_input(ops[x].shape, 3, -1); op.in = {x, y};
      }
      if (n == "equal" && s.proto == kSecurenn && (ops[op.in[0]].mag > k - 3 || ops[op.in[1]].mag > k - 3)) { int a = new_input(op.shape, 7, -1), b = new_input(op.shape, 8, -1); op.in = {a, b}; }
    } else if (n == "negate" || n == "not" || n == "square" || n == "toP" || n == "toS" || n == "a2b" || n == "b2a") {
      int x = any(); op.in = {x}; op.shape = ops[x].shape;
      op.mag = n == "square" ? std::min(full, 2 * ops[x].mag) : n == "negate" || n == "not" ? std::min(full, ops[x].mag + 1) : ops[x].mag;
    } else if (n == "bitintl" || n == "bitdeintl") {
      int x = any(); op.in = {x}; op.shape = ops[x].shape;
      int lg = k == 32 ? 5 : k == 64 ? 6 : 7;
      op.p = {g.range(0, lg - 2)};
    } else if (n == "msb") {
      int x = any();
      if (s.proto == kSecurenn && ops[x].mag > k - 2) { auto sh = ops[x].shape; x = new_input(sh, 11, -1); }
      op.in = {x}; op.shape = ops[x].shape; op.mag = 1;
    } else if (n == "lshift" || n == "rshift" || n == "arshift") {
      int x = any();
      if (o.boolean && g.chance(0.3)) { auto sh = ops[x].shape; x = new_input(sh, g.pick(std::vector<int>{1, 3, 12}), 5); } op.in = {x}; op.shape = ops[x].shape;
      int64_t nb = g.chance(0.3) ? g.pick(std::vector<int64_t>{0, 1, k - 1, k / 2}) : g.chance(0.3) ? k - edge_width(g, k) : g.range(0, k - 1);
      op.p = {nb};
      if (s.proto != kSpdz2k && g.chance(0.25)) { op.p.clear(); for (int64_t i = 0; i < numel(op.shape); ++i) op.p.push_back(g.range(0, k - 1)); }
      if (n == "arshift") op.mag = ops[x].mag;
    } else if (n == "bitrev") {
      int x = any();
      if (o.boolean && g.chance(0.3)) { auto sh = ops[x].shape; x = new_input(sh, g.pick(std::vector<int>{1, 3, 12}), 5); } op.in = {x}; op.shape = ops[x].shape;
      int64_t a = g.range(0, k - 1), b = g.range(a, k);
      op.p = {a, b};
    } else if (n == "mul_1b") {
      int x = any(); op.shape = ops[x].shape;
      int y = new_input(op.shape, 3, g.chance(0.5) ? 0 : 3);
      op.in = {x, y}; op.mag = ops[x].mag;
      op.p = {static_cast<int64_t>(g.below(2))};
    } else if (n == "mmul") {
      int x = any();
      std::vector<int64_t> sx = ops[x].shape;
      if (sx.size() != 2) { sx = {g.range(1, 4), g.range(1, 5)}; x = new_input(sx, -1, -1); }
      int y = -1;
      for (size_t i = 0; i < ops.size(); ++i) if (ops[i].shape.size() == 2 && ops[i].shape[0] == sx[1] && g.chance(0.6)) y = static_cast<int>(i);
      if (y < 0) y = new_input({sx[1], g.range(1, 4)}, -1, -1);
      op.in = {x, y}; op.shape = {sx[0], ops[y].shape[1]};
      op.mag = std::min(full, ops[x].mag + ops[y].mag + 5);
    } else if (n == "trunc") {
      // cls and sign must agree with the domain of probabilistic truncation
      int64_t sign = g.range(0, 2);
      auto sh = gen_shape(g, o);
      bool low = s.conf.trunc_allow_msb_error || s.proto == kSwift || s.proto == kSpdz2k;
      if (low && k == 32) continue;
      // Other protocols may pick a kernel with msb error as well: stay low when asked to.
      int cls = low ? (sign == 0 ? 8 : sign == 1 ? 9 : 10) : (sign == 0 ? 7 : sign == 1 ? 5 : 6);
      if (g.chance(0.3)) cls = sign == 0 ? 8 : sign == 1 ? 9 : 10;
      int x = new_input(sh, cls, g.chance(0.6) ? 2 : -1);
      op.in = {x}; op.shape = sh; op.p = {g.range(1, std::min(k - 4, 40)), sign};
      op.mag = ops[x].mag;
    } else if (n == "reshape") {
      int x = any(); op.in = {x};
      int64_t c = numel(ops[x].shape);
      std::vector<int64_t> sh;
      int64_t rest = c;
      while (sh.size() < 2 && rest > 1) { std::vector<int64_t> dv; for (int64_t d = 1; d <= rest; ++d) if (rest % d == 0) dv.push_back(d); int64_t d = g.pick(dv); sh.push_back(d); rest /= d; }
      sh.push_back(rest);
      op.shape = sh; op.mag = ops[x].mag;
    } else if (n == "transpose") {
      int x = any(); op.in = {x};
      std::vector<int64_t> pm(ops[x].shape.size()); std::iota(pm.begin(), pm.end(), 0);
      for (size_t i = pm.size(); i > 1; --i) std::swap(pm[i - 1], pm[g.below(i)]);
      op.p = pm; for (auto a : pm) op.shape.push_back(ops[x].shape[a]);
      op.mag = ops[x].mag;
    } else if (n == "slice") {
      int x = any(); op.in = {x};
      std::vector<int64_t> st, en, sd;
      for (auto d : ops[x].shape) { int64_t a = g.range(0, d - 1), b = g.range(a + 1, d), q = g.range(1, 2); st.push_back(a); en.push_back(b); sd.push_back(q); op.shape.push_back((b - a + q - 1) / q); }
      for (auto* v : {&st, &en, &sd}) op.p.insert(op.p.end(), v->begin(), v->end());
      op.mag = ops[x].mag;
    } else if (n == "reverse") {
      int x = any(); op.in = {x}; op.shape = ops[x].shape;
      for (size_t d = 0; d < op.shape.size(); ++d) if (g.chance(0.6)) op.p.push_back(static_cast<int64_t>(d));
      op.mag = ops[x].mag;
    } else if (n == "broadcast") {
      int x = any(); op.in = {x};
      if (numel(ops[x].shape) > 30) continue;
      int64_t extra = g.range(2, 4);
      if (g.chance(0.5)) { op.shape = ops[x].shape; op.shape.insert(op.shape.begin(), extra); for (size_t d = 0; d < ops[x].shape.size(); ++d) op.p.push_back(static_cast<int64_t>(d) + 1); }
      else { op.shape = ops[x].shape; op.shape.push_back(extra); for (size_t d = 0; d < ops[x].shape.size(); ++d) op.p.push_back(static_cast<int64_t>(d)); }
      op.mag = ops[x].mag;
    } else if (n == "fill") {
      int x = new_input({1}, -1, -1);
      int rs = -1;
      { Op rp; rp.name = "reshape"; rp.in = {x}; rp.shape = {}; rp.mag = ops[x].mag; rs = add(rp); }
      op.in = {rs}; op.shape = gen_shape(g, o); op.mag = ops[x].mag; 
      op.name = "broadcast";
    } else if (n == "concat") {
      int x = any(); int y = same_shape(x);
      op.in = {x, y};
      if (ops[x].shape.empty()) continue;
      int64_t ax = static_cast<int64_t>(g.below(ops[x].shape.size()));
      op.p = {ax}; op.shape = ops[x].shape; op.shape[ax] *= 2; op.mag = std::max(ops[x].mag, ops[y].mag);
    } else if (n == "update") {
      int x = any();
      if (ops[x].shape.empty()) continue;
      std::vector<int64_t> us; std::vector<int64_t> st;
      auto sx = ops[x].shape; int mx = ops[x].mag;
      for (auto d : sx) { int64_t u = g.range(1, d); us.push_back(u); st.push_back(g.range(0, d - u)); }
      int y = new_input(us, -1, -1);
      op.in = {x, y}; op.p = st; op.shape = sx; op.mag = std::max(mx, ops[y].mag);
    } else if (n == "pad") {
      int x = any();
      auto sx = ops[x].shape; int mx = ops[x].mag;
      if (sx.empty() || numel(sx) > 40) continue;
      int y = new_input({1}, -1, -1);
      { Op rp; rp.name = "reshape"; rp.in = {y}; rp.shape = {}; rp.mag = ops[y].mag; y = add(rp); }
      std::vector<int64_t> lo, hi, in;
      for (auto d : sx) { int64_t a = g.range(0, 2), b = g.range(0, 2), c = g.range(0, 1); lo.push_back(a); hi.push_back(b); in.push_back(c); op.shape.push_back(d + a + b + (d - 1) * c); }
      for (auto* v : {&lo, &hi, &in}) op.p.insert(op.p.end(), v->begin(), v->end());
      op.in = {x, y}; op.mag = std::max(mx, ops[y].mag);
    } else if (n == "rand_p" || n == "rand_s") {
      op.shape = gen_shape(g, o);
      op.p = {static_cast<int64_t>(g.below(2))};
      op.mag = full;
    } else if (n == "s2v") {
      int x = any(); op.in = {x}; op.shape = ops[x].shape; op.p = {static_cast<int64_t>(g.below(s.npc))}; op.mag = ops[x].mag;
      if (!o.privates) continue;
    } else if (n == "perm_rand" || n == "inv_perm_rand" || n == "perm_p" || n == "inv_perm_p" || n == "inv_perm_v") {
      // 1-D
      int x = -1;
      for (size_t i = 0; i < ops.size(); ++i) if (ops[i].shape.size() == 1 && ops[i].shape[0] > 1 && g.chance(0.5)) x = static_cast<int>(i);
      if (x < 0) x = new_input({g.range(2, 12)}, -1, 2);
      int64_t c = ops[x].shape[0];
      std::vector<int64_t> pm(c); std::iota(pm.begin(), pm.end(), 0);
      for (size_t i = pm.size(); i > 1; --i) std::swap(pm[i - 1], pm[g.below(i)]);
      op.in = {x}; op.shape = {c}; op.p = pm; op.p.push_back(static_cast<int64_t>(g.below(s.npc))); op.mag = ops[x].mag;
      if (n == "inv_perm_v" && !o.privates) continue;
    } else { continue; }
    int id = add(op);
    ++made;
    // what an operation declares about its result (bit width, strides, type) matters to the next one: often add a consumer that goes by it
    static const std::set<std::string> shaping = {"lshift", "rshift", "arshift", "bitrev", "and", "xor", "msb", "equal", "b2a", "trunc"};
    if (o.only.empty() && o.boolean && shaping.count(n) && made < target && g.chance(0.4)) {
      auto has = [&](const char* q) { return std::find(kinds.begin(), kinds.end(), q) != kinds.end(); };
      std::vector<std::string> cs = {"and", "xor", "add", "mul"};
      if (has("a2b")) { cs.push_back("a2b"); cs.push_back("b2a"); }
      Op c; c.name = g.pick(cs); c.shape = ops[id].shape; c.in = {id}; c.mag = full;
      if (c.name == "a2b" || c.name == "b2a") { c.mag = ops[id].mag; }
      else { int y = g.chance(0.5) ? new_input(c.shape, 13, -1) : same_shape(id); c.in.push_back(y); if (c.name == "add") c.mag = std::min(full, std::max(ops[id].mag, ops[y].mag) + 1); if (c.name == "mul") c.mag = std::min(full, ops[id].mag + ops[y].mag); }
      add(c); ++made;
    }
  }
  // operations left out by the minimiser take their dependents with them
  pr.dead.assign(ops.size(), false);
  for (size_t i = 0; i < ops.size(); ++i) {
    int id = static_cast<int>(i);
    bool d = r.skipped(id);
    for (int x : ops[i].in) if (pr.dead[x]) d = true;
    pr.dead[i] = d;
  }
  deal_inputs(s, pr);
  for (size_t i = 0; i < ops.size(); ++i) if (!pr.dead[i]) r.tag("op:" + ops[i].name);
  return pr;
}

void deal_inputs(const Spec& s, Prog& p) {
  auto io = make_io(s);
  for (size_t i = 0; i < p.ops.size(); ++i) {
    Op& op = p.ops[i];
    if (p.dead[i] || op.name != "in" || op.p.empty()) continue;
    if (op.p[0] == 1 || op.p[0] == 2 || op.p[0] == 7) {
      auto raw = ring_array(s.field, makeType<RingTy>(s.field), op.shape, op.vals);
      op.shares = {io->toShares(raw, VIS_SECRET, op.p[0] != 2 ? static_cast<int>(op.p[1]) : -1)};
    }
  }
}

namespace {
bool isA(const Value& x) { return x.storage_type().isa<AShare>(); }
bool isB(const Value& x) { return x.storage_type().isa<BShare>(); }
Value to_s(SPUContext* c, const Value& x) { return x.isPublic() ? m::p2s(c, x) : x.isPrivate() ? m::v2s(c, x) : x; }
Value to_a(SPUContext* c, const Value& x) { auto y = to_s(c, x); return isB(y) ? m::b2a(c, y) : y; }
Value to_b(SPUContext* c, const Value& x) { auto y = to_s(c, x); return isA(y) ? m::a2b(c, y) : y; }
#define BIN(NAME)                                                        \
  Value do_##NAME(SPUContext* c, const Value& x, const Value& y) {       \
    if (x.isPublic()) {                                                  \
      if (y.isPublic()) return m::NAME##_pp(c, x, y);                    \
      if (y.isPrivate()) return m::NAME##_vp(c, y, x);                   \
      return m::NAME##_sp(c, y, x);                                      \
    }                                                                    \
    if (x.isPrivate()) {                                                 \
      if (y.isPublic()) return m::NAME##_vp(c, x, y);                    \
      if (y.isPrivate()) return m::NAME##_vv(c, x, y);                   \
      return m::NAME##_sv(c, y, x);                                      \
    }                                                                    \
    if (y.isPublic()) return m::NAME##_sp(c, x, y);                      \
    if (y.isPrivate()) return m::NAME##_sv(c, x, y);                     \
    return m::NAME##_ss(c, x, y);                                        \
  }
BIN(add) BIN(mul) BIN(and) BIN(xor)
#undef BIN
Value do_mmul(SPUContext* c, const Value& x, const Value& y) {
  // mixed orders of operands are composed the way the ring layer does it
  if (x.isPublic() && y.isPublic()) return m::mmul_pp(c, x, y);
  if (x.isPrivate() && y.isPublic()) return m::mmul_vp(c, x, y);
  if (x.isPrivate() && y.isPrivate()) return m::mmul_vv(c, x, y);
  if (x.isSecret() && y.isPublic()) return m::mmul_sp(c, x, y);
  if (x.isSecret() && y.isPrivate()) return m::mmul_sv(c, x, y);
  if (x.isSecret() && y.isSecret()) return m::mmul_ss(c, x, y);
  auto xt = m::transpose(c, x, {1, 0}), yt = m::transpose(c, y, {1, 0});
  Value r = x.isPublic() ? (y.isPrivate() ? m::mmul_vp(c, yt, xt) : m::mmul_sp(c, yt, xt)) : m::mmul_sv(c, yt, xt);
  return m::transpose(c, r, {1, 0});
}
#define UN(NAME, ...)                                                       \
  (x.isPublic() ? m::NAME##_p(c, x __VA_OPT__(, ) __VA_ARGS__) : x.isPrivate() ? m::NAME##_v(c, x __VA_OPT__(, ) __VA_ARGS__) : m::NAME##_s(c, x __VA_OPT__(, ) __VA_ARGS__))
void unify(SPUContext* c, Value& x, Value& y) {
  if (x.storage_type() == y.storage_type()) return;
  if (x.isPublic() && y.isPublic()) return;
  x = to_s(c, x); y = to_s(c, y);
  if (x.storage_type() == y.storage_type()) return;
  auto t = m::common_type_s(c, x.storage_type(), y.storage_type());
  x = m::cast_type_s(c, x, t); y = m::cast_type_s(c, y, t);
}
Value raw_in(SPUContext* c, const Spec& s, const Op& op, int rank) {
  const int64_t vis = op.p[0], owner = op.p[1];
  switch (vis) {
    case 0: return make_pub(s, op.shape, op.vals);
    case 1: case 2: return Value(op.shares[0][rank].clone(), DT_INVALID);
    case 7: return m::v2s(c, Value(op.shares[0][rank].clone(), DT_INVALID));
    case 3: return m::p2v(c, make_pub(s, op.shape, op.vals), owner);
    case 4: return m::p2s(c, make_pub(s, op.shape, op.vals));
    case 5: return m::p2b(c, make_pub(s, op.shape, op.vals));
    default: return m::v2s(c, m::p2v(c, make_pub(s, op.shape, op.vals), owner));
  }
}
}  // namespace

void exec_op(SPUContext* c, const Spec& s, const Prog& p, int i, int rank, ProgRun& st) {
  const Op& op = p.ops[i];
  st.regs.resize(p.ops.size());
  if (p.dead[i]) return;
  for (int x : op.in) if (!st.regs[x]) return;
  auto set = [&](Value v) {
    // spdz2k keeps one element per bit in boolean shares: shape operations are defined on arithmetic shares only
    if (s.proto == kSpdz2k && v.isSecret() && isB(v)) v = m::b2a(c, v);
    st.regs[i] = std::move(v);
  };
  const std::string& n = op.name;
  Shape shp(op.shape.begin(), op.shape.end());
  if (n == "in") return set(raw_in(c, s, op, rank));
  if (n == "rand_p") return set(m::rand_p(c, shp));
  if (n == "rand_s" && op.p[0] && s.proto != kRef2k && !c->hasKernel("rand_b")) return;
  if (n == "rand_s") return set(m::rand_s(c, shp, op.p[0] ? DT_I1 : DT_INVALID));
  const Value& x = *st.regs[op.in[0]];
  if (n == "add") return set(do_add(c, x, *st.regs[op.in[1]]));
  if (n == "mul") return set(do_mul(c, x, *st.regs[op.in[1]]));
  if (n == "and") return set(do_and(c, x, *st.regs[op.in[1]]));
  if (n == "xor") return set(do_xor(c, x, *st.regs[op.in[1]]));
  if (n == "mmul") return set(do_mmul(c, x, *st.regs[op.in[1]]));
  if (n == "add_bb") {
    auto a = to_b(c, x), b = to_b(c, *st.regs[op.in[1]]);
    if (a.storage_type() != b.storage_type()) return;  // defined on operands of the same width
    return set(m::add_bb(c, a, b));
  }
  if (n == "equal") {
    const Value& y = *st.regs[op.in[1]];
    if (x.isPublic() && y.isPublic()) return set(m::equal_pp(c, x, y));
    Value a = x.isPublic() ? y : x, b = x.isPublic() ? x : y;
    std::optional<Value> rv;
    if (b.isPublic()) rv = m::equal_sp(c, to_s(c, a), b); else rv = m::equal_ss(c, to_s(c, a), to_s(c, b));
    if (rv) set(*rv); else set(kernel::hal::_equal(c, x, y));
    return;
  }
  if (n == "negate") return set(UN(negate));
  if (n == "not") return set(UN(not));
  if (n == "msb") return set(UN(msb));
  if (n == "square") return set(UN(square));
  if (n == "toP") return set(x.isPublic() ? x : x.isPrivate() ? m::v2p(c, x) : m::s2p(c, x));
  if (n == "toS") return set(to_s(c, x));
  if (n == "cache") {
    if (x.isSecret() && isA(x)) spu::dynDispatch<Value>(c, "beaver_cache", x, op.p[0] != 0);
    return set(x);
  }
  if (n == "s2v") return set(x.isPublic() ? m::p2v(c, x, op.p[0]) : x.isPrivate() ? x : m::s2v(c, x, op.p[0]));
  if (n == "a2b") return set(to_b(c, x));
  if (n == "b2a") return set(to_a(c, to_b(c, x)));
  Sizes bits(op.p.begin(), op.p.end());
  if (n == "lshift") return set(UN(lshift, bits));
  if (n == "rshift") return set(UN(rshift, bits));
  if (n == "arshift") return set(UN(arshift, bits));
  if (n == "bitrev") return set(UN(bitrev, static_cast<size_t>(op.p[0]), static_cast<size_t>(op.p[1])));
  if (n == "bitintl") return set(m::bitintl_b(c, [&] { auto b = to_b(c, x); return m::xor_bp(c, b, m::make_p(c, ~uint128_t(0), b.shape())); }(), op.p[0]));
  if (n == "bitdeintl") return set(m::bitdeintl_b(c, [&] { auto b = to_b(c, x); return m::xor_bp(c, b, m::make_p(c, ~uint128_t(0), b.shape())); }(), op.p[0]));
  if (n == "trunc") return set(UN(trunc, static_cast<size_t>(op.p[0]), static_cast<SignType>(op.p[1])));
  if (n == "mul_1b") {
    const Value& y = *st.regs[op.in[1]];
    if (op.p[0] == 1 && y.isPrivate() && c->hasKernel("mul_a1bv")) { auto rv = m::mul_a1bv(c, to_a(c, x), y); if (rv) return set(*rv); return; }
    if (!c->hasKernel("mul_a1b")) return;
    Value b = to_b(c, y.isPublic() ? y : m::v2p(c, y));
    b.storage_type().as<BShare>();
    Type t = b.storage_type();
    const_cast<BShare*>(b.storage_type().as<BShare>())->setNbits(1);
    return set(m::mul_ss(c, to_a(c, x), b));
  }
  if (n == "reshape") return set(m::reshape(c, x, shp));
  if (n == "transpose") return set(m::transpose(c, x, Axes(op.p.begin(), op.p.end())));
  if (n == "reverse") return set(m::reverse(c, x, Axes(op.p.begin(), op.p.end())));
  if (n == "broadcast") return set(m::broadcast(c, x, shp, Axes(op.p.begin(), op.p.end())));
  if (n == "slice") { size_t d = x.shape().size(); auto b = op.p.begin(); return set(m::extract_slice(c, x, Index(b, b + d), Index(b + d, b + 2 * d), Strides(b + 2 * d, b + 3 * d))); }
  if (n == "concat") { Value a = x, b = *st.regs[op.in[1]]; unify(c, a, b); return set(m::concatenate(c, {a, b}, op.p[0])); }
  if (n == "update") { Value a = x, b = *st.regs[op.in[1]]; unify(c, a, b); return set(m::update_slice(c, a, b, Index(op.p.begin(), op.p.end()))); }
  if (n == "pad") { Value a = x, b = *st.regs[op.in[1]]; unify(c, a, b); size_t d = a.shape().size(); auto q = op.p.begin(); return set(m::pad(c, a, b, Sizes(q, q + d), Sizes(q + d, q + 2 * d), Sizes(q + 2 * d, q + 3 * d))); }
  if (n == "perm_rand" || n == "inv_perm_rand") {
    auto pm = m::rand_perm_s(c, shp);
    if (!pm) return;
    auto xa = to_a(c, x);
    // permute there and back: identity for every random permutation
    auto f = n == "perm_rand" ? m::perm_ss(c, xa, *pm) : m::inv_perm_ss(c, xa, *pm);
    if (!f) return;
    auto b = n == "perm_rand" ? m::inv_perm_ss(c, *f, *pm) : m::perm_ss(c, *f, *pm);
    if (!b) return;
    return set(*b);
  }
  if (n == "perm_p" || n == "inv_perm_p" || n == "inv_perm_v") {
    Ten pv(op.p.begin(), op.p.end() - 1);
    auto pm = make_pub(s, op.shape, pv);
    bool perm = n == "perm_p";
    if (x.isPublic()) return set(perm ? m::perm_pp(c, x, pm) : m::inv_perm_pp(c, x, pm));
    if (x.isPrivate()) { auto pvv = m::p2v(c, pm, x.owner()); return set(perm ? m::perm_vv(c, x, pvv) : m::inv_perm_vv(c, x, pvv)); }
    std::optional<Value> rv;
    if (n == "inv_perm_v") rv = m::inv_perm_sv(c, x, m::p2v(c, pm, op.p.back()));
    else rv = perm ? m::perm_sp(c, x, pm) : m::inv_perm_sp(c, x, pm);
    if (rv) set(*rv);
    return;
  }
  SPU_THROW("unknown op {}", n);
}
void exec_prog(SPUContext* c, const Spec& s, const Prog& p, int rank, ProgRun& st) {
  for (size_t i = 0; i < p.ops.size(); ++i) exec_op(c, s, p, static_cast<int>(i), rank, st);
  // the cache goes by address: forget tensors before they are freed
  for (size_t i = 0; i < p.ops.size(); ++i) if (!p.dead[i] && p.ops[i].name == "cache" && st.regs[i] && st.regs[i]->isSecret() && isA(*st.regs[i])) spu::dynDispatch<Value>(c, "beaver_cache", *st.regs[i], false);
}
RegOut reveal_reg(SPUContext* c, const std::optional<Value>& v) {
  RegOut o;
  if (!v) return o;
  o.present = true;
  o.type = v->storage_type().toString();
  o.vis = v->isPublic() ? 'P' : v->isPrivate() ? 'V' : 'S';
  Value pv = v->isPublic() ? *v : v->isPrivate() ? m::v2p(c, *v) : m::s2p(c, *v);
  o.v = ring_values(pv.data());
  for (auto d : pv.shape()) o.shape.push_back(d);
  return o;
}
std::vector<RegOut> reveal_all(SPUContext* c, const Prog& p, ProgRun& st) {
  std::vector<RegOut> out(p.ops.size());
  st.regs.resize(p.ops.size());
  for (size_t i = 0; i < p.ops.size(); ++i) out[i] = reveal_reg(c, st.regs[i]);
  return out;
}

std::optional<Ten> ref_op(const Spec& s, const Op& op, const std::vector<const Ten*>& in, const std::vector<const std::vector<int64_t>*>& shp, bool pub_trunc) {
  const int k = s.k();
  const u128 M = s.mask();
  const std::string& n = op.name;
  if (n == "in") return op.vals;
  if (n == "rand_p" || n == "rand_s") return std::nullopt;
  const Ten& x = *in[0];
  const int64_t N = numel(op.shape);
  Ten o(N);
  auto ew2 = [&](auto f) { const Ten& y = *in[1]; for (int64_t i = 0; i < N; ++i) o[i] = f(x[i], y[i]) & M; return o; };
  auto ew1 = [&](auto f) { for (int64_t i = 0; i < N; ++i) o[i] = f(x[i], i) & M; return o; };
  if (n == "add" || n == "add_bb") return ew2([](u128 a, u128 b) { return a + b; });
  if (n == "mul" || n == "mul_1b") return ew2([](u128 a, u128 b) { return a * b; });
  if (n == "and") return ew2([](u128 a, u128 b) { return a & b; });
  if (n == "xor") return ew2([](u128 a, u128 b) { return a ^ b; });
  if (n == "equal") return ew2([](u128 a, u128 b) { return u128(a == b); });
  if (n == "negate") return ew1([](u128 a, int64_t) { return ~a + 1; });
  if (n == "not") return ew1([](u128 a, int64_t) { return ~a; });
  if (n == "square") return ew1([](u128 a, int64_t) { return a * a; });
  if (n == "msb") return ew1([&](u128 a, int64_t) { return (a >> (k - 1)) & 1; });
  if (n == "toP" || n == "toS" || n == "cache" || n == "s2v" || n == "a2b" || n == "b2a" || n == "reshape" || n == "perm_rand" || n == "inv_perm_rand") return x;
  auto sh = [&](int64_t i) { return static_cast<int>(op.p.size() == 1 ? op.p[0] : op.p[i]); };
  if (n == "lshift") return ew1([&](u128 a, int64_t i) { return a << sh(i); });
  if (n == "rshift") return ew1([&](u128 a, int64_t i) { return a >> sh(i); });
  if (n == "arshift") return ew1([&](u128 a, int64_t i) { return sra(a, sh(i), k); });
  if (n == "trunc") return ew1([&](u128 a, int64_t) { return sra(a, static_cast<int>(op.p[0]), k) + (pub_trunc ? (a >> (op.p[0] - 1)) & 1 : u128(0)); });  // public values are rounded to nearest
  if (n == "bitrev") return ew1([&](u128 a, int64_t) { return bitrev(a, static_cast<int>(op.p[0]), static_cast<int>(op.p[1])); });
  if (n == "bitintl" || n == "bitdeintl") {
    // operates on groups of 2^stride bits
    const int w = 1 << op.p[0];
    const int cnt = k / w;
    u128 wm = w == 128 ? ~u128(0) : ((u128(1) << w) - 1);
    return ew1([&](u128 a, int64_t) {
      a = ~a & M;  // exec_op complements its input to obtain full-width shares
      u128 r = 0;
      for (int i = 0; i < cnt; ++i) {
        int half = cnt / 2;
        int src = n == "bitintl" ? (i % 2 == 0 ? i / 2 : half + i / 2) : (i < half ? 2 * i : 2 * (i - half) + 1);
        r |= ((a >> (src * w)) & wm) << (i * w);
      }
      return r; });
  }
  if (n == "mmul") {
    const Ten& y = *in[1];
    int64_t M0 = (*shp[0])[0], K = (*shp[0])[1], N0 = (*shp[1])[1];
    for (int64_t a = 0; a < M0; ++a) for (int64_t b = 0; b < N0; ++b) { u128 t = 0; for (int64_t q = 0; q < K; ++q) t += x[a * K + q] * y[q * N0 + b]; o[a * N0 + b] = t & M; }
    return o;
  }
  const auto& sx = *shp[0];
  if (n == "transpose") {
    for (int64_t i = 0; i < N; ++i) { auto ix = unflat(i, op.shape); std::vector<int64_t> jx(sx.size()); for (size_t d = 0; d < sx.size(); ++d) jx[op.p[d]] = ix[d]; o[i] = x[flat(jx, sx)]; }
    return o;
  }
  if (n == "reverse") {
    for (int64_t i = 0; i < N; ++i) { auto ix = unflat(i, op.shape); for (auto d : op.p) ix[d] = sx[d] - 1 - ix[d]; o[i] = x[flat(ix, sx)]; }
    return o;
  }
  if (n == "slice") {
    size_t d = sx.size();
    for (int64_t i = 0; i < N; ++i) { auto ix = unflat(i, op.shape); for (size_t q = 0; q < d; ++q) ix[q] = op.p[q] + ix[q] * op.p[2 * d + q]; o[i] = x[flat(ix, sx)]; }
    return o;
  }
  if (n == "broadcast") {
    for (int64_t i = 0; i < N; ++i) { auto ix = unflat(i, op.shape); std::vector<int64_t> jx(sx.size()); for (size_t q = 0; q < sx.size(); ++q) jx[q] = sx[q] == 1 ? 0 : ix[op.p[q]]; o[i] = x[flat(jx, sx)]; }
    return o;
  }
  if (n == "concat") {
    int64_t ax = op.p[0], d0 = sx[ax];
    for (int64_t i = 0; i < N; ++i) { auto ix = unflat(i, op.shape); bool second = ix[ax] >= d0; if (second) ix[ax] -= d0; o[i] = (second ? *in[1] : x)[flat(ix, sx)]; }
    return o;
  }
  if (n == "update") {
    o = x;
    const auto& su = *shp[1];
    for (int64_t i = 0; i < numel(su); ++i) { auto ix = unflat(i, su); for (size_t q = 0; q < ix.size(); ++q) ix[q] += op.p[q]; o[flat(ix, sx)] = (*in[1])[i]; }
    return o;
  }
  if (n == "pad") {
    size_t d = sx.size();
    for (auto& v : o) v = (*in[1])[0];
    for (int64_t i = 0; i < numel(sx); ++i) { auto ix = unflat(i, sx); for (size_t q = 0; q < d; ++q) ix[q] = op.p[q] + ix[q] * (1 + op.p[2 * d + q]); o[flat(ix, op.shape)] = x[i]; }
    return o;
  }
  if (n == "perm_p") { for (int64_t i = 0; i < N; ++i) o[i] = x[op.p[i]]; return o; }
  if (n == "inv_perm_p" || n == "inv_perm_v") { for (int64_t i = 0; i < N; ++i) o[op.p[i]] = x[i]; return o; }
  return std::nullopt;
}

void check_prog(Run& r, const Spec& s, const Prog& p, const std::vector<std::vector<RegOut>>& out, const std::string& what) {
  const int k = s.k();
  const u128 M = s.mask();
  for (size_t i = 0; i < p.ops.size(); ++i) {
    if (p.dead[i]) continue;
    const Op& op = p.ops[i];
    const auto& base = out[0][i];
    for (size_t q = 1; q < out.size(); ++q) {
      r.check(out[q][i].present == base.present && out[q][i].vis == base.vis && out[q][i].v == base.v && out[q][i].shape == base.shape, "parties_disagree",
              cat(what, s.str(), " r", i, "=", op.name, ": party 0 sees ", base.vis, ten_str(base.v), ", party ", q, " sees ", out[q][i].vis, ten_str(out[q][i].v), " in ", p.str()));
    }
    if (!base.present) { r.tag("absent:" + op.name); continue; }
    bool have = true;
    std::vector<const Ten*> in; std::vector<const std::vector<int64_t>*> sh;
    for (int x : op.in) { if (!out[0][x].present) have = false; in.push_back(&out[0][x].v); sh.push_back(&p.ops[x].shape); }
    if (!have) continue;
    r.check(base.shape == op.shape, "wrong_shape", cat(what, s.str(), " r", i, "=", op.name, " has the wrong shape in ", p.str()));
    auto ref = ref_op(s, op, in, sh, base.vis != 'S');
    if (!ref) {
      if (op.name == "rand_p" || op.name == "rand_s") {
        // bounded domain, and not constant
        bool bit = op.name == "rand_s" && op.p[0] == 1;
        (void)bit;
        if (base.v.size() >= 8 && !bit) { std::set<u128> d(base.v.begin(), base.v.end()); r.check(d.size() > 1, "random_constant", cat(s.str(), " ", op.name, " returned a constant tensor ", ten_str(base.v))); }
      }
      continue;
    }
    for (size_t e = 0; e < ref->size(); ++e) {
      u128 got = base.v[e] & M, want = (*ref)[e] & M;
      if (base.v[e] != got) r.fail("wrong_result", cat(what, s.str(), " r", i, "=", op.name, " element ", e, " has bits outside of the ring: ", u128s(base.v[e])));
      bool ok = got == want;
      if (!ok && op.name == "trunc" && base.vis == 'S') {
        // bounded rounding error
        u128 d = (got - want) & M;
        u128 d2 = (want - got) & M;
        u128 dd = d < d2 ? d : d2;
        ok = dd <= u128(std::max(2, s.npc));
        r.tag("trunc_error_within_bound");
      }
      if (!ok) {
        std::string ins;
        for (size_t a = 0; a < op.in.size(); ++a) ins += cat(" r", op.in[a], "=", out[0][op.in[a]].vis, "(", out[0][op.in[a]].type, ")", ten_str(out[0][op.in[a]].v));
        r.fail("wrong_result", cat(what, s.str(), " r", i, "=", op.name, " element ", e, ": got ", u128s(got), ", the plaintext ring gives ", u128s(want), "; inputs", ins, "; program ", p.str()));
      }
    }
    r.evals += ref->size();
  }
  r.states.insert(hash_str(cat(s.str(), p.str())));
  (void)k;
}
}  // namespace h
