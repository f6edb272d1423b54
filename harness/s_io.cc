// What a party provides is what programs compute on, and what they compute is what
// parties get: IoClient, ColocatedIo and the chunked wire format of values.
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstring>
#include <limits>

#include "libspu/core/config.h"
#include "libspu/core/encoding.h"
#include "libspu/core/pt_buffer_view.h"
#include "libspu/core/type_util.h"
#include "libspu/device/io.h"
#include "libspu/kernel/hal/public_helper.h"
#include "libspu/kernel/hal/type_cast.h"
#include "libspu/kernel/hlo/basic_binary.h"
#include "world.h"
using namespace h;
using namespace spu;

namespace {
using Shape_ = std::vector<int64_t>;
int64_t numel(const Shape_& s) { int64_t n = 1; for (auto d : s) n *= d; return n; }
struct Plain { PtType t = PT_I32; Shape_ shape; std::vector<char> b; };  // elements in row-major order
bool is_cx(PtType t) { return t == PT_CF32 || t == PT_CF64; }
bool is_fl(PtType t) { return t == PT_F16 || t == PT_F32 || t == PT_F64; }
size_t es_of(PtType t) { return t == PT_CF32 ? 8 : t == PT_CF64 ? 16 : SizeOf(t); }
const char* pt_name(PtType t) {
  switch (t) { case PT_I1: return "i1"; case PT_I8: return "i8"; case PT_U8: return "u8"; case PT_I16: return "i16"; case PT_U16: return "u16"; case PT_I32: return "i32"; case PT_U32: return "u32"; case PT_I64: return "i64"; case PT_U64: return "u64"; case PT_F16: return "f16"; case PT_F32: return "f32"; case PT_F64: return "f64"; case PT_CF32: return "cf32"; case PT_CF64: return "cf64"; default: return "?"; }
}
double get_real(PtType t, const char* p) {
  if (t == PT_F64) { double d; std::memcpy(&d, p, 8); return d; }
  if (t == PT_F32) { float d; std::memcpy(&d, p, 4); return d; }
  half_float::half d; std::memcpy(&d, p, 2); return static_cast<float>(d);
}
void put_real(PtType t, char* p, double v) {
  if (t == PT_F64) std::memcpy(p, &v, 8);
  else if (t == PT_F32) { float d = static_cast<float>(v); std::memcpy(p, &d, 4); }
  else { half_float::half d(static_cast<float>(v)); std::memcpy(p, &d, 2); }
}
double gen_real(sim::Rng& g, int k, int f) {
  const double lim = std::ldexp(1.0, k - 2 - f), u = std::ldexp(1.0, -f);
  switch (g.below(12)) {
    case 0: return 0.0;
    case 1: return -0.0;
    case 2: return g.pick(std::vector<double>{u, -u, 1.5 * u, -1.5 * u, u / 2, -u / 2, u / 1024});
    case 3: return std::numeric_limits<double>::quiet_NaN();
    case 4: return (g.chance(0.5) ? 1 : -1) * std::numeric_limits<double>::infinity();
    case 5: return (g.chance(0.5) ? 1 : -1) * lim * g.pick(std::vector<double>{0.5, 0.99, 1.01, 4, 1e6});
    case 6: return static_cast<double>(g.range(-1000, 1000));
    default: return std::ldexp((static_cast<double>(g.below(1 << 30)) / (1 << 29)) - 1, static_cast<int>(g.range(-f - 2, std::min(k - 3 - f, 60))));
  }
}
// `fits`: the ring has room for it
std::vector<PtType> types_for(int k, bool cx) {
  std::vector<PtType> t{PT_I1, PT_I8, PT_U8, PT_I16, PT_U16, PT_I32, PT_U32, PT_F16, PT_F32, PT_F32, PT_F64};
  if (k > 32) { t.push_back(PT_I64); t.push_back(PT_U64); }
  if (cx) { t.push_back(PT_CF32); t.push_back(PT_CF64); }
  return t;
}
Shape_ gen_shape(sim::Rng& g) {
  switch (g.below(8)) {
    case 0: return {};
    case 1: return {1};
    case 2: return {g.range(1, 40)};
    case 3: return {g.range(1, 5), g.range(1, 6)};
    case 4: return {g.range(1, 3), g.range(1, 4), g.range(1, 4)};
    case 5: return g.chance(0.2) ? Shape_{0} : Shape_{g.range(2, 9)};
    case 6: return {g.range(1, 4), 1, g.range(1, 5)};
    default: return {g.range(2, 8), g.range(2, 8)};
  }
}
Plain gen_plain(sim::Rng& g, PtType t, const Shape_& shape, int k, int f) {
  Plain p; p.t = t; p.shape = shape;
  const size_t es = es_of(t), n = static_cast<size_t>(numel(shape));
  p.b.resize(n * es);
  for (size_t i = 0; i < n; ++i) {
    char* q = p.b.data() + i * es;
    if (is_cx(t)) { PtType h = t == PT_CF32 ? PT_F32 : PT_F64; put_real(h, q, gen_real(g, k, f)); put_real(h, q + es / 2, gen_real(g, k, f)); }
    else if (is_fl(t)) put_real(t, q, gen_real(g, k, f));
    else if (t == PT_I1) *q = static_cast<char>(g.below(2));
    else { uint64_t v = g.next(); switch (g.below(6)) { case 0: v = 0; break; case 1: v = ~uint64_t(0); break; case 2: v = uint64_t(1) << (8 * es - 1); break; case 3: v = (uint64_t(1) << (8 * es - 1)) - 1; break; default: break; } std::memcpy(q, &v, es); }
  }
  return p;
}
// One element of real type that went through the ring.
bool real_ok(PtType t, double x, double y, int k, int f) {
  const double u = std::ldexp(1.0, -f), lim = std::ldexp(1.0, k - 2 - f);
  const double rel = t == PT_F64 ? std::ldexp(1.0, -52) : t == PT_F32 ? std::ldexp(1.0, -22) : std::ldexp(1.0, -9);
  if (std::isnan(x)) return y == 0;
  auto near = [&](double w, double tol) {
    if (t == PT_F16 && std::fabs(w) > 65000) return std::isinf(y) ? (y > 0) == (w > 0) : std::fabs(y - w) <= tol;
    return std::fabs(y - w) <= tol;
  };
  if (std::fabs(x) < lim * 0.999) return near(x, u + std::fabs(x) * rel) && (y == 0 || (x > 0) == (y > 0));
  const double w = x > 0 ? lim : -lim;
  if (std::fabs(x) > lim * 1.001) return near(w, u + lim * 2e-3);
  return near(x, u + lim * 4e-3);
}
std::string diff(const Plain& in, PtType ot, const char* out, int k, int f) {  // empty: agree
  if (in.t != ot) return cat("type ", pt_name(in.t), " became ", pt_name(ot));
  const size_t es = es_of(in.t), n = static_cast<size_t>(numel(in.shape));
  for (size_t i = 0; i < n; ++i) {
    const char* a = in.b.data() + i * es; const char* b = out + i * es;
    if (is_cx(in.t) || is_fl(in.t)) {
      PtType h = in.t == PT_CF32 ? PT_F32 : in.t == PT_CF64 ? PT_F64 : in.t;
      for (size_t o = 0; o < es; o += is_cx(in.t) ? es / 2 : es) {
        double x = get_real(h, a + o), y = get_real(h, b + o);
        if (!real_ok(h, x, y, k, f)) return cat("element ", i, o ? " (imaginary)" : "", " ", x, " became ", y);
      }
    } else if (std::memcmp(a, b, es) != 0) return cat("element ", i, " of type ", pt_name(in.t), ": ", static_cast<int>(a[0]), ".. became ", static_cast<int>(b[0]), "..");
  }
  return "";
}
// The same elements, compact, transposed in memory or interleaved with others.
NdArrayRef relayout(sim::Rng& g, const NdArrayRef& a) {
  Axes rev; for (size_t d = 0; d < a.shape().size(); ++d) rev.push_back(static_cast<int64_t>(a.shape().size() - 1 - d));
  switch (g.below(4)) {
    case 0: return a;
    case 1: return a.clone();
    case 2: return a.transpose(rev).clone().transpose(rev);
  }
  const size_t d = g.below(a.shape().size());
  Shape big = a.shape(); big[d] *= 2;
  NdArrayRef b(a.eltype(), big);
  for (int64_t i = 0; i < b.numel() * static_cast<int64_t>(b.elsize()); ++i) b.data<uint8_t>()[i] = static_cast<uint8_t>(g.next());
  Index st(a.shape().size(), 0), en(big.begin(), big.end()); Strides sd(a.shape().size(), 1); sd[d] = 2;
  auto v = b.slice(st, en, sd);
  for (int64_t i = 0; i < a.numel(); ++i) std::memcpy(&v.at(i), &a.at(i), a.elsize());
  return v;
}
// A buffer with the given elements behind an arbitrary layout.
struct Layout { std::vector<char> mem; size_t base = 0; Strides strides; };
Layout gen_layout(sim::Rng& g, const Shape_& shape, size_t es, bool compact) {
  Layout l;
  const int nd = static_cast<int>(shape.size());
  if (compact) { l.strides = makeCompactStrides(Shape(shape)); l.mem.resize(std::max<size_t>(1, numel(shape) * es)); return l; }
  std::vector<int> perm(nd); for (int i = 0; i < nd; ++i) perm[i] = i;
  for (int i = nd; i > 1; --i) std::swap(perm[i - 1], perm[g.below(i)]);
  l.strides.resize(nd);
  int64_t step = g.range(1, 3), lo = 0, hi = 0;
  for (int i = nd - 1; i >= 0; --i) {
    int d = perm[i];
    bool neg = g.chance(0.25);
    l.strides[d] = neg ? -step : step;
    int64_t ext = step * std::max<int64_t>(0, shape[d] - 1);
    (neg ? lo : hi) += ext;
    step = step * shape[d] + g.range(0, 2);
    if (step == 0) step = 1;
  }
  l.base = static_cast<size_t>(lo) * es;
  l.mem.resize((lo + hi + 1) * es + 16);
  for (auto& c : l.mem) c = static_cast<char>(g.next());
  return l;
}
size_t at(const Layout& l, const Shape_& shape, int64_t i, size_t es) {
  int64_t o = 0;
  for (int d = static_cast<int>(shape.size()) - 1; d >= 0; --d) { o += (i % shape[d]) * l.strides[d]; i /= shape[d]; }
  return l.base + o * static_cast<int64_t>(es);
}
void fill_layout(Layout& l, const Plain& p) { const size_t es = es_of(p.t); for (int64_t i = 0; i < numel(p.shape); ++i) std::memcpy(l.mem.data() + at(l, p.shape, i, es), p.b.data() + i * es, es); }
std::vector<char> read_layout(const Layout& l, const Shape_& shape, size_t es) { std::vector<char> o(numel(shape) * es); for (int64_t i = 0; i < numel(shape); ++i) std::memcpy(o.data() + i * es, l.mem.data() + at(l, shape, i, es), es); return o; }
Plain arr_plain(const NdArrayRef& a) {
  Plain p; p.t = a.eltype().as<PtTy>()->pt_type();
  p.shape.assign(a.shape().begin(), a.shape().end());
  auto c = a.clone();
  p.b.assign(c.data<char>(), c.data<char>() + numel(p.shape) * es_of(p.t));
  return p;
}

// ---- wire format --------------------------------------------------------------
ValueProto over_wire(sim::Rng& g, const ValueProto& in, bool shuffle) {
  ValueProto p;
  SPU_ENFORCE(p.meta.ParseFromString(in.meta.SerializeAsString()));
  for (auto& c : in.chunks) { p.chunks.emplace_back(); SPU_ENFORCE(p.chunks.back().ParseFromString(c.SerializeAsString())); }
  if (shuffle) {
    size_t half = in.meta.is_complex() ? p.chunks.size() / 2 : p.chunks.size();
    for (size_t lo = 0; half && lo < p.chunks.size(); lo += half) for (size_t i = half; i > 1; --i) p.chunks[lo + i - 1].Swap(&p.chunks[lo + g.below(i)]);
  }
  return p;
}
// Damages a message so that it no longer describes one value. Returns what was done, or "" if it could not.
std::string damage(sim::Rng& g, ValueProto& p, int what) {
  if (p.chunks.empty()) return "";
  size_t i = g.below(p.chunks.size());
  auto& c = p.chunks[i];
  const bool cx = p.meta.is_complex();
  switch (what) {
    case 0: if (cx) return ""; p.chunks.erase(p.chunks.begin() + i); return "a chunk is missing";
    case 1: if (cx) return ""; { pb::ValueChunkProto d = c; p.chunks.insert(p.chunks.begin() + g.below(p.chunks.size() + 1), d); } return "a chunk comes twice";
    case 2: c.set_chunk_offset(c.chunk_offset() + g.range(1, 9)); return "an offset is wrong";
    case 3: { std::string s = c.content(); s.resize(s.size() + (g.chance(0.5) ? 1 : (1u << 24)), 'x'); c.set_content(s); } return "a chunk is too long";
    case 4: { std::string s = c.content(); s.pop_back(); c.set_content(s); } return "a chunk is too short";
    case 5: for (auto& q : p.chunks) q.set_total_bytes(q.total_bytes() + g.range(1, 8)); return "the total is wrong";
    case 6: p.meta.set_visibility(p.meta.visibility() == pb::VIS_PUBLIC ? pb::VIS_SECRET : pb::VIS_PUBLIC); return "the visibility is wrong";
    case 7: p.meta.set_data_type(pb::DT_INVALID); return "the data type is invalid";
    case 8: { auto* d = p.meta.mutable_shape()->mutable_dims(); if (d->size() == 0) p.meta.mutable_shape()->add_dims(2); else d->Set(0, d->Get(0) + 1); } return "the shape is wrong";
  }
  return "";
}
}  // namespace

static void io_client_case(Run& r, const std::vector<Proto>& protos) {
  Spec s = pick_spec(r, protos, false);
  s.conf.experimental_enable_colocated_optimization = r.coin("colocated", 0.4);
  if (s.conf.fxp_fraction_bits == 0) populateRuntimeConfig(s.conf);
  const int k = s.k();
  auto g = r.rng("io");
  if (g.chance(0.3)) s.conf.fxp_fraction_bits = k == 32 ? g.pick(std::vector<int64_t>{6, 8, 10}) : g.pick(std::vector<int64_t>{10, 16, 20, 26});
  const int f = static_cast<int>(s.conf.fxp_fraction_bits);
  auto cfg = sim_config(r, 0);
  const int n_vals = static_cast<int>(r.draw("values", 1, 6));
  std::string err;
  int done = 0;
  simulate(r, cfg, [&] {
    device::IoClient io(s.npc, s.conf);
    for (int v = 0; v < n_vals && err.empty(); ++v) {
      auto gv = r.rng(cat("value", v));
      if (r.skipped(v)) continue;
      PtType t = gv.pick(types_for(k, true));
      const bool too_big = k == 32 && gv.chance(0.05);
      if (too_big) t = gv.chance(0.5) ? PT_I64 : PT_U64;
      const Shape_ shape = gen_shape(gv);
      Plain p = gen_plain(gv, t, shape, k, f);
      const size_t es = es_of(t);
      const bool cx = is_cx(t);
      const Visibility vis = gv.chance(0.3) ? VIS_PUBLIC : VIS_SECRET;
      const int owner = gv.chance(0.5) ? -1 : static_cast<int>(gv.below(s.npc));
      Layout in = gen_layout(gv, shape, es, gv.chance(0.5));
      fill_layout(in, p);
      const void* ptr = in.mem.data() + in.base;
      PtBufferView bv(ptr, t, Shape(shape), in.strides);
      std::string who = cat(s.str(), " f=", f, " ", pt_name(t), " ", bv.shape, " strides ", bv.strides, vis == VIS_PUBLIC ? " public" : " secret", " owner ", owner, s.conf.experimental_enable_colocated_optimization ? " colocated" : "");
      if (v == 0) r.note = who;
      std::vector<Value> shares;
      if (too_big) {
        bool refused = false;
        try { shares = io.makeShares(bv, vis, owner); } catch (const std::exception&) { refused = true; }
        if (!refused && numel(shape)) { err = cat("lossy\x1f", who, " was accepted in a ring of ", k, " bits"); return; }
        r.tag("io:too_big"); ++done;
        continue;
      }
      shares = io.makeShares(bv, vis, owner);
      if (shares.size() != static_cast<size_t>(s.npc)) { err = cat("wrong_shares\x1f", who, " gave ", shares.size(), " shares"); return; }
      if (!cx) {
        const size_t want = io.getShareSize(bv, vis, owner);
        for (auto& x : shares) if (static_cast<size_t>(x.numel() * x.elsize()) != want) { err = cat("wrong_share_size\x1f", who, " announced ", want, " bytes a share, got ", x.numel() * x.elsize()); return; }
      }
      for (auto& x : shares) if (x.isComplex() != cx || Shape_(x.shape().begin(), x.shape().end()) != shape) { err = cat("wrong_shares\x1f", who, " share is ", cat(x)); return; }
      // a view that every runtime takes of the value
      Plain want = p;
      if (shape.size() >= 2 && gv.chance(0.3)) {
        Axes perm; for (size_t d = 0; d < shape.size(); ++d) perm.push_back(static_cast<int64_t>(shape.size() - 1 - d));
        for (auto& x : shares) x = cx ? Value(x.data().transpose(perm), x.imag()->transpose(perm), x.dtype()) : Value(x.data().transpose(perm), x.dtype());
        want.shape.assign(shape.rbegin(), shape.rend());
        for (int64_t i = 0; i < numel(shape); ++i) {
          int64_t q = i, o = 0; std::vector<int64_t> ix(shape.size());
          for (int d = static_cast<int>(want.shape.size()) - 1; d >= 0; --d) { ix[d] = q % want.shape[d]; q /= want.shape[d]; }
          for (size_t d = 0; d < shape.size(); ++d) o = o * shape[d] + ix[shape.size() - 1 - d];
          std::memcpy(want.b.data() + i * es, p.b.data() + o * es, es);
        }
        r.tag("io:transposed");
      } else if (!shape.empty() && numel(shape) > 1 && gv.chance(0.3)) {
        Index st, en; Strides sd; Shape_ ns;
        for (auto d : shape) { int64_t a = gv.range(0, d - 1), b = gv.range(a + 1, d), q = gv.range(1, 2); st.push_back(a); en.push_back(b); sd.push_back(q); ns.push_back((b - a + q - 1) / q); }
        for (auto& x : shares) x = cx ? Value(x.data().slice(st, en, sd), x.imag()->slice(st, en, sd), x.dtype()) : Value(x.data().slice(st, en, sd), x.dtype());
        want.shape = ns; want.b.assign(numel(ns) * es, 0);
        for (int64_t i = 0; i < numel(ns); ++i) {
          int64_t q = i, o = 0; std::vector<int64_t> ix(ns.size());
          for (int d = static_cast<int>(ns.size()) - 1; d >= 0; --d) { ix[d] = q % ns[d]; q /= ns[d]; }
          for (size_t d = 0; d < shape.size(); ++d) o = o * shape[d] + st[d] + ix[d] * sd[d];
          std::memcpy(want.b.data() + i * es, p.b.data() + o * es, es);
        }
        r.tag("io:sliced");
      }
      // each part of each share lies in memory as the operations before left it
      if (numel(want.shape) > 0 && !want.shape.empty() && gv.chance(0.3)) {
        for (auto& x : shares) x = cx ? Value(relayout(gv, x.data()), relayout(gv, *x.imag()), x.dtype()) : Value(relayout(gv, x.data()), x.dtype());
        r.tag("io:mixed_layouts");
      }
      // dispatch: straight, or in chunks over a wire that may reorder, lose, repeat or cut them
      if (gv.chance(0.7)) {
        const size_t total = static_cast<size_t>(shares[0].numel() * shares[0].elsize());
        const size_t chunk = static_cast<size_t>(gv.pick(std::vector<int64_t>{1 << 20, static_cast<int64_t>(std::max<size_t>(1, total)), static_cast<int64_t>(std::max<size_t>(1, total / 2)), 1, 3, 7, 16, 33}));
        for (auto& x : shares) {
          auto sent = x.toProto(chunk);
          const size_t n1 = (static_cast<size_t>(x.numel() * x.elsize()) + chunk - 1) / chunk;
          if (x.chunksCount(chunk) != n1 || sent.chunks.size() != n1 * (cx ? 2 : 1)) { err = cat("wrong_chunks\x1f", who, " ", sent.chunks.size(), " chunks of ", chunk, " bytes for ", total, " bytes, announced ", x.chunksCount(chunk)); return; }
          for (auto& c : sent.chunks) if (c.content().size() > chunk) { err = cat("wrong_chunks\x1f", who, " a chunk of ", c.content().size(), " bytes where ", chunk, " are allowed"); return; }
          if (gv.chance(0.15)) {
            auto bad = over_wire(gv, sent, true);
            std::string what = damage(gv, bad, static_cast<int>(gv.below(9)));
            if (!what.empty()) {
              bool refused = false;
              try { Value y = Value::fromProto(bad); } catch (const std::exception&) { refused = true; }
              if (!refused) { err = cat("damage_accepted\x1f", who, " chunks of ", chunk, ": ", what, ", yet the value was accepted"); return; }
              r.tag("io:damage " + what);
            }
          }
          Value y = Value::fromProto(over_wire(gv, sent, gv.chance(0.6)));
          if (!(y.storage_type() == x.storage_type()) || y.dtype() != x.dtype() || y.shape() != x.shape()) { err = cat("wrong_value\x1f", who, " ", cat(x), " became ", cat(y), " on the wire"); return; }
          x = y;
        }
        r.tag("io:wire");
      }
      const PtType ot = io.getPtType(shares);
      Layout ol = gen_layout(gv, want.shape, es_of(ot), gv.chance(0.5));
      std::vector<char> before = ol.mem;
      PtBufferView out(static_cast<void*>(ol.mem.data() + ol.base), ot, Shape(want.shape), ol.strides);
      io.combineShares(shares, &out);
      auto got = read_layout(ol, want.shape, es_of(ot));
      std::string d = diff(want, ot, got.data(), k, f);
      if (!d.empty()) { err = cat("wrong_value\x1f", who, " came back as ", Shape(want.shape), " strides ", ol.strides, ": ", d); return; }
      // nothing beside the elements is touched
      for (int64_t i = 0; i < numel(want.shape); ++i) std::memcpy(ol.mem.data() + at(ol, want.shape, i, es_of(ot)), before.data() + at(ol, want.shape, i, es_of(ot)), es_of(ot));
      if (ol.mem != before) { err = cat("stray_write\x1f", who, " result ", Shape(want.shape), " strides ", ol.strides, " wrote beside its elements"); return; }
      ++done;
      r.tag(cat("io:", pt_name(t)));
    }
  });
  r.evals += done;
  if (!err.empty()) { size_t i = err.find('\x1f'); r.fail(err.substr(0, i), err.substr(i + 1)); }
}
SCENARIO(io_client) { io_client_case(r, {kSemi2k, kAby3, kCheetah, kSecurenn, kRef2k, kSwift}); }

// ---- parties that provide their inputs next to the runtime ---------------------
namespace {
struct Var { std::string name; int owner; Visibility vis; Plain p; bool bits = false; };
}  // namespace
static void colocated_case(Run& r, const std::vector<Proto>& protos) {
  Spec s = pick_spec(r, protos);
  s.conf.experimental_enable_colocated_optimization = r.coin("colocated", 0.5);
  const int k = s.k(), f = static_cast<int>(s.conf.fxp_fraction_bits);
  auto cfg = sim_config(r, 1);
  const int rounds = static_cast<int>(r.draw("rounds", 1, 3));
  const bool dup = r.coin("duplicate_name", 0.08);
  auto g = r.rng("vars");
  // round -> variables; names may be reused from round to round
  std::vector<std::vector<Var>> plan(rounds);
  int id = 0;
  for (auto& vs : plan) {
    const int n = static_cast<int>(g.range(0, 2 * s.npc));
    std::set<std::string> used;
    for (int i = 0; i < n; ++i) {
      Var v;
      v.name = g.chance(0.3) ? cat("x", g.below(6)) : cat("v", id);
      int me = id++;
      if (used.count(v.name)) continue;
      used.insert(v.name);
      v.owner = static_cast<int>(g.below(s.npc));
      v.vis = g.chance(0.3) ? VIS_PUBLIC : VIS_SECRET;
      auto t = g.pick(types_for(k, false));
      auto sh = gen_shape(g);
      v.p = gen_plain(g, t, sh, k, f);
      v.bits = t == PT_I1 && g.chance(0.5);
      if (r.skipped(me)) continue;
      vs.push_back(v);
    }
  }
  const int dup_round = dup ? static_cast<int>(g.below(rounds)) : -1;
  if (dup) {
    if (plan[dup_round].empty() || s.npc < 2) throw Discard{};
    Var v = plan[dup_round][g.below(plan[dup_round].size())];
    v.owner = (v.owner + 1) % s.npc;
    plan[dup_round].push_back(v);
  }
  r.note = cat(s.str(), " ", rounds, " rounds", dup ? " with a duplicate name" : "");
  for (auto& vs : plan) { r.note += " |"; for (auto& v : vs) r.note += cat(" ", v.name, "=", pt_name(v.p.t), Shape(v.p.shape), "@", v.owner, v.vis == VIS_PUBLIC ? "p" : "s"); }
  struct Got { std::string err; std::map<std::string, std::pair<PtType, std::vector<char>>> dev, host; std::map<std::string, Plain> pre; };
  std::vector<std::vector<Got>> got(s.npc, std::vector<Got>(rounds));
  std::vector<int> refused(s.npc, 0);
  auto oc = run_parties(r, s, cfg, [&](SPUContext* ctx, int rank) {
    device::ColocatedIo io(ctx);
    auto gl = r.rng(cat("layout", rank));
    std::set<std::string> names;
    for (int q = 0; q < rounds; ++q) {
      for (auto& v : plan[q]) if (v.owner == rank) {
        if (v.bits) {
          std::vector<uint8_t> m((v.p.b.size() + 7) / 8 + 1, 0);
          for (size_t i = 0; i < v.p.b.size(); ++i) if (v.p.b[i]) m[i / 8] |= static_cast<uint8_t>(1 << (i % 8));
          io.hostSetVar(v.name, PtBufferView(static_cast<const void*>(m.data()), PT_I1, Shape(v.p.shape), makeCompactStrides(Shape(v.p.shape)), true), v.vis);
          for (auto& c : m) c = 0xa5;
        } else {
          Layout l = gen_layout(gl, v.p.shape, es_of(v.p.t), gl.chance(0.5));
          fill_layout(l, v.p);
          io.hostSetVar(v.name, PtBufferView(static_cast<const void*>(l.mem.data() + l.base), v.p.t, Shape(v.p.shape), l.strides), v.vis);
          for (auto& c : l.mem) c = 0x5a;  // the buffer is the caller's again
        }
        got[rank][q].pre[v.name] = arr_plain(io.hostGetVar(v.name));
      }
      try { io.sync(); } catch (const std::exception& e) {
        if (q == dup_round) { refused[rank] = 1; return; }
        throw;
      }
      for (auto& v : plan[q]) names.insert(v.name);
      for (auto& nm : names) {
        if (!io.deviceHasVar(nm)) { got[rank][q].err = cat(nm, " is not there"); return; }
        auto x = io.deviceGetVar(nm);
        if (x.isPublic()) got[rank][q].host[nm] = [&] { auto a = arr_plain(io.hostGetVar(nm)); return std::make_pair(a.t, a.b); }();
        io.deviceSetVar(cat(nm, "#"), x);
        auto y = io.deviceGetVar(cat(nm, "#")); if (!y.isPublic()) y = kernel::hal::reveal(ctx, y);
        auto a = arr_plain(kernel::hal::dump_public(ctx, y));
        if (a.shape != Shape_(x.shape().begin(), x.shape().end())) { got[rank][q].err = cat(nm, " has another shape"); return; }
        got[rank][q].dev[nm] = {a.t, a.b};
      }
    }
  });
  r.check(!oc.hang, "hang", cat(r.note, " ", oc.hang_what));
  r.check(oc.all_ok(), "error", cat(r.note, " ", oc.errors()));
  std::map<std::string, const Var*> now;
  for (int q = 0; q < rounds; ++q) {
    if (q == dup_round) {
      for (int i = 0; i < s.npc; ++i) r.check(refused[i] == 1, "duplicate_accepted", cat(r.note, ": party ", i, " went on although two parties provide the same name"));
      r.tag("io:duplicate");
      break;
    }
    for (auto& v : plan[q]) now[v.name] = &v;
    for (int i = 0; i < s.npc; ++i) {
      auto& o = got[i][q];
      r.check(o.err.empty(), "wrong_value", cat(r.note, " party ", i, " round ", q, ": ", o.err));
      for (auto& v : plan[q]) if (v.owner == i) { auto& a = o.pre[v.name]; r.check(a.t == v.p.t && a.shape == v.p.shape && a.b == v.p.b, "wrong_value", cat(r.note, " party ", i, " round ", q, ": ", v.name, " read back before the exchange differs")); }
      for (auto& x : now) {
        auto& v = *x.second;
        auto it = o.dev.find(x.first);
        r.check(it != o.dev.end(), "wrong_value", cat(r.note, " party ", i, " has no ", x.first));
        auto d = it->second.second.size() == v.p.b.size() || it->second.first != v.p.t ? diff(v.p, it->second.first, it->second.second.data(), k, f) : std::string("size");
        r.check(d.empty(), "wrong_value", cat(r.note, " party ", i, " round ", q, " ", x.first, ": ", d));
        if (v.vis == VIS_PUBLIC) { auto h = o.host.find(x.first); r.check(h != o.host.end() && h->second == it->second, "wrong_value", cat(r.note, " party ", i, " round ", q, " host view of ", x.first)); }
        r.tag(cat("io:", pt_name(v.p.t)));
      }
    }
  }
  if (rounds > 1) r.tag("io:rounds");
}
SCENARIO(colocated_semi2k) { colocated_case(r, {kSemi2k}); }
SCENARIO(colocated_other) { colocated_case(r, {kAby3, kAby3, kCheetah, kSecurenn, kRef2k, kSwift}); }
