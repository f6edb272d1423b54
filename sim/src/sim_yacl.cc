// The simulated network, randomness and data-parallel runtime behind the yacl API.
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <map>
#include <set>

#include "sim/sim.h"
#include "sim/net.h"
#include "yacl/crypto/hash/hash_interface.h"
#include "yacl/crypto/pke/sm2_enc.h"
#include "yacl/crypto/rand/rand.h"
#include "yacl/kernel/algorithms/base_ot.h"
#include "yacl/link/link.h"
#include "yacl/link/test_util.h"
#include "yacl/utils/parallel.h"

namespace sim {
bool running();
std::vector<MsgRec>& messages_mut();

static uint64_t hash_bytes(const void* p, size_t n) {
  const auto* c = static_cast<const unsigned char*>(p);
  uint64_t h = 0xcbf29ce484222325ULL ^ n;
  while (n >= 8) { uint64_t w; std::memcpy(&w, c, 8); h = mix64(h ^ w); c += 8; n -= 8; }
  uint64_t w = 0; std::memcpy(&w, c, n);
  return mix64(h ^ w);
}

// ---- entropy: one stream per party, independent of the schedule -------------
static std::map<int, uint64_t> g_ent;
static Rng g_idle(12345);
static std::vector<Draw> g_draws;
const std::vector<Draw>& draws() { return g_draws; }
void draws_reset() { g_draws.clear(); }
uint64_t entropy_u64() {
  if (!running()) return g_idle.next();
  int p = current_party();
  uint64_t c = g_ent[p]++;
  const auto& cfg = config();
  uint64_t e = cfg.entropy;
  if (cfg.entropy_fixed && (p == cfg.fixed_party || cfg.fixed_draws.count({p, c}))) e = cfg.entropy_fixed;
  uint64_t v = mix64(mix64(e ^ (uint64_t(p + 2) << 48)) + c * 0x9E3779B97F4A7C15ULL);
  if (cfg.record_draws) g_draws.push_back({p, c, v});
  return v;
}

struct Net {
  std::map<uint64_t, uint64_t> ops;      // party -> network operations so far
  std::map<uint64_t, uint64_t> sends;    // party -> sends so far
  std::function<void(const MsgRec&)> on_recv;
  uint64_t part_from = 0, part_to = 0, part_mask = 0;
  bool part_init = false;
};
static Net g_net;
}
namespace yacl { void threads_setting_reset(); }
namespace yacl::link { void tags_reset(); }
namespace sim {
void net_reset() { g_net = Net{}; g_ent.clear(); yacl::link::tags_reset(); yacl::threads_setting_reset(); }
uint64_t net_ops(int party) { return g_net.ops[party]; }
uint64_t net_sends(int party) { return g_net.sends[party]; }

static void net_op(int party) {
  auto& c = mutable_config();
  uint64_t k = g_net.ops[party]++;
  if (party == c.crash_party && k == c.crash_at) { fault_fired("crash"); log_event(0xdead, party, k); crash_party(party); }
  if (party == c.stall_party && k == c.stall_at) { fault_fired("stall"); sleep_us(c.recv_timeout_ms * 1000 * 3); }
}

static uint64_t latency(int src, int dst) {
  const auto& c = config();
  if (c.zero_latency) return 1;
  Rng& r = fault_rng();
  uint64_t d = c.min_lat_us + r.below(c.jitter_us + 1);
  if (c.p_spike > 0 && r.chance(c.p_spike)) { d += r.below(c.spike_us); fault_fired("delay_spike"); }
  if (c.p_loss_retx > 0) {
    uint64_t rto = 200000;
    while (r.chance(c.p_loss_retx) && rto < 4000000) { d += rto; rto *= 2; fault_fired("loss_retransmit"); }
  }
  if (c.partition) {
    if (!g_net.part_init) {
      g_net.part_init = true;
      g_net.part_from = now_us() + r.below(20000);
      g_net.part_to = g_net.part_from + 1000 + r.below(3000000);
      g_net.part_mask = 1 + r.below(14);
    }
    bool cut = ((g_net.part_mask >> src) & 1) != ((g_net.part_mask >> dst) & 1);
    uint64_t arr = now_us() + d;
    if (cut && arr >= g_net.part_from && arr < g_net.part_to) { d += g_net.part_to - arr; fault_fired("partition"); }
  }
  return d;
}
}  // namespace sim

namespace yacl::simhook {
void FillFresh(void* p, size_t n) { std::memset(p, 0xA5, n); }
void* Alloc(size_t n) {
  void* p = std::malloc(n);
  if (!p) throw std::bad_alloc();
  // Uninitialised memory reads as a recognisable pattern instead of stale heap contents.
  FillFresh(p, n);
  return p;
}
}  // namespace yacl::simhook

namespace yacl::crypto {
void FillRandBytes(void* p, size_t n) {
  auto* c = static_cast<char*>(p);
  while (n) { uint64_t v = sim::entropy_u64(); size_t k = std::min<size_t>(8, n); std::memcpy(c, &v, k); c += k; n -= k; }
}
namespace simpke {
uint128_t KeyId(ByteContainerView pem) { YACL_ENFORCE(pem.size() == 18, "bad key"); uint128_t r; std::memcpy(&r, pem.data() + 2, 16); return r; }
std::vector<uint8_t> Seal(uint128_t id, ByteContainerView m) {
  uint128_t nonce = FastRandU128();
  std::vector<uint8_t> o(16 + m.size() + 16);
  std::memcpy(o.data(), &nonce, 16);
  std::vector<char> pad(m.size()); FillPRandBytes(nonce ^ id, 0, 0, pad.data(), pad.size());
  for (size_t i = 0; i < m.size(); ++i) o[16 + i] = m[i] ^ pad[i];
  SimHash h; h.Update(ByteContainerView(&id, 16)); h.Update(ByteContainerView(o.data(), 16 + m.size()));
  auto d = h.CumulativeHash(); std::memcpy(o.data() + 16 + m.size(), d.data(), 16);
  return o;
}
std::vector<uint8_t> Open(uint128_t id, ByteContainerView c) {
  if (c.size() < 32) YACL_THROW("ciphertext too short");
  size_t n = c.size() - 32; SimHash h; h.Update(ByteContainerView(&id, 16)); h.Update(ByteContainerView(c.data(), 16 + n));
  auto d = h.CumulativeHash();
  if (std::memcmp(d.data(), c.data() + 16 + n, 16) != 0) YACL_THROW("ciphertext authentication failed");
  uint128_t nonce; std::memcpy(&nonce, c.data(), 16);
  std::vector<char> pad(n); FillPRandBytes(nonce ^ id, 0, 0, pad.data(), pad.size());
  std::vector<uint8_t> o(n); for (size_t i = 0; i < n; ++i) o[i] = c[16 + i] ^ pad[i];
  return o;
}
}  // namespace simpke
void BaseOtSend(const std::shared_ptr<link::Context>& ctx, absl::Span<std::array<uint128_t, 2>> b) {
  // Functional base OT: the receiver's blinded choices index the sender's blocks.
  Buffer ch = ctx->Recv(ctx->NextRank(), "BASE_OT:C");
  YACL_ENFORCE(ch.size() == static_cast<int64_t>(b.size()));
  FillRandBytes(b.data(), b.size() * sizeof(b[0]));
  std::vector<uint128_t> out(b.size());
  for (size_t i = 0; i < b.size(); ++i) out[i] = b[i][ch.data<uint8_t>()[i] & 1];
  ctx->SendAsync(ctx->NextRank(), ByteContainerView(out.data(), out.size() * 16), "BASE_OT:B");
}
void BaseOtRecv(const std::shared_ptr<link::Context>& ctx, const dynamic_bitset<uint128_t>& c, absl::Span<uint128_t> r) {
  std::vector<uint8_t> ch(c.size()); for (size_t i = 0; i < c.size(); ++i) ch[i] = c[i];
  ctx->SendAsync(ctx->NextRank(), ByteContainerView(ch.data(), ch.size()), "BASE_OT:C");
  Buffer b = ctx->Recv(ctx->NextRank(), "BASE_OT:B");
  YACL_ENFORCE(b.size() == static_cast<int64_t>(r.size() * 16));
  std::memcpy(r.data(), b.data(), b.size());
}
}  // namespace yacl::crypto

namespace yacl {
// One setting per simulated process.
static std::map<int, int> g_threads;
void threads_setting_reset() { g_threads.clear(); }
int get_num_threads() { auto it = g_threads.find(sim::current_party()); return it != g_threads.end() ? it->second : sim::running() ? sim::config().num_threads : 4; }
void set_num_threads(int n) { if (n > 0) g_threads[sim::current_party()] = n; }
int get_thread_num() { return 0; }
bool in_parallel_region() { return false; }
namespace internal {
void RunChunks(int64_t b, int64_t e, int64_t, const std::function<void(int64_t)>& reserve, const std::function<void(int64_t, int64_t, int64_t)>& fn) {
  const int64_t n = e - b;
  if (n == 1 || !sim::active() || sim::config().p_chunk <= 0 || !sim::sched_rng().chance(sim::config().p_chunk)) {
    if (reserve) reserve(1);
    fn(0, b, e);
    return;
  }
  auto& r = sim::sched_rng();
  int64_t k = std::min<int64_t>(n, 2 + r.below(n > 4096 ? 3 : 7));
  std::set<int64_t> cuts;
  for (int64_t i = 1; i < k; ++i) cuts.insert(b + 1 + r.below(n - 1));
  std::vector<std::pair<int64_t, int64_t>> pieces;
  int64_t p = b;
  for (int64_t c : cuts) { if (c > p) { pieces.emplace_back(p, c); p = c; } }
  pieces.emplace_back(p, e);
  std::vector<size_t> order(pieces.size());
  for (size_t i = 0; i < order.size(); ++i) order[i] = i;
  for (size_t i = order.size() - 1; i > 0; --i) std::swap(order[i], order[r.below(i + 1)]);
  ++sim::mutable_stats().chunk_calls;
  sim::mutable_stats().chunk_pieces += pieces.size();
  if (reserve) reserve(pieces.size());
  if (sim::config().p_chunk_conc > 0 && pieces.size() <= 8 && sim::live_tasks() < 300 && r.chance(sim::config().p_chunk_conc)) {
    // The pieces run as concurrent tasks which may be preempted at element accesses.
    sim::probe("parallel_loop_preemptible");
    sim::preempt_region(+1);
    std::vector<sim::Task> ts;
    for (size_t i : order) ts.push_back(sim::spawn([&fn, &pieces, i] { fn(i, pieces[i].first, pieces[i].second); }, "chunk", sim::current_party()));
    std::exception_ptr err;
    for (auto t : ts) { sim::join(t); auto x = sim::result(t); if (x.error && !err) err = x.error; }
    sim::preempt_region(-1);
    if (err) std::rethrow_exception(err);
    return;
  }
  const int outer = sim::race_piece_begin(-1);
  std::vector<int> strands;
  std::exception_ptr err;
  for (size_t i : order) {
    if (outer >= 0) strands.push_back(sim::race_piece_begin(outer));
    try { fn(i, pieces[i].first, pieces[i].second); } catch (...) { if (!err) err = std::current_exception(); }
    sim::race_piece_end(outer);
    if (err) break;
  }
  for (int x : strands) sim::race_piece_join(outer, x);
  if (err) std::rethrow_exception(err);
}
}  // namespace internal

namespace link {
struct Mailbox {
  struct Slot { std::deque<Buffer> q; std::deque<sim::MsgRec> rec; sim::WaitQ w; };
  std::map<std::string, Slot> slots;
};
struct World {
  std::string id;
  size_t n;
  std::map<std::pair<size_t, std::string>, Mailbox> box;  // (dst party, context id)
};

Context::Context(std::shared_ptr<World> w, ContextDesc d, size_t rank, std::vector<size_t> m)
    : world_(std::move(w)), desc_(std::move(d)), rank_(rank), members_(std::move(m)),
      timeout_ms_(sim::config().recv_timeout_ms), stats_(std::make_shared<Statistics>()) {}
Context::~Context() = default;

std::unique_ptr<Context> Context::Spawn(const std::string& id) {
  ContextDesc d = desc_;
  d.id = id.empty() ? fmt::format("{}-{}", desc_.id, child_++) : fmt::format("{}-{}", desc_.id, id);
  auto c = std::make_unique<Context>(world_, d, rank_, members_);
  c->stats_ = stats_;
  c->timeout_ms_ = timeout_ms_;
  return c;
}
std::unique_ptr<Context> Context::SubWorld(std::string_view suffix, const std::vector<std::string>& ids) {
  ContextDesc d = desc_;
  d.id = fmt::format("{}-{}", desc_.id, suffix);
  d.parties.clear();
  std::vector<size_t> m;
  size_t rank = ids.size();
  for (size_t i = 0; i < ids.size(); ++i) {
    bool found = false;
    for (size_t j = 0; j < desc_.parties.size(); ++j) {
      if (desc_.parties[j].id == ids[i]) { m.push_back(members_[j]); d.parties.push_back(desc_.parties[j]); found = true; if (j == rank_) rank = i; }
    }
    YACL_ENFORCE(found, "party {} not in the parent context", ids[i]);
  }
  YACL_ENFORCE(rank < ids.size(), "self not in the sub world");
  auto c = std::make_unique<Context>(world_, d, rank, m);
  c->stats_ = stats_;
  c->timeout_ms_ = timeout_ms_;
  return c;
}
std::string Context::NextId() { return fmt::format("{}", ++coll_); }
std::string Context::NextP2PId(size_t s, size_t d) { return fmt::format("P2P-{}:{}->{}", ++p2p_[{s, d}], s, d); }

static std::map<int, std::string> g_tags;  // per task
#define g_tag g_tags[sim::current_task()]
void tags_reset() { g_tags.clear(); }

void Context::SendInternal(size_t dst, const std::string& key, ByteContainerView v) {
  YACL_ENFORCE(dst < WorldSize(), "rank={} out of range={}", dst, WorldSize());
  if (!sim::active()) YACL_THROW("network used outside of a simulation");
  const int src_p = static_cast<int>(members_[rank_]), dst_p = static_cast<int>(members_[dst]);
  sim::maybe_yield(sim::config().p_yield);
  sim::net_op(src_p);
  stats_->sent_actions += 1;
  stats_->sent_bytes += v.size();
  auto& cfg = sim::config();
  Buffer b(v.data(), v.size());
  uint64_t k = sim::g_net.sends[src_p]++;
  if (src_p == cfg.evil_party && k >= cfg.evil_at && k < cfg.evil_at + cfg.evil_count && b.size() > 0) {
    sim::net_tamper(b.data<uint8_t>(), b.size(), cfg.evil_mode);
    sim::fault_fired("tamper");
  }
  sim::MsgRec rec;
  rec.sent_us = sim::now_us(); rec.src = src_p; rec.dst = dst_p; rec.ctx = desc_.id; rec.key = key; rec.size = b.size();
  rec.tag = g_tag;
  rec.hash = sim::hash_bytes(b.data(), b.size());
  auto& st = sim::mutable_stats();
  ++st.msgs; st.bytes += b.size();
  sim::log_event(0x5e + src_p * 16 + dst_p, rec.hash, sim::hash_bytes(key.data(), key.size()));
  if (sim::tracing()) sim::trace(fmt::format("send {}->{} {} {} {}B hash={:x} {}", src_p, dst_p, desc_.id, key, rec.size, rec.hash, rec.tag));
  if (src_p == cfg.lose_party && k == cfg.lose_at) { sim::fault_fired("message_lost"); return; }
  if (sim::party_crashed(dst_p)) return;
  uint64_t d = sim::latency(src_p, dst_p);
  if (cfg.p_dup > 0 && sim::fault_rng().chance(cfg.p_dup)) sim::fault_fired("duplicate_dropped_by_transport");
  auto w = world_;
  std::string cid = desc_.id;
  auto payload = std::make_shared<Buffer>(std::move(b));
  sim::at(d, [w, cid, key, dst_p, rec, payload]() mutable {
    auto& slot = w->box[{size_t(dst_p), cid}].slots[key];
    rec.recv_us = sim::now_us();
    slot.q.push_back(std::move(*payload));
    slot.rec.push_back(std::move(rec));
    sim::log_event(0xde, dst_p, rec.hash);
    if (sim::tracing()) sim::trace(fmt::format("deliver to {} {} {}", dst_p, cid, key));
    sim::wake_one(slot.w);
  });
}
Buffer Context::RecvInternal(size_t src, const std::string& key) {
  YACL_ENFORCE(src < WorldSize(), "rank={} out of range={}", src, WorldSize());
  if (!sim::active()) YACL_THROW("network used outside of a simulation");
  const int me = static_cast<int>(members_[rank_]);
  sim::maybe_yield(sim::config().p_yield);
  sim::net_op(me);
  auto& slot = world_->box[{size_t(me), desc_.id}].slots[key];
  uint64_t deadline = sim::now_us() + timeout_ms_ * 1000;
  while (slot.q.empty()) {
    uint64_t now = sim::now_us();
    if (now >= deadline || !sim::block(slot.w, deadline - now, "recv")) {
      if (slot.q.empty()) YACL_THROW_IO_ERROR("Get data timeout, key={}", key);
    }
  }
  Buffer b = std::move(slot.q.front());
  slot.q.pop_front();
  auto rec = std::move(slot.rec.front());
  slot.rec.pop_front();
  if (slot.q.empty()) world_->box[{size_t(me), desc_.id}].slots.erase(key);
  stats_->recv_actions += 1;
  stats_->recv_bytes += b.size();
  if (sim::config().record_msgs) {
    if (sim::config().record_payload) rec.payload.assign(b.data<char>(), b.size());
    sim::messages_mut().push_back(rec);
  }
  return b;
}
void Context::SendAsync(size_t dst, ByteContainerView v, std::string_view tag) {
  g_tag = std::string(tag);
  std::string key = NextP2PId(rank_, dst);
  TraceLogger::LinkTrace(key, tag, "");
  SendInternal(dst, key, v);
}
void Context::SendAsync(size_t dst, Buffer&& v, std::string_view tag) { Buffer b = std::move(v); SendAsync(dst, ByteContainerView(b), tag); }
void Context::Send(size_t dst, ByteContainerView v, std::string_view tag) { SendAsync(dst, v, tag); }
Buffer Context::Recv(size_t src, std::string_view) {
  std::string key = NextP2PId(src, rank_);
  return RecvInternal(src, key);
}
std::vector<Buffer> AllGather(const std::shared_ptr<Context>& c, ByteContainerView in, std::string_view tag) {
  g_tag = std::string(tag);
  const std::string key = fmt::format("{}:ALLGATHER", c->NextId());
  const size_t n = c->WorldSize();
  std::vector<Buffer> out(n);
  for (size_t i = 1; i < n; ++i) { size_t d = (c->Rank() + i) % n; c->SendInternal(d, fmt::format("{}:{}", key, c->Rank()), in); }
  for (size_t i = 0; i < n; ++i) { if (i == c->Rank()) out[i] = Buffer(in.data(), in.size()); else out[i] = c->RecvInternal(i, fmt::format("{}:{}", key, i)); }
  return out;
}
std::vector<Buffer> Gather(const std::shared_ptr<Context>& c, ByteContainerView in, size_t root, std::string_view tag) {
  g_tag = std::string(tag);
  const std::string key = fmt::format("{}:GATHER", c->NextId());
  std::vector<Buffer> out;
  if (c->Rank() == root) {
    out.resize(c->WorldSize());
    for (size_t i = 0; i < c->WorldSize(); ++i) { if (i == root) out[i] = Buffer(in.data(), in.size()); else out[i] = c->RecvInternal(i, fmt::format("{}:{}", key, i)); }
  } else {
    c->SendInternal(root, fmt::format("{}:{}", key, c->Rank()), in);
  }
  return out;
}
Buffer Broadcast(const std::shared_ptr<Context>& c, ByteContainerView in, size_t root, std::string_view tag) {
  g_tag = std::string(tag);
  const std::string key = fmt::format("{}:BCAST", c->NextId());
  if (c->Rank() == root) {
    for (size_t i = 0; i < c->WorldSize(); ++i) if (i != root) c->SendInternal(i, key, in);
    return Buffer(in.data(), in.size());
  }
  return c->RecvInternal(root, key);
}
Buffer Scatter(const std::shared_ptr<Context>& c, const std::vector<ByteContainerView>& in, size_t root, std::string_view tag) {
  g_tag = std::string(tag);
  const std::string key = fmt::format("{}:SCATTER", c->NextId());
  if (c->Rank() == root) {
    for (size_t i = 0; i < c->WorldSize(); ++i) if (i != root) c->SendInternal(i, key, in[i]);
    return Buffer(in[root].data(), in[root].size());
  }
  return c->RecvInternal(root, key);
}
std::vector<Buffer> AllToAll(const std::shared_ptr<Context>& c, const std::vector<ByteContainerView>& in, std::string_view tag) {
  g_tag = std::string(tag);
  const std::string key = fmt::format("{}:ALLTOALL", c->NextId());
  std::vector<Buffer> out(c->WorldSize());
  for (size_t i = 0; i < c->WorldSize(); ++i) if (i != c->Rank()) c->SendInternal(i, fmt::format("{}:{}", key, c->Rank()), in[i]);
  for (size_t i = 0; i < c->WorldSize(); ++i) { if (i == c->Rank()) out[i] = Buffer(in[i].data(), in[i].size()); else out[i] = c->RecvInternal(i, fmt::format("{}:{}", key, i)); }
  return out;
}
void Barrier(const std::shared_ptr<Context>& c, std::string_view tag) { AllGather(c, ByteContainerView("", size_t(0)), tag); }

namespace test {
std::vector<std::shared_ptr<Context>> SetupWorld(const std::string& id, size_t n) {
  auto w = std::make_shared<World>();
  w->id = id; w->n = n;
  ContextDesc d; d.id = id;
  std::vector<size_t> m;
  for (size_t i = 0; i < n; ++i) { d.parties.emplace_back(fmt::format("id-{}", i), fmt::format("sim:{}", i)); m.push_back(i); }
  std::vector<std::shared_ptr<Context>> out;
  for (size_t i = 0; i < n; ++i) out.push_back(std::make_shared<Context>(w, d, i, m));
  return out;
}
}  // namespace test
std::shared_ptr<Context> FactoryBrpc::CreateContext(const ContextDesc&, size_t) { YACL_THROW("brpc factory is not available in the simulator"); }
}  // namespace link
}  // namespace yacl

namespace sim {
void net_tamper(uint8_t* p, size_t n, int mode) {
  Rng& r = fault_rng();
  switch (mode) {
    case 0: p[r.below(n)] ^= uint8_t(1) << r.below(8); break;
    case 1: p[r.below(n)] += 1; break;
    case 2: { size_t k = r.below(n); for (size_t i = 0; i < 8 && k + i < n; ++i) p[k + i] ^= uint8_t(r.next() | 1); break; }
    default: { bool all0 = true; for (size_t i = 0; i < n; ++i) all0 = all0 && p[i] == 0; if (all0) p[0] = 1; else std::memset(p, 0, n); }
  }
}
}  // namespace sim
