// Simulated brpc.
#include <cerrno>
#include <cstring>
#include <deque>
#include <google/protobuf/descriptor.h>
#include "brpc/sim_brpc.h"
#include "sim/rpc.h"
#include "sim/sim.h"

namespace brpc {
uint64_t FLAGS_max_body_size = 64 << 20;
int64_t FLAGS_socket_max_unwritten_bytes = 64 << 20;

// One streamed http response. Bytes leave the server only after the response
// header was sent (done->Run()), arrive in order, in arbitrary pieces.
struct SimStream {
  std::deque<std::string> q;      // written, header not sent yet or in flight
  bool header = false, writer_closed = false, broken = false, reader_gone = false;
  uint64_t written = 0;
  int64_t cut_at = -1;            // breaks after this many bytes
  bool handled = false;
  bool server_dead = false;
  sim::WaitQ w;
};
}  // namespace brpc

namespace sim {
std::vector<MsgRec>& messages_mut();
struct RpcState {
  RpcFaults f;
  std::map<int, brpc::Server*> servers;
  bool up = true;
  uint64_t total_bytes = 0;
  std::string escaped, misuse;
  std::set<const void*> ending;  // readers whose OnEndOfMessage runs
  std::vector<std::weak_ptr<brpc::SimStream>> live;
};
static RpcState& R() { static RpcState* r = new RpcState; return *r; }
RpcFaults& rpc_faults() { return R().f; }
const std::string& rpc_misuse() { return R().misuse; }
bool rpc_server_up() { return R().up; }
const std::string& rpc_server_escaped() { return R().escaped; }
void rpc_restart_server() { R().up = true; fault_fired("server_restart"); }
void rpc_reset() { auto s = std::move(R().servers); R() = RpcState{}; R().servers = std::move(s); }
static void kill_server() {
  R().up = false;
  fault_fired("server_crash");
  for (auto& wp : R().live) if (auto s = wp.lock()) { s->broken = true; s->server_dead = true; wake_all(s->w); }
}
}  // namespace sim

namespace brpc {
ProgressiveReader::~ProgressiveReader() {
  if (sim::R().ending.count(this)) sim::R().misuse = "a progressive reader is destroyed while its OnEndOfMessage is still running";
}
ProgressiveAttachment::~ProgressiveAttachment() {
  s_->writer_closed = true;
  if (sim::active()) sim::wake_all(s_->w);
}
int ProgressiveAttachment::Write(const void* data, size_t n) {
  sim::maybe_yield(sim::config().p_yield);
  auto& f = sim::rpc_faults();
  if (s_->broken || s_->reader_gone) { errno = EPIPE; return -1; }
  if (f.p_write_fail > 0 && sim::fault_rng().chance(f.p_write_fail)) {
    sim::fault_fired("rpc_write_failure");
    s_->broken = true; sim::wake_all(s_->w);
    errno = ECONNRESET; return -1;
  }
  const char* p = static_cast<const char*>(data);
  if (f.crash_server_after_bytes >= 0 && static_cast<int64_t>(sim::R().total_bytes + n) > f.crash_server_after_bytes) {
    size_t keep = static_cast<size_t>(std::max<int64_t>(0, f.crash_server_after_bytes - static_cast<int64_t>(sim::R().total_bytes)));
    f.crash_server_after_bytes = -1;
    if (keep) s_->q.emplace_back(p, keep);
    sim::kill_server();
    errno = ECONNRESET; return -1;
  }
  sim::R().total_bytes += n;
  if (s_->cut_at >= 0 && static_cast<int64_t>(s_->written + n) > s_->cut_at) {
    size_t keep = static_cast<size_t>(s_->cut_at - static_cast<int64_t>(s_->written));
    if (keep) s_->q.emplace_back(p, keep);
    s_->written += keep;
    s_->broken = true;
    sim::fault_fired("rpc_stream_cut");
    sim::wake_all(s_->w);
    errno = ECONNRESET; return -1;
  }
  s_->written += n;
  s_->q.emplace_back(p, n);
  sim::wake_all(s_->w);
  return 0;
}
butil::intrusive_ptr<ProgressiveAttachment> Controller::CreateProgressiveAttachment() { return std::make_shared<ProgressiveAttachment>(stream_); }

void Controller::ReadProgressiveAttachmentBy(ProgressiveReader* r) {
  auto s = stream_;
  // The reader runs on an rpc worker, concurrently with the caller.
  auto rec = std::make_shared<sim::MsgRec>();
  rec->src = 90; rec->dst = sim::current_party(); rec->ctx = "rpc"; rec->key = "stream"; rec->hash = 0; rec->size = 0; rec->sent_us = sim::now_us();
  sim::spawn([s, r, rec] {
    butil::Status st;
    while (true) {
      while (s->q.empty() && !s->writer_closed && !s->broken) sim::block(s->w, 0, "rpc stream");
      if (s->q.empty()) { if (s->broken) st = butil::Status(ECONNRESET, "connection broken"); break; }
      // take a seeded amount: the network re-frames the byte stream at will
      std::string part;
      uint64_t avail = 0; for (auto& x : s->q) avail += x.size();
      auto& g = sim::fault_rng();
      uint64_t want = 1;
      switch (g.below(6)) {
        case 0: want = avail; break;
        case 1: want = 1 + g.below(16); break;
        case 2: want = 1 + g.below(avail); break;
        case 3: want = s->q.front().size(); break;
        case 4: want = s->q.front().size() + 1 + g.below(9); break;
        default: want = s->q.front().size() > 1 ? s->q.front().size() - 1 : 1; break;
      }
      if (avail > 65536 && want < avail / 8) want = avail / 8;
      want = std::max<uint64_t>(1, std::min(want, avail));
      if (want != s->q.front().size()) ++sim::mutable_stats().faults["rpc_stream_reframed"];
      while (part.size() < want) {
        auto& f = s->q.front();
        size_t k = std::min<size_t>(f.size(), want - part.size());
        part.append(f, 0, k);
        if (k == f.size()) s->q.pop_front(); else f.erase(0, k);
      }
      sim::sleep_us(sim::config().zero_latency ? 1 : 1 + g.below(500));
      rec->size += part.size();
      if (sim::config().record_payload) rec->payload += part;
      st = r->OnReadOnePart(part.data(), part.size());
      if (!st.ok()) { s->reader_gone = true; break; }
    }
    rec->recv_us = sim::now_us();
    if (sim::config().record_payload) sim::messages_mut().push_back(*rec);
    sim::R().ending.insert(r);
    r->OnEndOfMessage(st);
    sim::R().ending.erase(r);
  }, "rpc-reader", sim::current_party());
}

int Channel::Init(const char* host, const ChannelOptions* o) { host_ = host; o_ = *o; return host_.empty() ? -1 : 0; }

namespace {
struct DoneClosure : google::protobuf::Closure {
  std::function<void()> fn;
  void Run() override { auto f = std::move(fn); delete this; f(); }
};
uint64_t lat() { return sim::config().zero_latency ? 1 : sim::config().min_lat_us + sim::fault_rng().below(sim::config().jitter_us + 1); }
}  // namespace

void Channel::CallMethod(const google::protobuf::MethodDescriptor* m, google::protobuf::RpcController* c,
                         const google::protobuf::Message* req, google::protobuf::Message* rsp, google::protobuf::Closure* done) {
  auto* cntl = static_cast<Controller*>(c);
  int port = 0;
  auto pos = host_.rfind(':');
  if (pos != std::string::npos) port = std::atoi(host_.c_str() + pos + 1);
  std::string wire = req->SerializeAsString();
  sim::log_event(0x59c, wire.size(), m->index());
  auto& f = sim::rpc_faults();
  const int me = sim::current_party();
  for (int attempt = 0;; ++attempt) {
    sim::sleep_us(lat());
    auto it = sim::R().servers.find(port);
    bool refuse = it == sim::R().servers.end() || !sim::rpc_server_up();
    if (!refuse && f.p_refuse > 0 && sim::fault_rng().chance(f.p_refuse)) { refuse = true; sim::fault_fired("rpc_connect_failure"); }
    if (refuse) {
      if (attempt >= o_.max_retry) { cntl->SetFailed(111, "connection refused"); break; }
      sim::sleep_us(100000);
      continue;
    }
    auto* svc = it->second->service();
    auto s = std::make_shared<SimStream>();
    sim::R().live.push_back(s);
    if (f.p_cut_stream > 0 && sim::fault_rng().chance(f.p_cut_stream)) {
      // somewhere in the stream, biased towards the first few hundred bytes
      s->cut_at = sim::fault_rng().chance(0.5) ? sim::fault_rng().below(64) : sim::fault_rng().below(4096);
    }
    bool lose = f.p_lost_response > 0 && sim::fault_rng().chance(f.p_lost_response);
    const auto* proto = &svc->GetRequestPrototype(m);
    const auto* rproto = &svc->GetResponsePrototype(m);
    const auto* md = svc->GetDescriptor()->FindMethodByName(m->name());
    sim::spawn([s, svc, md, proto, rproto, wire, lose] {
      sim::sleep_us(lat());
      if (!sim::rpc_server_up()) { s->broken = true; sim::wake_all(s->w); return; }
      auto r = std::shared_ptr<google::protobuf::Message>(proto->New());
      auto rr = std::shared_ptr<google::protobuf::Message>(rproto->New());
      auto sc = std::make_shared<Controller>();
      if (!r->ParseFromString(wire)) { s->broken = true; sim::wake_all(s->w); return; }
      sc->stream_ = s;
      auto* d = new DoneClosure;
      // `done` ends the life of request and response, as in brpc.
      auto owned = std::make_shared<std::pair<std::shared_ptr<google::protobuf::Message>, std::shared_ptr<google::protobuf::Message>>>(r, rr);
      auto* rq = r.get(); auto* rs = rr.get();
      r.reset(); rr.reset();
      d->fn = [s, owned, lose] {
        owned->first->Clear();
        owned->first.reset(); owned->second.reset();
        if (lose) { sim::fault_fired("rpc_response_lost"); s->broken = true; sim::wake_all(s->w); return; }
        s->header = true;
        sim::at(lat(), [s] { s->handled = true; sim::wake_all(s->w); });
      };
      try { svc->CallMethod(md, sc.get(), rq, rs, d); }
      catch (const std::exception& e) { sim::R().escaped = e.what(); sim::kill_server(); }
    }, "rpc-handler", f.server_party);
    uint64_t deadline = sim::now_us() + static_cast<uint64_t>(o_.timeout_ms) * 1000;
    bool timeout = false;
    while (!s->handled && !s->broken && !timeout) {
      uint64_t now = sim::now_us();
      if (now >= deadline) { timeout = true; break; }
      sim::block(s->w, deadline - now, "rpc call");
    }
    if (s->handled) { cntl->stream_ = s; (void)rsp; break; }
    s->reader_gone = true;
    if (timeout) { cntl->SetFailed(1008, "rpc timed out"); break; }
    if (attempt >= o_.max_retry) { cntl->SetFailed(104, "connection reset"); break; }
    sim::fault_fired("rpc_retry");
  }
  (void)me;
  if (done) done->Run();
}

int Server::AddService(google::protobuf::Service* s, ServiceOwnership o) { svc_ = s; owned_ = o == SERVER_OWNS_SERVICE; return 0; }
int Server::Start(int port, const ServerOptions*) { port_ = port; sim::R().servers[port] = this; return 0; }
int Server::Stop(int) { if (port_ >= 0) sim::R().servers.erase(port_); port_ = -1; return 0; }
Server::~Server() { Stop(0); if (owned_) delete svc_; }
}  // namespace brpc
