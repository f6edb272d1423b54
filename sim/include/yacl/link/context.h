// Simulated yacl::link: the network seam. Every message goes through the
// deterministic simulator (sim/src/sim_link.cc).
#pragma once
#include <atomic>
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include "yacl/base/buffer.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/link/trace.h"
namespace yacl::link {
struct ContextDesc {
  struct Party {
    std::string id, host; 
    Party() = default;
    Party(std::string i, std::string h) : id(std::move(i)), host(std::move(h)) {}
  };
  std::string id = "root";
  std::vector<Party> parties;
  uint32_t connect_retry_times = 10;
  uint32_t connect_retry_interval_ms = 1000;
  uint64_t recv_timeout_ms = 3600 * 1000;
  uint32_t http_max_payload_size = 1024 * 1024;
  uint32_t http_timeout_ms = 20 * 1000;
  uint32_t throttle_window_size = 10;
  std::string brpc_channel_protocol = "baidu_std";
  std::string brpc_channel_connection_type;
  std::string link_type;
};
struct Statistics {
  std::atomic<size_t> sent_actions{0}, sent_bytes{0}, recv_actions{0}, recv_bytes{0};
};
struct World;  // simulator side
class Context {
 public:
  Context(std::shared_ptr<World> world, ContextDesc desc, size_t rank, std::vector<size_t> members);
  ~Context();
  std::string Id() const { return desc_.id; }
  size_t WorldSize() const { return members_.size(); }
  size_t Rank() const { return rank_; }
  size_t PrevRank(size_t stride = 1) const { auto n = WorldSize(); return (rank_ + n - stride % n) % n; }
  size_t NextRank(size_t stride = 1) const { return (rank_ + stride) % WorldSize(); }
  void ConnectToMesh() {}
  std::unique_ptr<Context> Spawn(const std::string& id = "");
  std::unique_ptr<Context> SubWorld(std::string_view id_suffix, const std::vector<std::string>& party_ids);
  const std::vector<ContextDesc::Party>& PartyDescs() const { return desc_.parties; }
  void SetThrottleWindowSize(size_t) {}
  void WaitLinkTaskFinish() {}
  void SetRecvTimeout(uint64_t ms) { timeout_ms_ = ms; }
  uint64_t GetRecvTimeout() const { return timeout_ms_; }
  void SendAsync(size_t dst, ByteContainerView v, std::string_view tag);
  void SendAsync(size_t dst, Buffer&& v, std::string_view tag);
  void SendAsyncThrottled(size_t dst, ByteContainerView v, std::string_view tag) { SendAsync(dst, v, tag); }
  void SendAsyncThrottled(size_t dst, Buffer&& v, std::string_view tag) { SendAsync(dst, std::move(v), tag); }
  void Send(size_t dst, ByteContainerView v, std::string_view tag);
  Buffer Recv(size_t src, std::string_view tag);
  std::string NextId();
  void SendInternal(size_t dst, const std::string& key, ByteContainerView v);
  Buffer RecvInternal(size_t src, const std::string& key);
  std::shared_ptr<const Statistics> GetStats() const { return stats_; }
  void PrintStats() {}
  void AbortLink() {}
 private:
  std::string NextP2PId(size_t src, size_t dst);
  std::shared_ptr<World> world_;
  ContextDesc desc_;
  size_t rank_;
  std::vector<size_t> members_;  // rank -> global party
  size_t child_ = 0, coll_ = 0;
  std::map<std::pair<size_t, size_t>, size_t> p2p_;
  uint64_t timeout_ms_;
  std::shared_ptr<Statistics> stats_;
};
class RecvTimeoutGuard {
 public:
  RecvTimeoutGuard(std::shared_ptr<Context> c, uint64_t ms) : c_(std::move(c)), old_(c_->GetRecvTimeout()) { c_->SetRecvTimeout(ms); }
  ~RecvTimeoutGuard() { c_->SetRecvTimeout(old_); }
 private:
  std::shared_ptr<Context> c_; uint64_t old_;
};
std::vector<Buffer> AllGather(const std::shared_ptr<Context>& ctx, ByteContainerView in, std::string_view tag);
std::vector<Buffer> Gather(const std::shared_ptr<Context>& ctx, ByteContainerView in, size_t root, std::string_view tag);
Buffer Broadcast(const std::shared_ptr<Context>& ctx, ByteContainerView in, size_t root, std::string_view tag);
Buffer Scatter(const std::shared_ptr<Context>& ctx, const std::vector<ByteContainerView>& in, size_t root, std::string_view tag);
std::vector<Buffer> AllToAll(const std::shared_ptr<Context>& ctx, const std::vector<ByteContainerView>& in, std::string_view tag);
void Barrier(const std::shared_ptr<Context>& ctx, std::string_view tag);
class FactoryBrpc {
 public:
  std::shared_ptr<Context> CreateContext(const ContextDesc& desc, size_t rank);
};
class FactoryMem : public FactoryBrpc {};
}  // namespace yacl::link
