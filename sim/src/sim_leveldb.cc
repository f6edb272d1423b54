#include "leveldb/db.h"
#include "sim/disk.h"
#include "sim/sim.h"
namespace sim {
static DiskFaults g_disk;
DiskFaults& disk_faults() { return g_disk; }
static bool hit(double p, const char* kind) {
  if (p <= 0 || !active()) return false;
  if (g_disk.party >= 0 && current_party() != g_disk.party) return false;
  if (!fault_rng().chance(p)) return false;
  fault_fired(kind);
  return true;
}
}  // namespace sim
namespace leveldb {
DB::~DB() = default;
Status DB::Open(const Options&, const std::string&, DB** out) {
  sim::maybe_yield(sim::config().p_yield);
  if (sim::hit(sim::g_disk.p_open_fail, "disk_open_error")) return Status::IOError("injected: open");
  *out = new DB; return Status::OK();
}
Status DB::Put(const WriteOptions&, const Slice& k, const Slice& v) {
  sim::maybe_yield(sim::config().p_yield);
  if (sim::hit(sim::g_disk.p_put_fail, "disk_write_error")) return Status::IOError("injected: write");
  if (sim::g_disk.full_after_bytes >= 0 && (sim::g_disk.party < 0 || sim::g_disk.party == sim::current_party()) &&
      static_cast<int64_t>(bytes_ + v.size()) > sim::g_disk.full_after_bytes) { sim::fault_fired("disk_full"); return Status::IOError("injected: no space left on device"); }
  bytes_ += v.size();
  m_[k.ToString()] = v.ToString(); return Status::OK();
}
Status DB::Delete(const WriteOptions&, const Slice& k) {
  sim::maybe_yield(sim::config().p_yield);
  if (sim::hit(sim::g_disk.p_del_fail, "disk_write_error")) return Status::IOError("injected: delete");
  m_.erase(k.ToString()); return Status::OK();
}
Status DB::Get(const ReadOptions&, const Slice& k, std::string* v) {
  sim::maybe_yield(sim::config().p_yield);
  if (sim::hit(sim::g_disk.p_get_fail, "disk_read_error")) return Status::IOError("injected: read");
  auto it = m_.find(k.ToString());
  if (it == m_.end()) return Status::NotFound("");
  *v = it->second; return Status::OK();
}
}  // namespace leveldb
