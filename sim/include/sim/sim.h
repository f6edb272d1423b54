// Deterministic simulator core: fibers, seeded scheduler, virtual clock, faults.
//
// One OS thread. Parties, threads, rpc handlers and data-parallel chunks are
// fibers; the scheduler decides every switch from one seed. All time is virtual.
#pragma once
#include <cstdint>
#include <cstddef>
#include <deque>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim {

inline uint64_t mix64(uint64_t z) {
  z += 0x9E3779B97F4A7C15ULL;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
struct Rng {
  uint64_t s = 0;
  Rng() = default;
  explicit Rng(uint64_t seed) : s(mix64(seed ^ 0x1234abcdULL)) {}
  uint64_t next() { s += 0x9E3779B97F4A7C15ULL; return mix64(s); }
  uint64_t below(uint64_t n) { return n <= 1 ? 0 : next() % n; }
  int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo + 1))); }
  bool chance(double p) { return (next() >> 11) * 0x1.0p-53 < p; }
  double unit() { return (next() >> 11) * 0x1.0p-53; }
  template <typename V> const typename V::value_type& pick(const V& v) { return v[below(v.size())]; }
};

// ---- configuration of one simulated execution ------------------------------
enum class Policy { kFifo, kRandom, kLifo, kPriority };

struct Config {
  uint64_t seed = 1;          // schedule + faults
  uint64_t entropy = 1;       // randomness handed to the code under test
  // Draws which stay the same while `entropy` varies: those of one party, and listed ones.
  int fixed_party = -1;
  uint64_t entropy_fixed = 0;
  std::set<std::pair<int, uint64_t>> fixed_draws;
  bool record_draws = false;
  Policy policy = Policy::kRandom;
  bool zero_latency = false;  // minimised schedules: messages arrive in send order
  uint64_t min_lat_us = 50, jitter_us = 2000;
  // network weather
  double p_spike = 0;         // heavy-tailed delay
  uint64_t spike_us = 2000000;
  double p_loss_retx = 0;     // lost, retransmitted by the transport
  double p_dup = 0;           // duplicated, deduplicated by the transport
  int slow_party = -1;        // wake-ups of this party are delayed
  uint64_t slow_us = 50000;
  bool partition = false;     // one seeded partition interval which heals
  // permanent faults
  int crash_party = -1;       // crashes at its crash_at-th network operation
  uint64_t crash_at = 0;
  int lose_party = -1;        // its lose_at-th send is lost for good
  uint64_t lose_at = 0;
  int stall_party = -1;       // stalls (longer than any timeout) at its stall_at-th operation
  uint64_t stall_at = 0;
  uint64_t recv_timeout_ms = 30000;
  // Byzantine sender
  int evil_party = -1;
  uint64_t evil_at = 0;       // first tampered send
  uint64_t evil_count = 1;
  int evil_mode = 0;          // 0 flip one bit, 1 add one to an element, 2 random bytes, 3 zero
  // data-parallel chunking
  double p_chunk = 0.5;       // how often a parallel loop is cut into pieces
  double p_chunk_conc = 0;    // how often the pieces run at the same time, with switches at element accesses
  double p_preempt = 0.05;    // chance of a switch at an element access of such a loop
  uint64_t access_gap = 0;    // mean number of memory accesses of the code under test between two possible switches; 0: none
  uint64_t access_budget = 1500;
  bool races = false;         // happens-before race detection on the code under test
  int num_threads = 4;
  double p_yield = 0.3;       // switch at a scheduling point although runnable
  double p_lock_yield = 0.5;
  uint64_t max_steps = 40000000;
  uint64_t max_time_us = 4ULL * 3600 * 1000000;
  bool record_msgs = false;   // keep message log (content hash)
  bool record_payload = false;
};

struct MsgRec {
  uint64_t sent_us, recv_us;
  int src, dst;
  std::string ctx, key, tag;
  uint64_t size, hash;
  std::string payload;
};

struct Stats {
  uint64_t switches = 0, sched_choices = 0, events = 0, msgs = 0, bytes = 0, yields = 0;
  uint64_t chunk_calls = 0, chunk_pieces = 0, threads = 0, locks = 0, access_switches = 0;
  uint64_t virt_us = 0;
  std::map<std::string, uint64_t> faults;  // actually fired
  std::map<std::string, uint64_t> probes;
  uint64_t hash = 0;       // hash of the whole event log
  uint64_t interleaving = 0;  // hash of scheduling decisions only
};

struct TaskResult {
  bool done = false, crashed = false;
  std::exception_ptr error;
  std::string what;
};

struct Hang {  // thrown out of run() when nothing can make progress
  std::string what;
};

// ---- API used by harnesses -------------------------------------------------
// Runs `main` as the first fiber, until all fibers ended. Throws Hang on deadlock / step cap.
void run(const Config& cfg, const std::function<void()>& main_fn);
const Stats& stats();
Stats& mutable_stats();
const std::vector<MsgRec>& messages();
struct Draw { int party; uint64_t idx, value; };
const std::vector<Draw>& draws();
const Config& config();
Config& mutable_config();

using Task = int;
Task spawn(std::function<void()> fn, const std::string& name, int party);
bool join(Task t);  // false when the task was crashed
TaskResult result(Task t);
bool active();                 // inside a fiber
int current_party();
int current_task();
size_t live_tasks();
bool has_ready_sibling();       // another task of the current party could run now
void set_party(int p);
uint64_t now_us();
void sleep_us(uint64_t us);
void preempt_region(int delta);  // parallel regions with preemptible element accesses: +1 entered, -1 left
void maybe_yield(double p);
void yield();                  // unconditional scheduling point
void at(uint64_t delay_us, std::function<void()> fn);
void crash_party(int p);       // all its fibers stop for ever
bool party_crashed(int p);
void fault_fired(const std::string& kind);
void probe(const std::string& name);
void log_event(uint64_t a, uint64_t b = 0, uint64_t c = 0);
// Textual trace of the schedule, messages and faults (environment SIM_TRACE=<file>); never
// draws from a generator and never changes the execution.
bool tracing();
void trace(const std::string& line);
Rng& sched_rng();
Rng& fault_rng();

// race detection (sim_race.cc)
void race_access(const void* p, unsigned size, bool write, const void* pc);
void race_acquire(const void* key);
void race_release(const void* key);
int race_piece_begin(int outer);
void race_piece_end(int outer);
void race_piece_join(int outer, int piece);
std::string race_report();       // the first race of the last execution, or empty

// wait queues
struct WaitQ { std::deque<int> q; };
// Blocks the current fiber; returns false on timeout (timeout_us==0: none).
bool block(WaitQ& w, uint64_t timeout_us, const char* why);
void wake_one(WaitQ& w);
void wake_all(WaitQ& w);

}  // namespace sim
