#include "sim/sim.h"

#include <boost/context/detail/fcontext.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <link.h>
#include <mutex>
#include <queue>
#include <set>
#include <sys/mman.h>

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

namespace sim {
namespace {
namespace ctx = boost::context::detail;
constexpr size_t kStack = 4 << 20;

struct EhGlobals { void* caught; unsigned int uncaught; };
// What belongs to a thread although all fibers share one: the exceptions in flight, the pending
// std::call_once callable and the thread-local variables of the code under test.
struct ThreadImage { EhGlobals eh{nullptr, 0}; void* once_callable = nullptr; void (*once_call)() = nullptr; std::vector<char> tls; };

enum class St { kReady, kBlocked, kRunning, kDone, kCrashed };
struct Fiber {
  int id = 0, party = -1;
  std::string name;
  std::function<void()> fn;
  ctx::fcontext_t fc = nullptr;
  void* stack = nullptr;
  St st = St::kReady;
  const char* why = "";
  uint64_t wait_seq = 0;   // to cancel timeouts
  bool timed_out = false;
  uint64_t prio = 0;
  ThreadImage img;
  std::exception_ptr error;
  std::string what;
  WaitQ joiners;
};
struct Event {
  uint64_t at, seq;
  std::function<void()> fn;
  bool operator<(const Event& o) const { return at != o.at ? at > o.at : seq > o.seq; }
};

struct Core {
  Config cfg;
  Stats st;
  Rng sched, fault;
  std::vector<std::unique_ptr<Fiber>> fibers;
  std::vector<int> ready;
  std::priority_queue<Event> events;
  uint64_t now = 0, seq = 0, steps = 0;
  int cur = -1;
  ctx::fcontext_t main_fc = nullptr;
  ThreadImage main_img;
  std::set<int> crashed;
  std::vector<MsgRec> msgs;
  std::vector<void*> free_stacks;
};
Core* g = nullptr;
Stats g_last_stats;
std::vector<MsgRec> g_last_msgs;

void* new_stack() {
  if (!g->free_stacks.empty()) { void* p = g->free_stacks.back(); g->free_stacks.pop_back(); return p; }
  void* p = mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { std::perror("mmap"); std::abort(); }
  mprotect(p, 4096, PROT_NONE);
  return p;
}
EhGlobals* eh() { return reinterpret_cast<EhGlobals*>(__cxxabiv1::__cxa_get_globals()); }

struct TlsBlock { char* at = nullptr; size_t size = 0; std::vector<char> init; };
TlsBlock& tls_block() {
  static TlsBlock b = [] {
    TlsBlock o;
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void* p) {
      auto& o = *static_cast<TlsBlock*>(p);
      for (int k = 0; k < i->dlpi_phnum; ++k) {
        const auto& h = i->dlpi_phdr[k];
        if (h.p_type != PT_TLS || !i->dlpi_tls_data) continue;
        o.at = static_cast<char*>(i->dlpi_tls_data); o.size = h.p_memsz;
        o.init.assign(h.p_memsz, 0);
        std::memcpy(o.init.data(), reinterpret_cast<char*>(i->dlpi_addr + h.p_vaddr), h.p_filesz);
      }
      return 1;  // the executable comes first
    }, &o);
    return o;
  }();
  return b;
}
void save(ThreadImage& m) {
  m.eh = *eh(); m.once_callable = std::__once_callable; m.once_call = std::__once_call;
  auto& b = tls_block();
  if (b.size) m.tls.assign(b.at, b.at + b.size);
}
void load(const ThreadImage& m) {
  *eh() = m.eh; std::__once_callable = m.once_callable; std::__once_call = m.once_call;
  auto& b = tls_block();
  if (b.size) std::memcpy(b.at, m.tls.empty() ? b.init.data() : m.tls.data(), b.size);
}

void to_scheduler() {
  Fiber& f = *g->fibers[g->cur];
  save(f.img);
  load(g->main_img);
  auto t = ctx::jump_fcontext(g->main_fc, nullptr);
  g->main_fc = t.fctx;
  // back in the fiber
}
void entry(ctx::transfer_t t) {
  g->main_fc = t.fctx;
  {
    Fiber& f = *g->fibers[g->cur];
    try {
      f.fn();
    } catch (const std::exception& e) {
      f.what = e.what();
      f.error = std::current_exception();
    } catch (...) {
      f.what = "unknown exception";
      f.error = std::current_exception();
    }
    f.fn = nullptr;
    f.st = St::kDone;
    wake_all(f.joiners);
  }
  to_scheduler();
  std::abort();
}
void make_ready(Fiber& f) {
  if (f.st == St::kCrashed || f.st == St::kDone) return;
  f.st = St::kReady;
  if (f.party >= 0 && f.party == g->cfg.slow_party && g->fault.chance(0.25)) {
    // slow node: becomes runnable later
    fault_fired("slow_node");
    f.st = St::kBlocked; f.why = "slow";
    int id = f.id; uint64_t ws = ++f.wait_seq;
    at(1 + g->fault.below(g->cfg.slow_us), [id, ws] {
      Fiber& x = *g->fibers[id];
      if (x.st == St::kBlocked && x.wait_seq == ws) { x.st = St::kReady; g->ready.push_back(id); }
    });
    return;
  }
  g->ready.push_back(f.id);
}
void note_choice(uint64_t n, uint64_t k) {
  g->st.interleaving = mix64(g->st.interleaving ^ (k * 131 + n));
}
}  // namespace

const Stats& stats() { return g ? g->st : g_last_stats; }
Stats& mutable_stats() { return g ? g->st : g_last_stats; }
const std::vector<MsgRec>& messages() { return g ? g->msgs : g_last_msgs; }
std::vector<MsgRec>& messages_mut() { return g->msgs; }
static Config g_idle_cfg;
const Config& config() { return g ? g->cfg : g_idle_cfg; }
Config& mutable_config() { return g ? g->cfg : g_idle_cfg; }
// thread-local variables of all modules (those of the libraries lie next to the executable's)
std::pair<char*, size_t> tls_range() {
  static const std::pair<char*, size_t> r = [] {
    std::pair<char*, char*> o{nullptr, nullptr};
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void* p) {
      auto& o = *static_cast<std::pair<char*, char*>*>(p);
      for (int k = 0; k < i->dlpi_phnum; ++k) {
        if (i->dlpi_phdr[k].p_type != PT_TLS || !i->dlpi_tls_data) continue;
        char* a = static_cast<char*>(i->dlpi_tls_data);
        char* e = a + i->dlpi_phdr[k].p_memsz;
        if (!o.first) o = {a, e};
        else if (a + (1 << 16) > o.first && e < o.second + (1 << 16)) o = {std::min(a, o.first), std::max(e, o.second)};
      }
      return 0;
    }, &o);
    return std::make_pair(o.first, static_cast<size_t>(o.second - o.first));
  }();
  return r;
}
void race_party(int fiber, int party);
void race_spawn(int child, int party, void* stack, size_t size);
void race_join(int child);
void race_end(int fiber);
void race_reset(bool start);
bool active() { return g != nullptr && g->cur >= 0; }
bool running() { return g != nullptr; }
int current_party() { return active() ? g->fibers[g->cur]->party : -1; }
static size_t g_live = 0;
size_t live_tasks() { return g_live; }
bool has_ready_sibling() {
  if (!active()) return false;
  const Fiber& me = *g->fibers[g->cur];
  for (int id : g->ready) if (id != g->cur && g->fibers[id]->party == me.party && g->fibers[id]->st == St::kReady) return true;
  return false;
}
int current_task() { return active() ? g->cur : -1; }
void set_party(int p) { if (active()) { g->fibers[g->cur]->party = p; race_party(g->cur, p); } }
uint64_t now_us() { return g ? g->now : 0; }
Rng& sched_rng() { static Rng idle(7); return g ? g->sched : idle; }
Rng& fault_rng() { static Rng idle(9); return g ? g->fault : idle; }
static FILE* g_trace = nullptr;
static bool g_trace_init = false;
bool tracing() {
  if (!g_trace_init) { g_trace_init = true; if (const char* f = std::getenv("SIM_TRACE")) g_trace = std::fopen(f, "w"); }
  return g_trace != nullptr;
}
void trace(const std::string& line) {
  if (!tracing()) return;
  std::string who = active() ? g->fibers[g->cur]->name : "";
  std::fprintf(g_trace, "%llu %s%s%s\n", static_cast<unsigned long long>(now_us()), who.c_str(), who.empty() ? "" : ": ", line.c_str());
  std::fflush(g_trace);
}
void fault_fired(const std::string& k) { if (g) { ++g->st.faults[k]; if (tracing()) trace("fault " + k); } }
void probe(const std::string& k) { ++mutable_stats().probes[k]; }
void log_event(uint64_t a, uint64_t b, uint64_t c) {
  if (g) g->st.hash = mix64(g->st.hash ^ mix64(a) ^ (mix64(b) << 1) ^ (mix64(c) << 2)) + a;
}

Task spawn(std::function<void()> fn, const std::string& name, int party) {
  auto f = std::make_unique<Fiber>();
  f->id = static_cast<int>(g->fibers.size());
  f->party = party;
  f->name = name;
  f->fn = std::move(fn);
  f->prio = g->sched.next();
  f->stack = new_stack();
  f->fc = ctx::make_fcontext(static_cast<char*>(f->stack) + kStack, kStack - 4096, entry);
  int id = f->id;
  race_spawn(id, party, f->stack, kStack);
  g->fibers.push_back(std::move(f));
  ++g_live;
  if (g->crashed.count(party)) g->fibers[id]->st = St::kCrashed;
  else g->ready.push_back(id);
  return id;
}
void at(uint64_t d, std::function<void()> fn) { g->events.push(Event{g->now + d, g->seq++, std::move(fn)}); }

bool block(WaitQ& w, uint64_t timeout_us, const char* why) {
  Fiber& f = *g->fibers[g->cur];
  f.st = St::kBlocked;
  f.why = why;
  f.timed_out = false;
  uint64_t ws = ++f.wait_seq;
  int id = f.id;
  w.q.push_back(id);
  if (timeout_us) {
    WaitQ* wp = &w;
    at(timeout_us, [id, ws, wp] {
      Fiber& x = *g->fibers[id];
      if (x.st == St::kBlocked && x.wait_seq == ws) {
        for (auto it = wp->q.begin(); it != wp->q.end(); ++it) if (*it == id) { wp->q.erase(it); break; }
        x.timed_out = true;
        make_ready(x);
      }
    });
  }
  to_scheduler();
  return !g->fibers[id]->timed_out;
}
void wake_one(WaitQ& w) {
  while (!w.q.empty()) {
    size_t k = g->cfg.policy == Policy::kFifo ? 0 : g->sched.below(w.q.size());
    int id = w.q[k];
    w.q.erase(w.q.begin() + k);
    Fiber& f = *g->fibers[id];
    if (f.st == St::kBlocked) { make_ready(f); return; }
  }
}
void wake_all(WaitQ& w) {
  auto q = std::move(w.q);
  w.q.clear();
  for (int id : q) { Fiber& f = *g->fibers[id]; if (f.st == St::kBlocked) make_ready(f); }
}
void yield() {
  if (!active()) return;
  ++g->st.yields;
  Fiber& f = *g->fibers[g->cur];
  if (g->ready.empty() && g->events.empty()) return;
  f.st = St::kReady;
  g->ready.push_back(f.id);
  to_scheduler();
}
void maybe_yield(double p) {
  if (!active()) return;
  if (g->crashed.count(g->fibers[g->cur]->party)) { g->fibers[g->cur]->st = St::kCrashed; to_scheduler(); }
  if (g->cfg.policy == Policy::kFifo) return;
  if (g->ready.empty()) return;
  if (g->sched.chance(p)) yield();
}
static int g_preempt = 0;
static uint64_t g_preempt_budget = 0;
}  // namespace sim
namespace spu {
bool kSimPreemptElements = false;  // SPU_SIM hook
void simPreemptElement() {
  auto& c = sim::config();
  if (!sim::active() || sim::g_preempt_budget == 0 || !sim::sched_rng().chance(c.p_preempt)) return;
  --sim::g_preempt_budget;
  sim::yield();
}
}  // namespace spu
namespace sim {
void preempt_region(int d) {
  if (d > 0 && g_preempt == 0) g_preempt_budget = 300;
  g_preempt += d;
  spu::kSimPreemptElements = g_preempt > 0;
}
void preempt_reset() { g_live = 0; g_preempt = 0; spu::kSimPreemptElements = false; }
void sleep_us(uint64_t us) { WaitQ w; block(w, us ? us : 1, "sleep"); }
bool join(Task t) {
  Fiber& f = *g->fibers[t];
  while (f.st != St::kDone && f.st != St::kCrashed) block(f.joiners, 0, "join");
  race_join(t);
  return f.st == St::kDone;
}
TaskResult result(Task t) {
  Fiber& f = *g->fibers[t];
  TaskResult r; r.done = f.st == St::kDone; r.crashed = f.st == St::kCrashed; r.error = f.error; r.what = f.what;
  return r;
}
void crash_party(int p) {
  if (tracing()) trace("crash of party " + std::to_string(p));
  g->crashed.insert(p);
  for (size_t i = 0; i < g->fibers.size(); ++i) {
    Fiber& f = *g->fibers[i];
    if (f.party == p && f.st != St::kDone && f.st != St::kRunning && f.st != St::kCrashed) { f.st = St::kCrashed; wake_all(f.joiners); }
  }
  if (active() && g->fibers[g->cur]->party == p) {
    Fiber& f = *g->fibers[g->cur];
    f.st = St::kCrashed;
    wake_all(f.joiners);
    to_scheduler();
  }
}
bool party_crashed(int p) { return g && g->crashed.count(p) != 0; }

void net_reset();
void threads_reset();
void preempt_reset();
void draws_reset();
void access_reset(bool);

void run(const Config& cfg, const std::function<void()>& main_fn) {
  if (g) { std::fprintf(stderr, "nested sim::run\n"); std::abort(); }
  Core* core_p = new Core;
  Core& core = *core_p;
  g = core_p;
  core.cfg = cfg;
  core.sched = Rng(cfg.seed * 2 + 1);
  core.fault = Rng(cfg.seed * 2 + 0x777);
  net_reset();
  threads_reset();
  preempt_reset();
  draws_reset();
  access_reset(true);
  race_reset(true);
  if (tracing()) trace("simulation starts");
  spawn(main_fn, "main", -1);
  std::string hang;
  while (true) {
    // drop stale ids
    auto& rd = core.ready;
    for (size_t i = 0; i < rd.size();) {
      if (core.fibers[rd[i]]->st != St::kReady) { rd[i] = rd.back(); rd.pop_back(); } else ++i;
    }
    if (rd.empty()) {
      if (core.events.empty()) {
        std::string s;
        int n = 0;
        for (auto& f : core.fibers) if (f->st == St::kBlocked) { if (n++ < 12) s += " [" + f->name + ": " + f->why + "]"; }
        if (n) hang = "deadlock: " + std::to_string(n) + " tasks blocked:" + s;
        break;
      }
      auto ev = core.events.top();
      core.events.pop();
      core.now = ev.at;
      ++core.st.events;
      if (core.now > cfg.max_time_us) { hang = "virtual time cap reached"; break; }
      ev.fn();
      continue;
    }
    // events that are already due compete with runnable fibers
    if (!core.events.empty() && core.events.top().at <= core.now) {
      auto ev = core.events.top(); core.events.pop(); ++core.st.events; ev.fn(); continue;
    }
    // Compute time is not free: now and then let the next network event overtake.
    if (cfg.policy != Policy::kFifo && !core.events.empty() && !cfg.zero_latency && core.sched.chance(0.05)) {
      auto ev = core.events.top(); 
      if (ev.at - core.now < 5000) { core.events.pop(); core.now = ev.at; ++core.st.events; ev.fn(); continue; }
    }
    size_t k = 0;
    if (rd.size() > 1) {
      ++core.st.sched_choices;
      switch (cfg.policy) {
        case Policy::kFifo: { size_t b = 0; for (size_t i = 1; i < rd.size(); ++i) if (rd[i] < rd[b]) b = i; k = b; break; }
        case Policy::kRandom: k = core.sched.below(rd.size()); break;
        case Policy::kLifo: k = rd.size() - 1; if (core.sched.chance(0.1)) k = core.sched.below(rd.size()); break;
        case Policy::kPriority: {
          for (size_t i = 1; i < rd.size(); ++i) if (core.fibers[rd[i]]->prio > core.fibers[rd[k]]->prio) k = i;
          if (core.sched.chance(0.02)) core.fibers[rd[k]]->prio = core.sched.next() >> 8;  // priority change point
          break;
        }
      }
      note_choice(rd.size(), static_cast<uint64_t>(rd[k]));
    }
    int id = rd[k];
    rd.erase(rd.begin() + k);
    Fiber& f = *core.fibers[id];
    if (++core.steps > cfg.max_steps) { hang = "step cap reached (" + std::to_string(cfg.max_steps) + ")"; break; }
    ++core.st.switches;
    log_event(0x51, id);
    if (tracing()) trace("run " + f.name + "#" + std::to_string(id) + (rd.empty() ? "" : " of " + std::to_string(rd.size() + 1)));
    core.cur = id;
    f.st = St::kRunning;
    save(core.main_img);
    load(f.img);
    auto t = ctx::jump_fcontext(f.fc, nullptr);
    // returned from the fiber
    Fiber& f2 = *core.fibers[id];
    f2.fc = t.fctx;
    core.cur = -1;
    if (f2.st == St::kDone && f2.stack) { --g_live; race_end(id); core.free_stacks.push_back(f2.stack); f2.stack = nullptr; }
  }
  core.st.virt_us = core.now;
  bool main_err = core.fibers[0]->error != nullptr;
  std::exception_ptr me = core.fibers[0]->error;
  net_reset();
  threads_reset();
  preempt_reset();
  access_reset(false);
  race_reset(false);
  g_last_stats = core.st;
  g_last_msgs = std::move(core.msgs);
  for (void* p : core.free_stacks) munmap(p, kStack);
  bool leak = !hang.empty() || !core.crashed.empty();
  g = nullptr;
  if (!leak) delete core_p;  // abandoned fibers keep their stacks and closures
  if (!hang.empty()) throw Hang{hang};
  if (main_err) std::rethrow_exception(me);
}
}  // namespace sim
