// Happens-before race detection inside a simulated execution.
//
// Fed by the access call-outs of libspu's objects (sim_access.cc) and by every synchronisation the
// simulator implements: thread start and join, locks, one-time initialisation, futures, atomics.
// Two accesses of one party to the same bytes, one of them a write, that no chain of those orders,
// are a race: some schedule of a real deployment lets them collide, whether or not this one did.
// Parties are processes of their own, so accesses of different parties never race.
// Freed memory is watched too: an access to a block after its release is reported.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <deque>
#include <elf.h>
#include <fcntl.h>
#include <link.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>
#include "sim/sim.h"

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
}

namespace sim {
std::pair<char*, size_t> tls_range();
bool g_race_on = false;
namespace {
using u8 = uint8_t; using u32 = uint32_t; using u64 = uint64_t;
struct Acc { u32 clk = 0, pc = 0, fib : 24, mask : 8; Acc() : fib(0), mask(0) {} Acc(u32 f, u32 c, u32 p, u8 m) : clk(c), pc(p), fib(f), mask(m) {} };
constexpr int kReads = 3;
struct Cell { Acc w; Acc r[kReads]; };
constexpr u64 kPage = 4096, kCells = kPage / 8;
struct Page { u64 no; Page* next; Page* all; u8 freed[kCells]; Cell c[kCells]; };
constexpr size_t kBuckets = 1 << 16;
Page** g_tab = nullptr;
Page* g_all = nullptr;
Page* g_spare = nullptr;
Page* g_last = nullptr;

using VC = std::vector<u32>;
// A strand is a fiber, or one piece of a parallel loop. Strands of one party that ended are used
// again, with their clock running on: orders may be overlooked then, none is invented.
struct State {
  std::vector<VC> vc;             // per strand
  std::vector<int> party;         // per strand
  std::vector<int> of;            // fiber -> strand
  std::vector<VC> last;           // fiber -> clock it ended with
  std::unordered_map<int, std::deque<int>> idle;  // per party
  std::unordered_map<const void*, VC> sync;
  std::string report;
  std::deque<std::pair<void*, size_t>> quarantine;
  size_t held = 0;
};
State* g_st = nullptr;
int g_in = 0;  // inside this file: allocations are not watched
struct In { In() { ++g_in; } ~In() { --g_in; } };
u64 g_base = 0;
char* g_tls = nullptr; size_t g_tls_n = 0;

Page* find(u64 no) {
  if (g_last && g_last->no == no) return g_last;
  for (Page* p = g_tab[mix64(no) % kBuckets]; p; p = p->next) if (p->no == no) return g_last = p;
  return nullptr;
}
Page* page(u64 no) {
  if (Page* p = find(no)) return p;
  Page* p = g_spare;
  if (p) g_spare = p->next;
  else {
    p = static_cast<Page*>(mmap(nullptr, (sizeof(Page) + 4095) & ~u64(4095), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (p == MAP_FAILED) { std::perror("mmap"); std::abort(); }
  }
  p->no = no;
  auto& b = g_tab[mix64(no) % kBuckets];
  p->next = b; b = p;
  p->all = g_all; g_all = p;
  return g_last = p;
}
void clear_range(u64 a, u64 n, bool freed) {
  if (!n) return;
  for (u64 c = a / 8, e = (a + n - 1) / 8; c <= e;) {
    const u64 no = c / kCells, stop = std::min(e + 1, (no + 1) * kCells);
    Page* p = freed ? page(no) : find(no);
    if (p) {
      std::memset(static_cast<void*>(&p->c[c % kCells]), 0, (stop - c) * sizeof(Cell));
      std::memset(&p->freed[c % kCells], freed ? 1 : 0, stop - c);
    }
    c = stop;
  }
}

// function names, from the symbol table of the executable
struct Sym { u64 at, size; const char* name; };
std::string where(u64 pc) {
  static std::vector<Sym>* syms = [] {
    auto* o = new std::vector<Sym>;
    int fd = open("/proc/self/exe", O_RDONLY);
    struct stat sb;
    if (fd < 0 || fstat(fd, &sb) != 0) return o;
    auto* m = static_cast<char*>(mmap(nullptr, sb.st_size, PROT_READ, MAP_PRIVATE, fd, 0));
    close(fd);
    if (m == MAP_FAILED) return o;
    auto* eh = reinterpret_cast<Elf64_Ehdr*>(m);
    auto* sh = reinterpret_cast<Elf64_Shdr*>(m + eh->e_shoff);
    for (int i = 0; i < eh->e_shnum; ++i) {
      if (sh[i].sh_type != SHT_SYMTAB) continue;
      auto* s = reinterpret_cast<Elf64_Sym*>(m + sh[i].sh_offset);
      const char* str = m + sh[sh[i].sh_link].sh_offset;
      for (size_t k = 0; k < sh[i].sh_size / sizeof(Elf64_Sym); ++k)
        if ((ELF64_ST_TYPE(s[k].st_info) == STT_FUNC || ELF64_ST_TYPE(s[k].st_info) == STT_OBJECT) && s[k].st_size) o->push_back({s[k].st_value, s[k].st_size, str + s[k].st_name});
    }
    return o;
  }();
  for (auto& s : *syms) if (pc >= s.at && pc < s.at + s.size) {
    int st = 0;
    char* d = abi::__cxa_demangle(s.name, nullptr, nullptr, &st);
    std::string o = d ? d : s.name;
    std::free(d);
    return o.size() > 300 ? o.substr(0, 300) + "..." : o;
  }
  return "?";
}
std::string party_name(int p) { return "party " + std::to_string(p); }
void found(const char* what, u64 addr, u32 pc, bool w, const Acc* o, bool ow, int me) {
  if (!g_st->report.empty()) return;
  In in;
  std::string s = party_name(g_st->party[me]) + ": " + what + ": " + (w ? "write in " : "read in ") + where(pc);
  if (o) s += std::string(" and unordered ") + (ow ? "write in " : "read in ") + where(o->pc);
  if (std::string d = where(addr - g_base); d != "?") s += ", on " + d;
  g_st->report = s;
  if (tracing()) trace("race " + s);
}
bool ordered(const VC& v, const Acc& a) { return a.fib < v.size() && v[a.fib] >= a.clk; }
}  // namespace

void race_access(const void* ptr, unsigned size, bool write, const void* ret) {
  const int fiber = current_task();
  if (fiber < 0 || g_in) return;
  const int me = g_st->of[fiber];
  const u64 a = reinterpret_cast<u64>(ptr);
  if (a - reinterpret_cast<u64>(g_tls) < g_tls_n) return;
  In in;
  const u32 pc = static_cast<u32>(reinterpret_cast<u64>(ret) - g_base);
  const VC& v = g_st->vc[me];
  const u32 clk = v[me];
  for (u64 c = a / 8, e = (a + size - 1) / 8; c <= e; ++c) {
    const u64 lo = std::max(a, c * 8), hi = std::min(a + size, c * 8 + 8);
    const u8 mask = static_cast<u8>(((1u << (hi - lo)) - 1) << (lo - c * 8));
    Page* p = page(c / kCells);
    Cell& x = p->c[c % kCells];
    if (p->freed[c % kCells]) { found("use of freed memory", lo, pc, write, nullptr, false, me); continue; }
    auto clash = [&](const Acc& o) {
      return (o.mask & mask) && static_cast<int>(o.fib) != me && g_st->party[o.fib] == g_st->party[me] && !ordered(v, o);
    };
    if (x.w.fib == static_cast<u32>(me) && x.w.clk == clk && (x.w.mask & mask) == mask) { if (!write) continue; }
    else if (clash(x.w)) found("data race", lo, pc, write, &x.w, true, me);
    if (write) {
      for (auto& r : x.r) { if (clash(r)) found("data race", lo, pc, true, &r, false, me); if ((r.mask &= ~mask) == 0) r = Acc{}; }
      if (x.w.fib == static_cast<u32>(me) && x.w.clk == clk) x.w.mask |= mask;
      else x.w = Acc{static_cast<u32>(me), clk, pc, mask};
      x.w.pc = pc;
      continue;
    }
    Acc* slot = nullptr;
    for (auto& r : x.r) if (r.mask && r.fib == static_cast<u32>(me)) { slot = &r; break; }
    if (slot) { if (slot->clk == clk) slot->mask |= mask; else *slot = Acc{static_cast<u32>(me), clk, pc, mask}; continue; }
    for (auto& r : x.r) if (!r.mask) { slot = &r; break; }
    if (!slot) for (auto& r : x.r) if ((r.mask & ~mask) == 0 && ordered(v, r)) { slot = &r; break; }
    if (!slot) slot = &x.r[clk % kReads];
    *slot = Acc{static_cast<u32>(me), clk, pc, mask};
  }
}
void merge(VC& a, const VC& b) {
  if (a.size() < b.size()) a.resize(b.size());
  for (size_t i = 0; i < b.size(); ++i) if (b[i] > a[i]) a[i] = b[i];
}
static int self() { const int f = current_task(); return g_race_on && f >= 0 ? g_st->of[f] : -1; }
static int new_strand(int parent, int party) {
  auto& idle = g_st->idle[party];
  int id;
  if (idle.size() > 24) { id = idle.front(); idle.pop_front(); }
  else { id = static_cast<int>(g_st->vc.size()); g_st->vc.emplace_back(); g_st->party.push_back(party); }
  VC& v = g_st->vc[id];
  const u32 clk = static_cast<int>(v.size()) > id ? v[id] + 1 : 1;
  v.clear();
  if (parent >= 0) { v = g_st->vc[parent]; ++g_st->vc[parent][parent]; }
  if (static_cast<int>(v.size()) <= id) v.resize(id + 1);
  v[id] = clk;
  return id;
}
void race_acquire(const void* key) {
  const int me = self();
  if (me < 0) return;
  In in;
  auto it = g_st->sync.find(key);
  if (it != g_st->sync.end()) merge(g_st->vc[me], it->second);
}
void race_release(const void* key) {
  const int me = self();
  if (me < 0) return;
  In in;
  merge(g_st->sync[key], g_st->vc[me]);
  ++g_st->vc[me][me];
}
void race_party(int fiber, int party) { if (g_race_on) { In in; g_st->of[fiber] = new_strand(g_st->of[fiber], party); } }
void race_spawn(int child, int party, void* stack, size_t size) {
  if (!g_race_on) return;
  In in;
  const int me = self();
  if (static_cast<int>(g_st->of.size()) <= child) g_st->of.resize(child + 1, -1);
  g_st->of[child] = new_strand(me, party);
  clear_range(reinterpret_cast<u64>(stack), size, false);
}
void race_join(int child) {
  const int me = self();
  if (me < 0 || g_st->of[child] < 0) return;
  In in;
  merge(g_st->vc[me], static_cast<int>(g_st->last.size()) > child && !g_st->last[child].empty() ? g_st->last[child] : g_st->vc[g_st->of[child]]);
}
void race_end(int fiber) {  // the fiber has ended; its clock is kept for those who join
  if (!g_race_on) return;
  In in;
  if (static_cast<int>(g_st->last.size()) <= fiber) g_st->last.resize(fiber + 1);
  g_st->last[fiber] = g_st->vc[g_st->of[fiber]];
  g_st->idle[g_st->party[g_st->of[fiber]]].push_back(g_st->of[fiber]);
}
// Pieces of a parallel loop that run one after the other here, and at the same time for real.
int race_piece_begin(int outer) {
  if (!g_race_on) return -1;
  In in;
  const int fiber = current_task();
  if (outer < 0) return g_st->of[fiber];
  g_st->of[fiber] = new_strand(outer, g_st->party[outer]);
  const u64 top = reinterpret_cast<u64>(__builtin_frame_address(0)) + 16;  // stack frames below are used anew
  clear_range(top - (256 << 10), 256 << 10, false);
  return g_st->of[fiber];
}
void race_piece_end(int outer) { if (g_race_on) g_st->of[current_task()] = outer; }
void race_piece_join(int outer, int piece) {
  if (!g_race_on) return;
  In in;
  merge(g_st->vc[outer], g_st->vc[piece]);
  g_st->idle[g_st->party[piece]].push_back(piece);
}
std::string race_report() { return g_st ? g_st->report : std::string(); }
void race_reset(bool start) {
  const bool on = start && config().races;
  if (!start) {  // after a run: what was held back goes
    g_race_on = false;
    if (g_st) { for (auto& q : g_st->quarantine) __libc_free(q.first); g_st->quarantine.clear(); g_st->held = 0; }
    return;
  }
  delete g_st; g_st = new State;
  while (g_all) {
    Page* p = g_all; g_all = p->all;
    std::memset(static_cast<void*>(p), 0, sizeof(Page));
    p->next = g_spare; g_spare = p;
  }
  g_last = nullptr;
  if (on && !g_tab) g_tab = static_cast<Page**>(mmap(nullptr, kBuckets * sizeof(Page*), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  if (g_tab) std::memset(g_tab, 0, kBuckets * sizeof(Page*));
  auto t = tls_range();
  g_tls = t.first; g_tls_n = t.second;
  dl_iterate_phdr([](dl_phdr_info* i, size_t, void*) { g_base = i->dlpi_addr; return 1; }, nullptr);
  g_race_on = on;
}
static void fresh(void* p, size_t n) { if (g_race_on && p) clear_range(reinterpret_cast<u64>(p), n, false); }
static void gone(void* p) {
  const size_t n = malloc_usable_size(p);
  if (g_in || current_task() < 0 || n > 8192) { clear_range(reinterpret_cast<u64>(p), n, false); __libc_free(p); return; }
  In in;
  clear_range(reinterpret_cast<u64>(p), n, true);
  g_st->quarantine.emplace_back(p, n);
  g_st->held += n;
  while (g_st->held > (4u << 20) || g_st->quarantine.size() > 4096) {
    auto q = g_st->quarantine.front();
    g_st->quarantine.pop_front();
    g_st->held -= q.second;
    __libc_free(q.first);
  }
}
}  // namespace sim

extern "C" {
void* malloc(size_t n) { void* p = __libc_malloc(n); if (__builtin_expect(sim::g_race_on, 0)) sim::fresh(p, n); return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (__builtin_expect(sim::g_race_on, 0)) sim::fresh(p, a * b); return p; }
void* realloc(void* q, size_t n) { void* p = __libc_realloc(q, n); if (__builtin_expect(sim::g_race_on, 0)) sim::fresh(p, n); return p; }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (__builtin_expect(sim::g_race_on, 0)) sim::fresh(p, n); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** o, size_t a, size_t n) { *o = memalign(a, n); return *o ? 0 : 12; }
void free(void* p) { if (__builtin_expect(sim::g_race_on, 0) && p) { sim::gone(p); return; } __libc_free(p); }
}
