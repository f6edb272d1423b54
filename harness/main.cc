// simrun: runs batches of simulated cases, each in a forked child.
//   simrun list
//   simrun batch SEED JOBS TIMECAP OUT  scenario=count ...
//   simrun case SCENARIO SEED [k=v ...] [skip=1,2,3]
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include "h.h"
#include "spdlog/spdlog.h"

using namespace h;

static double real_now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

struct Result {
  std::string status = "ok", kind, msg;  // ok | discard | viol
  Run r;
  double secs = 0;
};

static const ScenarioFn* find_scenario(const std::string& n) { for (auto& s : scenarios()) if (s.name == n) return &s.fn; return nullptr; }

static std::string serialize(const Result& x) {
  std::ostringstream o;
  const Run& r = x.r;
  o << "S " << x.status << "\n";
  if (x.status == "viol") { o << "V " << esc(x.kind) << "\n"; o << "M " << esc(x.msg.substr(0, 4000)) << "\n"; }
  o << "N " << esc(r.note) << "\n";
  o << "H " << r.hash << "\n";
  o << "C " << r.evals << " " << r.sims << " " << r.switches << " " << r.choices << " " << r.msgs << " " << r.bytes << " " << r.virt_us << " " << r.chunks << " " << r.threads << " " << r.locks << " " << r.n_ops << "\n";
  for (auto& t : r.tags) o << "T " << t.second << " " << esc(t.first) << "\n";
  for (auto& t : r.faults) o << "F " << t.second << " " << esc(t.first) << "\n";
  for (auto v : r.interleavings) o << "I " << v << "\n";
  for (auto v : r.states) o << "A " << v << "\n";
  for (auto& k : r.knobs) o << "K " << k.second.first << " " << k.second.second << " " << k.first << "\n";
  o << "E\n";
  return o.str();
}

// Runs the case in this process.
static Result run_case(const std::string& scenario, uint64_t seed, const std::map<std::string, int64_t>& over, const std::set<int>& skip) {
  Result x;
  Run& r = x.r;
  r.scenario = scenario; r.seed = seed; r.over = over; r.skip = skip;
  const ScenarioFn* fn = find_scenario(scenario);
  if (!fn) { std::fprintf(stderr, "unknown scenario %s\n", scenario.c_str()); std::exit(2); }
  try {
    (*fn)(r);
  } catch (const Violation& v) {
    x.status = "viol"; x.kind = v.kind; x.msg = v.msg;
  } catch (const Discard&) {
    x.status = "discard";
  } catch (const sim::Hang& e) {
    x.status = "viol"; x.kind = "hang"; x.msg = e.what;
  } catch (const std::exception& e) {
    x.status = "viol"; x.kind = "exception"; x.msg = e.what();
  }
  return x;
}

struct Child { std::string out, err; int status = 0; bool timeout = false; };

// Forks, runs, collects. Stdout of the child goes to /dev/null, stderr to a memfd.
static Child fork_case(const std::string& scenario, uint64_t seed, const std::map<std::string, int64_t>& over, const std::set<int>& skip) {
  Child c;
  int p[2];
  if (pipe(p) != 0) { perror("pipe"); std::exit(2); }
  int ef = memfd_create("err", 0);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); std::exit(2); }
  if (pid == 0) {
    close(p[0]);
    if (ef >= 0) { dup2(ef, 2); }
    int nul = open("/dev/null", O_WRONLY); if (nul >= 0) dup2(nul, 1);
    rlimit rl{120, 125}; setrlimit(RLIMIT_CPU, &rl);
    rlimit as{20ULL << 30, 20ULL << 30}; setrlimit(RLIMIT_AS, &as);
    rlimit co{0, 0}; setrlimit(RLIMIT_CORE, &co);
    Result x = run_case(scenario, seed, over, skip);
    std::string s = serialize(x);
    size_t off = 0;
    while (off < s.size()) { ssize_t n = write(p[1], s.data() + off, s.size() - off); if (n <= 0) break; off += n; }
    _exit(0);
  }
  close(p[1]);
  char buf[65536];
  while (true) { ssize_t n = read(p[0], buf, sizeof buf); if (n < 0 && errno == EINTR) continue; if (n <= 0) break; c.out.append(buf, n); }
  close(p[0]);
  waitpid(pid, &c.status, 0);
  if (ef >= 0) {
    off_t len = lseek(ef, 0, SEEK_END);
    off_t from = len > 3000 ? len - 3000 : 0;
    c.err.resize(len - from);
    if (pread(ef, &c.err[0], c.err.size(), from) < 0) c.err.clear();
    close(ef);
  }
  return c;
}

struct Agg {
  uint64_t cases = 0, discards = 0, evals = 0, sims = 0, switches = 0, choices = 0, msgs = 0, bytes = 0, virt = 0, chunks = 0, threads = 0, locks = 0;
  std::map<std::string, uint64_t> tags, faults;
  std::set<uint64_t> inter, states, hashes;
  struct V { std::string scenario; uint64_t seed; std::string kind, msg, hash, note; int n_ops; };
  std::vector<V> viol; uint64_t nviol = 0;
  std::vector<std::string> samples;
  uint64_t log_hash = 0;  // order independent digest of all event logs
};

static void absorb(Agg& a, const Child& c, const std::string& scenario, uint64_t seed) {
  ++a.cases;
  std::istringstream in(c.out);
  std::string line, kind, msg, note, hash, knobs;
  bool complete = false, viol = false;
  int n_ops = 0;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    std::string rest = line.size() > 2 ? line.substr(2) : "";
    std::istringstream ls(rest);
    switch (line[0]) {
      case 'S': viol = rest == "viol"; if (rest == "discard") ++a.discards; break;
      case 'V': kind = rest; break;
      case 'M': msg = rest; break;
      case 'N': note = rest; break;
      case 'H': hash = rest; { uint64_t v = std::strtoull(rest.c_str(), nullptr, 10); a.hashes.insert(v); a.log_hash += sim::mix64(v ^ sim::mix64(seed)); } break;
      case 'C': { uint64_t v[11] = {0}; for (auto& e : v) ls >> e; a.evals += v[0]; a.sims += v[1]; a.switches += v[2]; a.choices += v[3]; a.msgs += v[4]; a.bytes += v[5]; a.virt += v[6]; a.chunks += v[7]; a.threads += v[8]; a.locks += v[9]; n_ops = static_cast<int>(v[10]); break; }
      case 'T': { uint64_t n; ls >> n; std::string k; std::getline(ls, k); a.tags[k.substr(1)] += n; break; }
      case 'F': { uint64_t n; ls >> n; std::string k; std::getline(ls, k); a.faults[k.substr(1)] += n; break; }
      case 'I': a.inter.insert(std::strtoull(rest.c_str(), nullptr, 10)); break;
      case 'A': a.states.insert(std::strtoull(rest.c_str(), nullptr, 10)); break;
      case 'K': { int64_t v, s; std::string n; ls >> v >> s >> n; if (a.samples.size() < 3 && v != s) knobs += (knobs.empty() ? "" : " ") + n + "=" + std::to_string(v); break; }
      case 'E': complete = true; break;
    }
  }
  if (!complete) {
    viol = true;
    if (WIFSIGNALED(c.status)) { int s = WTERMSIG(c.status); kind = s == SIGXCPU ? "runaway" : std::string("crash:SIG") + sigabbrev_np(s); }
    else kind = "exit:" + std::to_string(WEXITSTATUS(c.status));
    msg = esc(c.err.substr(c.err.size() > 1200 ? c.err.size() - 1200 : 0));
    hash = "0";
  }
  if (a.samples.size() < 3) a.samples.push_back(scenario + " seed=" + std::to_string(seed) + " " + note + " {" + knobs + "}");
  if (viol) {
    ++a.nviol;
    if (a.viol.size() < 12) a.viol.push_back({scenario, seed, kind, msg, hash, note, n_ops});
  }
}

static std::string agg_text(const Agg& a) {
  std::ostringstream o;
  o << "C " << a.cases << " " << a.discards << " " << a.evals << " " << a.sims << " " << a.switches << " " << a.choices << " " << a.msgs << " " << a.bytes << " " << a.virt << " " << a.chunks << " " << a.threads << " " << a.locks << " " << a.nviol << " " << a.log_hash << "\n";
  for (auto& t : a.tags) o << "T " << t.second << " " << t.first << "\n";
  for (auto& t : a.faults) o << "F " << t.second << " " << t.first << "\n";
  for (auto v : a.inter) o << "I " << v << "\n";
  for (auto v : a.states) o << "A " << v << "\n";
  for (auto v : a.hashes) o << "H " << v << "\n";
  for (auto& s : a.samples) o << "P " << s << "\n";
  for (auto& v : a.viol) o << "V " << v.scenario << " " << v.seed << " " << v.hash << " " << v.n_ops << " " << v.kind << "\x1f" << v.msg << "\x1f" << v.note << "\n";
  o << "E\n";
  return o.str();
}

int main(int argc, char** argv) {
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIMRUN_REEXEC")) {
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) { setenv("SIMRUN_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
  }
  if (!getenv("SIM_LOG")) spdlog::set_level(spdlog::level::off);
  signal(SIGPIPE, SIG_IGN);
  std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "list") { for (auto& s : scenarios()) std::printf("%s\n", s.name.c_str()); return 0; }
  if (mode == "case" && argc >= 4) {
    std::map<std::string, int64_t> over; std::set<int> skip; bool fork_it = true;
    for (int i = 4; i < argc; ++i) {
      std::string a = argv[i]; auto e = a.find('=');
      if (a == "nofork") { fork_it = false; continue; }
      if (e == std::string::npos) continue;
      std::string k = a.substr(0, e), v = a.substr(e + 1);
      if (k == "skip") { std::istringstream s(v); std::string t; while (std::getline(s, t, ',')) if (!t.empty()) skip.insert(std::stoi(t)); }
      else over[k] = std::stoll(v);
    }
    uint64_t seed = std::strtoull(argv[3], nullptr, 10);
    if (!fork_it) { Result x = run_case(argv[2], seed, over, skip); std::cout << serialize(x); return 0; }
    Child c = fork_case(argv[2], seed, over, skip);
    std::cout << c.out;
    if (c.out.size() < 2 || c.out.substr(c.out.size() - 2) != "E\n") {
      std::string kind;
      if (WIFSIGNALED(c.status)) { int s = WTERMSIG(c.status); kind = s == SIGXCPU ? "runaway" : std::string("crash:SIG") + sigabbrev_np(s); }
      else kind = "exit:" + std::to_string(WEXITSTATUS(c.status));
      std::cout << "S viol\nV " << kind << "\nM " << esc(c.err.substr(c.err.size() > 1200 ? c.err.size() - 1200 : 0)) << "\nH 0\nE\n";
    } else if (getenv("SIM_STDERR")) std::cerr << c.err;
    return 0;
  }
  if (mode == "batch" && argc >= 7) {
    uint64_t seed = std::strtoull(argv[2], nullptr, 10);
    int jobs = std::atoi(argv[3]); double cap = std::atof(argv[4]);
    std::vector<std::pair<std::string, int>> plan;
    for (int i = 6; i < argc; ++i) { std::string a = argv[i]; auto e = a.find('='); plan.push_back({a.substr(0, e), std::stoi(a.substr(e + 1))}); if (!find_scenario(plan.back().first)) { std::fprintf(stderr, "unknown scenario %s\n", a.c_str()); return 2; } }
    // interleave the scenarios so that a time cap thins all of them alike
    std::vector<std::pair<std::string, uint64_t>> cases;
    int mx = 0; for (auto& p : plan) mx = std::max(mx, p.second);
    for (int i = 0; i < mx; ++i) for (auto& p : plan) {
      if (static_cast<int64_t>(i) * p.second / mx == static_cast<int64_t>(i + 1) * p.second / mx) continue;
      int k = static_cast<int>(static_cast<int64_t>(i) * p.second / mx);
      cases.push_back({p.first, sim::mix64(seed * 1000003 + k) ^ Run::hash_name(p.first)});
    }
    double t0 = real_now();
    auto* next = static_cast<std::atomic<uint64_t>*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    new (next) std::atomic<uint64_t>(0);
    std::vector<int> fds;
    for (int w = 0; w < jobs; ++w) {
      int p[2]; if (pipe(p) != 0) return 2;
      pid_t pid = fork();
      if (pid < 0) { perror("fork"); return 2; }
      if (pid == 0) {
        close(p[0]); for (int f : fds) close(f);
        Agg a;
        while (true) {
          uint64_t i = next->fetch_add(1);
          if (i >= cases.size()) break;
          if (real_now() - t0 > cap) { break; }
          if (a.viol.size() >= 12) break;
          Child c = fork_case(cases[i].first, cases[i].second, {}, {});
          absorb(a, c, cases[i].first, cases[i].second);
        }
        std::string s = agg_text(a);
        size_t off = 0; while (off < s.size()) { ssize_t n = write(p[1], s.data() + off, s.size() - off); if (n <= 0) break; off += n; }
        _exit(0);
      }
      close(p[1]); fds.push_back(p[0]);
    }
    std::ofstream out(argv[5]);
    int bad = 0;
    // drain all pipes concurrently
    std::vector<std::string> bufs(fds.size()); std::vector<pollfd> pf;
    for (int f : fds) pf.push_back({f, POLLIN, 0});
    size_t open_n = fds.size(); std::vector<char> buf(1 << 16);
    while (open_n) {
      if (poll(pf.data(), pf.size(), -1) < 0) continue;
      for (size_t i = 0; i < pf.size(); ++i) if (pf[i].fd >= 0 && pf[i].revents) {
        ssize_t n = read(pf[i].fd, buf.data(), buf.size());
        if (n <= 0) { close(pf[i].fd); pf[i].fd = -1; --open_n; } else bufs[i].append(buf.data(), n);
      }
    }
    for (auto& b : bufs) { if (b.size() < 2 || b.substr(b.size() - 2) != "E\n") ++bad; out << b; }
    while (wait(nullptr) > 0) {}
    out << "W " << (real_now() - t0) << " " << cases.size() << " " << bad << "\n";
    return bad ? 2 : 0;
  }
  std::fprintf(stderr, "usage: simrun list | batch SEED JOBS CAP OUT scen=n... | case SCEN SEED [k=v...]\n");
  return 2;
}
