// Monitoring harness framework: seeded cases in forked workers, crash/hang attribution,
// violation records and measured coverage, written as JSON lines.
#ifndef VH_HH
#define VH_HH
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <type_traits>
#include <complex>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>

namespace vh {

inline std::uint64_t mix(std::uint64_t x) {
  x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}
inline std::uint64_t hashStr(const std::string& s) {
  std::uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return mix(h);
}

struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed = 1) : s(seed) {}
  std::uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
  // inclusive range
  long range(long a, long b) { return a + long(next() % std::uint64_t(b - a + 1)); }
  double real() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double a, double b) { return a + (b - a) * real(); }
  bool coin(double p = 0.5) { return real() < p; }
  template<class V> auto& pick(V& v) { return v[next() % v.size()]; }
  template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + next() % l.size()); }
  template<class V> void shuffle(V& v) { for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[next() % i]); }
};

inline std::string esc(const std::string& s) {
  std::string o; char buf[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { std::snprintf(buf, 8, "\\u%04x", c); o += buf; }
    else o += char(c);
  }
  return o;
}

struct Shared { volatile long index; volatile long beat; char desc[2048]; };

struct Out { int fd = -1; std::string buf;
  void line(const std::string& s) { buf += s; buf += '\n'; if (buf.size() > 1 << 14) flush(); }
  void flush() { if (fd >= 0 && !buf.empty()) { ssize_t r = ::write(fd, buf.data(), buf.size()); (void)r; } buf.clear(); } };

struct Case {
  Rng rng; std::string group; long index; Out* out; Shared* sh;
  std::unordered_set<std::uint64_t>* seen; long* events; int* samplesLeft; int* violLeft;
  bool thorough = false;
  bool failed = false;
  std::string desc;
  // describe the current case (shown on a crash and in samples)
  void note(const std::string& s) { desc = s; std::snprintf(sh->desc, sizeof sh->desc, "%s", s.c_str()); }
  void add(const std::string& s) { note(desc + s); }
  // record that a distinct, non-trivial situation was observed
  void sig(const std::string& s) { auto h = hashStr(group + "|" + s); if (seen->insert(h).second) {
      char b[64]; std::snprintf(b, 64, "{\"t\":\"s\",\"h\":\"%016llx\"}", (unsigned long long)h); out->line(b);
      if (*samplesLeft > 0) { --*samplesLeft; out->line("{\"t\":\"sample\",\"s\":\"" + esc(group + "#" + std::to_string(index) + ": " + s + (desc.empty() ? "" : " | " + desc.substr(0, 300))) + "\"}"); } } }
  void ev(long n = 1) { *events += n; }
  void fail(const std::string& key, const std::string& detail) {
    failed = true;
    if (*violLeft <= 0) return;
    --*violLeft;
    out->line("{\"t\":\"viol\",\"group\":\"" + esc(group) + "\",\"case\":" + std::to_string(index) + ",\"key\":\"" + esc(group + "/" + key) + "\",\"detail\":\"" + esc(detail.substr(0, 1500)) + "\",\"desc\":\"" + esc(desc.substr(0, 1500)) + "\"}");
    out->flush();
  }
  bool check(bool ok, const std::string& key, const std::string& detail = "") { ++*events; if (!ok) fail(key, detail); return ok; }
};

struct Group { std::string name; long quick, thorough; std::function<void(Case&)> body; };
inline std::vector<Group>& groups() { static std::vector<Group> g; return g; }
struct Reg { Reg(const char* n, long q, long t, std::function<void(Case&)> b) { groups().push_back({n, q, t, b}); } };

#define VH_CAT2(a,b) a##b
#define VH_CAT(a,b) VH_CAT2(a,b)
#define VGROUP(name, quick, thorough) \
  static void VH_CAT(vhbody_, __LINE__)(vh::Case&); \
  static vh::Reg VH_CAT(vhreg_, __LINE__)(name, quick, thorough, VH_CAT(vhbody_, __LINE__)); \
  static void VH_CAT(vhbody_, __LINE__)(vh::Case& c)

template<class... A> std::string str(const A&... a) { std::ostringstream o; o.precision(17); (void)std::initializer_list<int>{((o << a), 0)...}; return o.str(); }

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

struct Opt { std::uint64_t seed = 1; bool thorough = false; int jobs = 4; std::string out; std::string only; long onlyCase = -1; double scale = 1; double hang = 60; };

// Run the cases [from, n) of one group in this (child) process.
inline void runCases(const Group& g, const Opt& o, long from, long n, Out& out, Shared* sh) {
  std::unordered_set<std::uint64_t> seen; long events = 0; int samples = 2, viol = 20; long done = 0;
  for (long i = from; i < n; ++i) {
    sh->index = i; sh->beat++; sh->desc[0] = 0;
    Case c{Rng(mix(o.seed * 1000003ull ^ hashStr(g.name)) ^ mix(i + 77)), g.name, i, &out, sh, &seen, &events, &samples, &viol};
    c.thorough = o.thorough;
    try { g.body(c); }
    catch (const std::exception& e) { c.fail("unexpected-exception", e.what()); }
    catch (...) { c.fail("unexpected-exception", "unknown type"); }
    ++done;
    if (out.buf.size() > 4096) out.flush();
    if (done % 64 == 0) { out.line("{\"t\":\"n\",\"group\":\"" + esc(g.name) + "\",\"cases\":64,\"events\":" + std::to_string(events) + "}"); events = 0; }
  }
  out.line("{\"t\":\"n\",\"group\":\"" + esc(g.name) + "\",\"cases\":" + std::to_string(done % 64) + ",\"events\":" + std::to_string(events) + "}");
  out.line("{\"t\":\"done\",\"group\":\"" + esc(g.name) + "\"}");
  out.flush();
}

inline std::string tail(const std::string& path, std::size_t n) {
  FILE* f = std::fopen(path.c_str(), "rb"); if (!f) return "";
  std::fseek(f, 0, SEEK_END); long sz = std::ftell(f); long st = 0;
  std::fseek(f, st, SEEK_SET); std::string s(std::min<long>(sz, 4000000), 0); std::size_t r = std::fread(&s[0], 1, s.size(), f); s.resize(r); std::fclose(f);
  // prefer the sanitizer report
  auto p = s.find("runtime error:"); auto q = s.find("ERROR: AddressSanitizer"); auto w = s.find("Assertion"); 
  std::size_t b = std::min(p, std::min(q, w));
  if (b == std::string::npos) return s.size() > n ? s.substr(s.size() - n) : s;
  b = b > 200 ? b - 200 : 0;
  return s.substr(b, n);
}
inline std::string crashKind(const std::string& rep) {
  auto p = rep.find("AddressSanitizer: ");
  if (p != std::string::npos) { auto e = rep.find_first_of(" \n", p + 18); return "asan-" + rep.substr(p + 18, e - p - 18); }
  if (rep.find("ThreadSanitizer") != std::string::npos) return "tsan";
  if (rep.find("runtime error:") != std::string::npos) return "ubsan";
  if (rep.find("Assertion") != std::string::npos) return "assert";
  return "abort";
}

struct Worker { pid_t pid; int g; Shared* sh; std::string err; long lastBeat; double lastTime; int crashes; int hangs; long hangIdx; };

inline int main(int argc, char** argv) {
  Opt o; o.jobs = 4;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto val = [&] { return std::string(argv[++i]); };
    if (a == "--seed") o.seed = std::stoull(val()); else if (a == "--thorough") o.thorough = true;
    else if (a == "--jobs") o.jobs = std::stoi(val()); else if (a == "--out") o.out = val();
    else if (a == "--only") o.only = val(); else if (a == "--case") o.onlyCase = std::stol(val());
    else if (a == "--scale") o.scale = std::stod(val()); else if (a == "--hang") o.hang = std::stod(val());
    else if (a == "--list") { for (auto& g : groups()) std::printf("%s %ld %ld\n", g.name.c_str(), g.quick, g.thorough); return 0; }
  }
  int fd = o.out.empty() ? dup(1) : open(o.out.c_str(), O_CREAT | O_WRONLY | O_APPEND | O_TRUNC, 0644);
  if (fd < 0) { std::perror("out"); return 3; }
  auto count = [&](const Group& g) { long n = o.thorough ? g.thorough : g.quick; if (n > 0) n = std::max(1l, long(n * o.scale)); return n; };
  if (o.onlyCase >= 0) { // replay in this process
    Shared sh{}; Out out; out.fd = fd;
    for (auto& g : groups()) if (g.name == o.only) runCases(g, o, o.onlyCase, o.onlyCase + 1, out, &sh);
    return 0;
  }
  Out pout; pout.fd = fd;
  std::vector<int> queue; for (std::size_t i = 0; i < groups().size(); ++i) if (o.only.empty() || groups()[i].name == o.only) queue.push_back(i);
  std::vector<Worker> run; std::size_t qi = 0;
  auto start = [&](int g, long from, Worker* prev) {
    Worker w; if (prev) w = *prev; else { w.crashes = w.hangs = 0; w.hangIdx = -1; w.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
    w.g = g; w.sh->index = from; w.sh->beat = 0; w.lastBeat = -1; w.lastTime = now();
    w.err = (o.out.empty() ? std::string("/tmp/vh.") + std::to_string(getpid()) : o.out) + ".err." + std::to_string(g);
    std::fflush(nullptr);
    w.pid = fork();
    if (w.pid == 0) {
      int e = open(w.err.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644); dup2(e, 2); dup2(e, 1);
      Out out; out.fd = fd; runCases(groups()[g], o, from, count(groups()[g]), out, w.sh); std::fflush(nullptr); _exit(0);
    }
    return w;
  };
  int rc = 0;
  while (qi < queue.size() || !run.empty()) {
    while (qi < queue.size() && (int)run.size() < o.jobs) run.push_back(start(queue[qi++], 0, nullptr));
    usleep(5000);
    for (std::size_t k = 0; k < run.size();) {
      Worker& w = run[k]; int st; pid_t r = waitpid(w.pid, &st, WNOHANG);
      bool finished = false; long resume = -1; const Group& g = groups()[w.g];
      if (r == w.pid) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) finished = true;
        else {
          std::string rep = tail(w.err, 3000);
          long idx = w.sh->index; ++w.crashes;
          pout.line("{\"t\":\"viol\",\"group\":\"" + esc(g.name) + "\",\"case\":" + std::to_string(idx) + ",\"key\":\"" + esc(g.name + "/crash-" + crashKind(rep)) + "\",\"detail\":\"" + esc(str("status ", st, "\n", rep)) + "\",\"desc\":\"" + esc(std::string(w.sh->desc)) + "\"}");
          pout.flush();
          if (w.crashes < 6) resume = idx + 1; else finished = true;
        }
      } else {
        long b = w.sh->beat * 1000003l + w.sh->index;
        if (b != w.lastBeat) { w.lastBeat = b; w.lastTime = now(); }
        else if (now() - w.lastTime > o.hang * (w.hangIdx == w.sh->index ? 2.0 : 1.0)) {
          kill(w.pid, SIGKILL); waitpid(w.pid, &st, 0); long idx = w.sh->index;
          if (w.hangIdx != idx) { w.hangIdx = idx; resume = idx; // inconclusive: run this case again
            pout.line("{\"t\":\"inconclusive\",\"group\":\"" + esc(g.name) + "\",\"case\":" + std::to_string(idx) + "}"); pout.flush();
          } else {
            ++w.hangs;
            pout.line("{\"t\":\"viol\",\"group\":\"" + esc(g.name) + "\",\"case\":" + std::to_string(idx) + ",\"key\":\"" + esc(g.name + "/hang") + "\",\"detail\":\"no progress within the watchdog twice\",\"desc\":\"" + esc(std::string(w.sh->desc)) + "\"}"); pout.flush();
            finished = true;
          }
        }
      }
      if (resume >= 0) { if (resume < count(g)) { run[k] = start(w.g, resume, &w); ++k; continue; } finished = true; pout.line("{\"t\":\"done\",\"group\":\"" + esc(g.name) + "\"}"); pout.flush(); }
      if (finished) { unlink(w.err.c_str()); munmap(w.sh, sizeof(Shared)); run.erase(run.begin() + k); }
      else ++k;
    }
  }
  pout.flush();
  return rc;
}
} // namespace vh

#ifndef VH_NO_MAIN
int main(int argc, char** argv) { return vh::main(argc, argv); }
#endif
#endif
