// Monitoring harness for runs under mpirun: every process executes the same seeded cases (identical random numbers on
// all processes unless a process-local generator is used) and writes its own record file; a watchdog ends a case that
// makes no progress, so that a deadlock is noticed and attributed.
#ifndef MP_HH
#define MP_HH
#include <mpi.h>
#define VH_NO_MAIN
#include "vh.hh"
namespace mp {
using vh::str; using vh::Rng; using vh::esc;
struct Rec { int fd = -1; void line(const std::string& s) { std::string t = s + "\n"; if (fd >= 0) { ssize_t r = ::write(fd, t.data(), t.size()); (void)r; } else if (s.find("\"viol\"") != std::string::npos) { ssize_t r = ::write(2, t.data(), t.size()); (void)r; } } };
struct Case { Rng rng; int rank, size; std::string group; long index; Rec* out; std::set<std::uint64_t>* seen; long* events; int* samples; int* viols; bool thorough; std::string desc; bool failed = false;
  Rng local(std::uint64_t salt = 0) const { return Rng(vh::mix(rng.s ^ (rank * 7919 + 13) ^ salt)); }
  void note(const std::string& s) { desc = s; out->line("{\"t\":\"at\",\"group\":\"" + esc(group) + "\",\"case\":" + std::to_string(index) + ",\"desc\":\"" + esc(desc.substr(0, 600)) + "\"}"); }
  void add(const std::string& s) { note(desc + s); }
  void sig(const std::string& s) { if (rank) return; auto h = vh::hashStr(str(group, "|", size, "|", s)); if (seen->insert(h).second) { char b[64]; std::snprintf(b, 64, "{\"t\":\"s\",\"h\":\"%016llx\"}", (unsigned long long)h); out->line(b); if (*samples > 0) { --*samples; out->line("{\"t\":\"sample\",\"s\":\"" + esc(str(group, "#", index, " on ", size, " processes: ", s.substr(0, 200), " | ", desc.substr(0, 300))) + "\"}"); } } }
  void ev(long n = 1) { *events += n; }
  void fail(const std::string& key, const std::string& d) { failed = true; if (*viols <= 0) return; --*viols; out->line("{\"t\":\"viol\",\"group\":\"" + esc(group) + "\",\"case\":" + std::to_string(index) + ",\"key\":\"" + esc(group + "/" + key) + "\",\"detail\":\"" + esc(str("process ", rank, " of ", size, ": ", d.substr(0, 1400))) + "\",\"desc\":\"" + esc(desc.substr(0, 1200)) + "\"}"); }
  bool check(bool ok, const std::string& key, const std::string& d = "") { ++*events; if (!ok) fail(key, d); return ok; }
};
struct Group { std::string name; long quick, thorough; void (*body)(Case&); };
inline std::vector<Group>& groups() { static std::vector<Group> g; return g; }
struct Reg { Reg(const char* n, long q, long t, void (*b)(Case&)) { groups().push_back({n, q, t, b}); } };
#define MGROUP(name, quick, thorough) static void VH_CAT(mpbody_, __LINE__)(mp::Case&); static mp::Reg VH_CAT(mpreg_, __LINE__)(name, quick, thorough, VH_CAT(mpbody_, __LINE__)); static void VH_CAT(mpbody_, __LINE__)(mp::Case& c)
inline int main(int argc, char** argv) {
  MPI_Init(&argc, &argv); int rank, size; MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &size); std::uint64_t seed = 1; std::string outF, only; long onlyCase = -1; bool th = false;
  for (int i = 1; i < argc; ++i) { std::string a = argv[i]; auto next = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); }; if (a == "--seed") seed = std::stoull(next()); else if (a == "--out") outF = next(); else if (a == "--only") only = next(); else if (a == "--case") onlyCase = std::stol(next()); else if (a == "--thorough") th = true; }
  Rec out; if (!outF.empty()) out.fd = ::open((outF + "." + std::to_string(rank)).c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); std::set<std::uint64_t> seen; int samples = 3, viols = 12;
  for (auto& g : groups()) { if (!only.empty() && only != g.name) continue; long n = th ? g.thorough : g.quick, cases = 0, events = 0; int s = samples > 0 ? 2 : 0;
    for (long i = 0; i < n; ++i) { if (onlyCase >= 0 && i != onlyCase) continue; Case c{Rng(vh::mix(seed * 1000003ull ^ vh::hashStr(g.name)) ^ vh::mix(i + 77) ^ vh::mix(size * 31)), rank, size, g.name, i, &out, &seen, &events, &s, &viols, th, "", false};
      c.note(""); alarm(120); bool bad = false; try { g.body(c); } catch (const std::exception& e) { c.fail("unexpected-exception", e.what()); bad = true; } catch (...) { c.fail("unexpected-exception", "unknown type"); bad = true; }
      if (bad && size > 1) MPI_Abort(MPI_COMM_WORLD, 3); // the others may be waiting for this process
      ++cases; MPI_Barrier(MPI_COMM_WORLD); alarm(0); }
    if (!rank) out.line("{\"t\":\"n\",\"group\":\"" + esc(g.name) + "\",\"cases\":" + std::to_string(cases) + ",\"events\":" + std::to_string(events) + "}"); }
  out.line("{\"t\":\"done\",\"group\":\"all\"}"); MPI_Finalize(); return 0; }
}
int main(int argc, char** argv) { return mp::main(argc, argv); }
#endif
