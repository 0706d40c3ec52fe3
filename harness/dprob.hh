// Distributed matrix problems: a global matrix known to every process, distributed over the processes in many ways.
#ifndef DPROB_HH
#define DPROB_HH
#include <dune/istl/owneroverlapcopy.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include "mp.hh"
#include "ref.hh"
namespace dp {
using namespace ref; using vh::str;
using Attr = Dune::OwnerOverlapCopyAttributeSet; enum { Owner = Attr::owner, Overlap = Attr::overlap, Copy = Attr::copy };
struct Loc { size_t g; int attr; bool listed, pub; };
struct Layout { int P; Dune::SolverCategory::Category cat; std::vector<long> id; std::vector<int> owner; std::vector<std::vector<Loc>> loc; std::string kind;
  size_t n(int p) const { return loc[p].size(); }
  long pos(int p, size_t g) const { for (size_t i = 0; i < loc[p].size(); ++i) if (loc[p][i].g == g) return i; return -1; }
  std::string show() const { std::ostringstream o; o << kind; for (int p = 0; p < P; ++p) { o << " P" << p << ":"; for (auto& l : loc[p]) o << " " << l.g << (l.attr == Owner ? "o" : l.attr == Overlap ? "v" : "c") << (l.listed ? l.pub ? "" : "-" : "."); } return o.str(); } };
inline void numbering(vh::Rng& g, Layout& d, size_t N, bool holes) {
  d.id.resize(N); long next = g.pick({0, 0, 5}); bool gaps = g.coin(0.3); for (auto& i : d.id) { i = next; next += gaps ? g.range(1, 4) : 1; } if (g.coin(0.4)) g.shuffle(d.id);
  std::vector<int> cnt(N, 0); for (auto& v : d.loc) for (auto& l : v) ++cnt[l.g]; int order = g.range(0, 2); bool pubAll = g.coin();
  for (auto& v : d.loc) { if (order == 0) g.shuffle(v); else if (order == 1) std::sort(v.begin(), v.end(), [&](auto& a, auto& b) { return d.id[a.g] < d.id[b.g]; }); for (auto& l : v) { bool shared = cnt[l.g] > 1; l.pub = shared || pubAll; l.listed = shared || !holes || g.coin(0.2); } }
  d.kind += str(order == 0 ? " shuffled" : order == 1 ? " sorted" : "", holes ? " holes" : "");
}
inline std::vector<int> owners(vh::Rng& g, size_t N, int P, bool full, std::string& kind) {
  std::vector<int> o(N); int k = g.range(0, 3); std::vector<int> procs; for (int p = 0; p < P; ++p) if (full || P == 1 || g.coin(0.85)) procs.push_back(p); if (procs.empty()) procs.push_back(g.range(0, P - 1)); size_t Q = procs.size();
  if (k == 0) { for (size_t i = 0; i < N; ++i) o[i] = procs[i * Q / N]; kind = "strips"; } else if (k == 1) { for (size_t i = 0; i < N; ++i) o[i] = procs[g.range(0, Q - 1)]; kind = "random"; } else if (k == 2) { for (size_t i = 0; i < N; ++i) o[i] = procs[i % Q]; kind = "cyclic"; } else { size_t cut = g.range(0, N); for (size_t i = 0; i < N; ++i) o[i] = procs[i < cut ? 0 : (i - cut) % Q]; kind = "skewed"; }
  if (full && N >= Q) for (size_t q = 0; q < Q; ++q) if (std::count(o.begin(), o.end(), procs[q]) == 0) { for (size_t i = 0; i < N; ++i) if (std::count(o.begin(), o.end(), o[i]) > 1) { o[i] = procs[q]; break; } }
  return o;
}
// L layers of overlap; all complete (attribute overlap, except the last layer) or Dirichlet rows (attribute copy)
inline Layout overlapping(vh::Rng& g, const Pattern& pat, int P, bool full, bool holes, bool ovAttr) {
  Layout d; d.P = P; d.cat = Dune::SolverCategory::overlapping; size_t N = pat.size(); d.owner = owners(g, N, P, full, d.kind); d.loc.resize(P); int L = ovAttr ? g.range(1, 3) : g.coin(0.8) ? 1 : 2; d.kind += str(" layers=", L, ovAttr ? " overlap" : " copy");
  for (int p = 0; p < P; ++p) { std::vector<int> dist(N, -1); std::vector<size_t> front; for (size_t i = 0; i < N; ++i) if (d.owner[i] == p) { dist[i] = 0; front.push_back(i); } for (int l = 1; l <= L; ++l) { std::vector<size_t> nf; for (auto i : front) for (auto j : pat[i]) if (dist[j] < 0) { dist[j] = l; nf.push_back(j); } front = nf; }
    for (size_t i = 0; i < N; ++i) if (dist[i] >= 0) d.loc[p].push_back({i, dist[i] == 0 ? Owner : ovAttr && dist[i] < L ? Overlap : Copy, true, true}); }
  numbering(g, d, N, holes); return d;
}
template<class B> B unit() { if constexpr (Dune::IsNumber<B>::value) return B(1); else { B b(0.0); for (size_t i = 0; i < b.N(); ++i) b[i][i] = 1; return b; } }
// rows of owner and overlap entries are those of the global matrix, copy rows are Dirichlet rows
template<class B> Sp<B> local(const Sp<B>& A, const Layout& d, int p, bool sympat) {
  Sp<B> s; size_t n = d.n(p); s.N = s.M = n; s.p.assign(n, {}); std::map<size_t, size_t> at; for (size_t i = 0; i < n; ++i) at[d.loc[p][i].g] = i;
  for (size_t i = 0; i < n; ++i) { auto& l = d.loc[p][i]; if (l.attr != Copy) { for (auto j : A.p[l.g]) { auto it = at.find(j); if (it == at.end()) continue; s.p[i].insert(it->second); s.v[{i, it->second}] = A.v.at({l.g, j}); } } else { s.p[i].insert(i); s.v[{i, i}] = unit<B>(); if (sympat) for (auto j : A.p[l.g]) { auto it = at.find(j); if (it == at.end() || it->second == i) continue; s.p[i].insert(it->second); s.v[{i, it->second}] = B(0.0); } } }
  return s;
}
// element based nonoverlapping decomposition; entries are owned by the lowest process, ghosts have the attribute overlap
struct Elements { size_t N; std::vector<std::vector<size_t>> e; Pattern p; };
inline Elements elements(vh::Rng& g, size_t maxN) { Elements E; int k = g.range(0, 2); E.N = g.range(2, maxN); if (k == 0) { for (size_t i = 0; i + 1 < E.N; ++i) E.e.push_back({i, i + 1}); } else if (k == 1) { size_t w = g.range(2, 7), h = std::max<size_t>(2, std::min<size_t>(7, E.N / w)); E.N = w * h; for (size_t y = 0; y + 1 < h; ++y) for (size_t x = 0; x + 1 < w; ++x) E.e.push_back({y * w + x, y * w + x + 1, (y + 1) * w + x, (y + 1) * w + x + 1}); }
  else { for (size_t i = 0; i < E.N; ++i) { std::set<size_t> s{i}; size_t m = g.range(0, 2); for (size_t q = 0; q < m; ++q) s.insert(g.range(0, E.N - 1)); E.e.push_back({s.begin(), s.end()}); } }
  E.p.assign(E.N, {}); for (auto& el : E.e) for (auto i : el) for (auto j : el) E.p[i].insert(j); return E; }
inline Layout nonoverlapping(vh::Rng& g, const Elements& E, int P, bool full, bool ghosts, bool holes) {
  Layout d; d.P = P; d.cat = Dune::SolverCategory::nonoverlapping; auto eo = owners(g, E.e.size(), P, full, d.kind); d.loc.resize(P); d.owner.assign(E.N, -1); d.kind += ghosts ? " nonoverlapping ghosts" : " nonoverlapping";
  std::vector<std::set<size_t>> know(P); for (size_t e = 0; e < E.e.size(); ++e) know[eo[e]].insert(E.e[e].begin(), E.e[e].end()); for (int p = P - 1; p >= 0; --p) for (auto i : know[p]) d.owner[i] = p;
  for (int p = 0; p < P; ++p) { std::set<size_t> gh; if (ghosts) for (size_t e = 0; e < E.e.size(); ++e) { bool t = false; for (auto i : E.e[e]) t |= know[p].count(i); if (t) for (auto i : E.e[e]) if (!know[p].count(i)) gh.insert(i); } for (auto i : know[p]) d.loc[p].push_back({i, d.owner[i] == p ? Owner : Copy, true, true}); for (auto i : gh) d.loc[p].push_back({i, Overlap, true, true}); }
  numbering(g, d, E.N, holes); return d;
}
template<class B> Sp<B> localNov(const Sp<B>& A, const Layout& d, int p, double ghostValue) {
  Sp<B> s; size_t n = d.n(p); s.N = s.M = n; s.p.assign(n, {}); std::map<size_t, size_t> at; for (size_t i = 0; i < n; ++i) at[d.loc[p][i].g] = i;
  for (size_t i = 0; i < n; ++i) for (auto j : A.p[d.loc[p][i].g]) { auto it = at.find(j); if (it == at.end()) continue; size_t J = it->second; bool gh = d.loc[p][i].attr == Overlap || d.loc[p][J].attr == Overlap; s.p[i].insert(J); s.v[{i, J}] = gh ? (i == J ? unit<B>() : B(ghostValue)) : A.v.at({d.loc[p][i].g, j}); }
  return s;
}
template<class G> G gid(long i) { if constexpr (std::is_integral_v<G>) return G(i); else return G(std::uintmax_t(i)); }
template<class C> void fill(C& c, const Layout& d, int p) { auto& is = c.indexSet(); using IS = std::decay_t<decltype(is)>; is.beginResize(); for (size_t i = 0; i < d.loc[p].size(); ++i) { auto& l = d.loc[p][i]; if (l.listed) is.add(gid<typename IS::GlobalIndex>(d.id[l.g]), typename IS::LocalIndex(i, Attr::AttributeSet(l.attr), l.pub)); } is.endResize(); c.remoteIndices().template rebuild<false>(); }
}
#endif
