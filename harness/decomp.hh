// Random decompositions of global indices among processes, known completely on every process.
#ifndef DECOMP_HH
#define DECOMP_HH
#include <dune/common/parallel/mpicommunication.hh>
#include <dune/istl/owneroverlapcopy.hh>
#include "mp.hh"
#include "ref.hh"
namespace dec {
using Attr = Dune::OwnerOverlapCopyAttributeSet;
enum { Owner = Attr::owner, Overlap = Attr::overlap, Copy = Attr::copy };
struct Entry { long g; int attr; size_t loc; bool pub; };
struct Dec { int P; std::vector<std::vector<Entry>> e; std::vector<size_t> n; std::map<long, std::vector<std::pair<int, size_t>>> who; // global -> (process, position in e[process])
  const Entry* find(int p, long g) const { for (auto& x : e[p]) if (x.g == g) return &x; return nullptr; }
  void index() { who.clear(); for (int p = 0; p < P; ++p) for (size_t k = 0; k < e[p].size(); ++k) who[e[p][k].g].push_back({p, k}); }
  std::string show() const { std::ostringstream o; for (int p = 0; p < P; ++p) { o << "P" << p << "[" << n[p] << "]:"; for (auto& x : e[p]) o << " " << x.g << (x.attr == Owner ? "o" : x.attr == Overlap ? "v" : "c") << x.loc << (x.pub ? "" : "-"); o << "; "; } return o.str(); } };
// any layout at all: arbitrary sharing, attributes, private and unlisted entries
inline Dec random(vh::Rng& g, int P, bool ownerless = true, bool priv = true) {
  Dec d; d.P = P; d.e.resize(P); d.n.resize(P); size_t G = g.range(0, 14); double share = g.pick({0.0, 0.2, 0.5, 1.0}), cp = g.pick({0.0, 0.5, 1.0}); long id = g.range(-3, 3); std::set<int> idle; if (P > 1 && g.coin(0.2)) idle.insert(g.range(0, P - 1));
  for (size_t k = 0; k < G; ++k) { id += g.coin() ? 1 : g.range(1, 9); int own; do own = g.range(0, P - 1); while (idle.count(own)); bool pub = !priv || g.coin(0.9), none = ownerless && g.coin(0.08); if (!none) d.e[own].push_back({id, Owner, 0, pub}); for (int p = 0; p < P; ++p) if (p != own && !idle.count(p) && g.coin(share)) d.e[p].push_back({id, g.coin(cp) ? Copy : Overlap, 0, pub}); }
  for (int p = 0; p < P; ++p) { size_t extra = g.coin(0.3) ? g.range(0, 3) : 0; d.n[p] = d.e[p].size() + extra; std::vector<size_t> l(d.n[p]); for (size_t i = 0; i < l.size(); ++i) l[i] = i; if (g.coin(0.7)) g.shuffle(l); for (size_t i = 0; i < d.e[p].size(); ++i) d.e[p][i].loc = l[i]; }
  d.index(); return d;
}
template<class Comm> void fillIndexSet(Comm& c, const Dec& d, int rank) { auto& pis = c.indexSet(); using LI = typename std::decay_t<decltype(pis)>::LocalIndex; pis.beginResize(); for (auto& x : d.e[rank]) pis.add(typename std::decay_t<decltype(pis)>::GlobalIndex(x.g), LI(x.loc, Attr::AttributeSet(x.attr), x.pub)); pis.endResize(); }
inline std::set<int> neighbours(const Dec& d, int rank) { std::set<int> s; for (auto& w : d.who) { bool me = false; for (auto& q : w.second) me |= q.first == rank; if (me) for (auto& q : w.second) if (q.first != rank) s.insert(q.first); } return s; }
}
#endif
