// C15: communication of distributed vectors.  Every process knows the whole decomposition and the vectors of all
// processes, simulates each exchange, and compares its own vector entry by entry after every operation.
#include "config.h"
#include <complex>
#include <dune/istl/bvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/owneroverlapcopy.hh>
#include <dune/istl/scalarproducts.hh>
#include <dune/istl/schwarz.hh>
#include <dune/istl/matrixmarket.hh>
#include "mp.hh"
#include "ref.hh"
#include "decomp.hh"
using namespace ref; using namespace dec; using vh::str; using namespace Dune;
template<class B> struct Bl { using K = B; static constexpr size_t n = 1; }; template<class K_, int m> struct Bl<FieldVector<K_, m>> { using K = K_; static constexpr size_t n = m; };
static const char* how(int k) { static const char* n[] = {"rebuild", "neighbours", "index-info", "file", "own-communicator"}; return n[k]; }
template<class G> using CommT = OwnerOverlapCopyCommunication<G, int>;
template<class G> static std::unique_ptr<CommT<G>> make(mp::Case& c, const Dec& d, int way, SolverCategory::Category cat) {
  std::unique_ptr<CommT<G>> C;
  if (way == 2) { IndexInfoFromGrid<G, int> info; for (auto& x : d.e[c.rank]) { info.addLocalIndex({G(x.g), int(x.loc), x.attr}); for (auto& w : d.who.at(x.g)) if (w.first != c.rank) info.addRemoteIndex({w.first, G(x.g), d.e[w.first][w.second].attr}); } return std::make_unique<CommT<G>>(info, MPI_COMM_WORLD, cat); }
  if (way == 4) { MPI_Comm dup; MPI_Comm_dup(MPI_COMM_WORLD, &dup); C = std::make_unique<CommT<G>>(dup, cat, true); } else C = c.rng.coin() ? std::make_unique<CommT<G>>(MPI_COMM_WORLD, cat) : std::make_unique<CommT<G>>(cat);
  fillIndexSet(*C, d, c.rank); bool hints = way == 1 || (way == 3 && c.rng.coin()); for (int p = 0; p < d.P; ++p) hints &= !neighbours(d, p).empty(); // hints must be given by all processes or by none
  if (hints) C->remoteIndices().setNeighbours(neighbours(d, c.rank)); C->remoteIndices().template rebuild<false>();
  if (way == 3) { if constexpr (!std::is_integral_v<G>) return C; else {
    static std::string dir; if (dir.empty()) { const char* t = getenv("TMPDIR"); dir = str(t ? t : "/tmp", "/c15"); mkdir(dir.c_str(), 0700); } std::string base = str(dir, "/v", c.index, c.rng.pick({"", ".mm", ".mtx"})); BlockVector<double> v(d.n[c.rank]), z; for (size_t i = 0; i < v.size(); ++i) v[i] = i + 0.25 * c.rank; storeMatrixMarket(v, base, *C, true, 17); auto D = std::make_unique<CommT<G>>(MPI_COMM_WORLD, cat); std::string from = base; if (c.rng.coin()) { auto q = base.rfind('.'); if (q != std::string::npos && q > base.rfind('/')) from = base.substr(0, q); } loadMatrixMarket(z, from, *D, true); c.check(D->remoteIndices().getNeighbours() == C->remoteIndices().getNeighbours(), "index-file-neighbours", str(C->remoteIndices().getNeighbours().size(), " stored, ", D->remoteIndices().getNeighbours().size(), " read")); c.check(flatten<double>(z) == flatten<double>(v), "vector-file", show(flatten<double>(z))); c.check(D->indexSet().size() == C->indexSet().size() && D->indexSet() == C->indexSet(), "index-file", "index sets differ"); auto a = C->indexSet().begin(); for (auto& p : D->indexSet()) { if (a == C->indexSet().end()) break; c.check(p.global() == a->global() && p.local().local() == a->local().local() && p.local().attribute() == a->local().attribute() && p.local().isPublic() == a->local().isPublic(), "index-file-entry", str(p.global())); ++a; }
    MPI_Barrier(MPI_COMM_WORLD); auto dot = base.rfind('.'); std::string st = base, ext = ".mm"; if (dot != std::string::npos && dot > base.rfind('/')) { st = base.substr(0, dot); ext = base.substr(dot); } unlink(str(st, "_", c.rank, ext).c_str()); unlink(str(st, "_", c.rank, ".idx").c_str()); return D; } }
  return C;
}
template<class B, class G> static void history(mp::Case& c, const char* nm) {
  auto& g = c.rng; using K = typename Bl<B>::K; constexpr size_t bs = Bl<B>::n; using V = BlockVector<B>; int P = c.size, way = g.range(0, 4); if (way == 3 && !std::is_integral_v<G>) way = 0; Dec d = dec::random(g, P, true, way != 2); c.note(str(nm, " ", how(way), " ", d.show())); auto cat = g.pick({SolverCategory::overlapping, SolverCategory::nonoverlapping}); auto C = make<G>(c, d, way, cat); c.check(C->category() == cat, "category"); c.check(C->communicator().size() == P && C->communicator().rank() == c.rank, "communicator");
  std::vector<std::vector<std::vector<K>>> m(3); for (auto& v : m) { v.resize(P); for (int p = 0; p < P; ++p) v[p] = randVec<K>(g, d.n[p] * bs); } std::vector<V> v(3); for (int k = 0; k < 3; ++k) { v[k].resize(d.n[c.rank]); ref::assign(v[k], m[k][c.rank]); }
  std::string ops; size_t n = g.range(3, 9);
  auto exchange = [&](int s, int t, std::set<int> from, std::set<int> to, bool add) { auto src = m[s]; for (int p = 0; p < P; ++p) for (auto& x : d.e[p]) if (x.pub && to.count(x.attr)) for (auto& w : d.who.at(x.g)) { auto& y = d.e[w.first][w.second]; if (w.first == p || !from.count(y.attr)) continue; for (size_t k = 0; k < bs; ++k) { K val = src[w.first][y.loc * bs + k]; K& z = m[t][p][x.loc * bs + k]; if (add) z += val; else z = val; } } };
  for (size_t o = 0; o < n; ++o) { int s = g.range(0, 2), t = g.coin() ? s : g.range(0, 2), op = g.range(0, 8); std::string w;
    if (op == 1) for (auto& q : d.who) { bool first = true; std::vector<K> val(bs); for (auto& e : q.second) { auto& x = d.e[e.first][e.second]; if (x.attr != Copy) continue; for (size_t k = 0; k < bs; ++k) { K& z = m[s][e.first][x.loc * bs + k]; if (first) val[k] = z; else z = val[k]; } first = false; } } // several copies: make the sources agree
    if (op == 1) ref::assign(v[s], m[s][c.rank]);
    switch (op) {
    case 0: w = "copyOwnerToAll"; C->copyOwnerToAll(v[s], v[t]); exchange(s, t, {Owner}, {Owner, Overlap, Copy}, false); break;
    case 1: w = "copyCopyToAll"; C->copyCopyToAll(v[s], v[t]); exchange(s, t, {Copy}, {Owner, Overlap, Copy}, false); break;
    case 2: w = "addOwnerOverlapToAll"; C->addOwnerOverlapToAll(v[s], v[t]); exchange(s, t, {Owner, Overlap}, {Owner, Overlap, Copy}, true); break;
    case 3: w = "addOwnerCopyToAll"; C->addOwnerCopyToAll(v[s], v[t]); exchange(s, t, {Owner, Copy}, {Owner, Overlap, Copy}, true); break;
    case 4: w = "addOwnerCopyToOwnerCopy"; C->addOwnerCopyToOwnerCopy(v[s], v[t]); exchange(s, t, {Owner, Copy}, {Owner, Copy}, true); break;
    case 5: w = "project"; C->project(v[t]); for (int p = 0; p < P; ++p) for (auto& x : d.e[p]) if (x.attr == Copy) for (size_t k = 0; k < bs; ++k) m[t][p][x.loc * bs + k] = K(0); break;
    case 6: case 7: { w = op == 6 ? "dot" : "norm"; K dot = 0; double n2 = 0; for (int p = 0; p < P; ++p) { std::vector<bool> own(d.n[p], true); for (auto& x : d.e[p]) if (x.attr != Owner) own[x.loc] = false; for (size_t i = 0; i < d.n[p]; ++i) if (own[i]) for (size_t k = 0; k < bs; ++k) { K a = m[s][p][i * bs + k], b = m[t][p][i * bs + k]; dot += conj_(a) * b; n2 += dabs2(a); } }
      int sp = g.range(0, 3); std::shared_ptr<ScalarProduct<V>> S; if (sp == 1) S = makeScalarProduct<V>(stackobject_to_shared_ptr<const CommT<G>>(*C), cat); if (sp == 2) S = createScalarProduct<V>(*C, cat); if (sp == 3) S = std::make_shared<ParallelScalarProduct<V, CommT<G>>>(*C, cat); if (S) c.check(S->category() == cat, "scalar-product-category");
      if (op == 6) { K r; if (S) r = S->dot(v[s], v[t]); else C->dot(v[s], v[t], r); c.check(r == dot, "dot", str(nm, " ", r, " instead of ", dot)); } else { double r = S ? S->norm(v[s]) : C->norm(v[s]); c.check(std::abs(r - std::sqrt(n2)) <= 1e-5 * (1 + r) && (sizeof(K) == 4 || std::abs(r - std::sqrt(n2)) <= 1e-13 * (1 + r)), "norm", str(nm, " ", r, " instead of ", std::sqrt(n2))); double lo, hi; MPI_Allreduce(&r, &lo, 1, MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD); MPI_Allreduce(&r, &hi, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD); c.check(lo == hi, "norm-differs-between-processes", str(lo, " ", hi)); } break; }
    case 8: { w = "lookup"; if (g.coin()) C->buildGlobalLookup(); else C->buildGlobalLookup(d.n[c.rank] + g.range(0, 2)); auto& L = C->globalLookup(); for (auto& x : d.e[c.rank]) { auto* p = L.pair(x.loc); c.check(p && p->global() == G(x.g) && p->local().attribute() == Attr::AttributeSet(x.attr), "global-lookup", str(x.g)); c.check(L[G(x.g)].local().local() == x.loc, "lookup", str(x.g)); } if (g.coin()) C->freeGlobalLookup(); break; } }
    ops += w + " "; bool big = false; for (auto& a : m) for (auto& b : a) for (auto& x : b) big |= dabs1(x) > 1e5; for (int k = 0; k < 3; ++k) { auto h = flatten<K>(v[k]); if (!c.check(h == m[k][c.rank], w, str(nm, " ", ops, ": vector ", k, (k == t ? " (destination) " : " "), show(h, 40), " instead of ", show(m[k][c.rank], 40)))) return; }
    if (big) for (int k = 0; k < 3; ++k) { for (int p = 0; p < P; ++p) m[k][p] = randVec<K>(g, d.n[p] * bs); ref::assign(v[k], m[k][c.rank]); } }
  if (!d.who.empty()) c.sig(str(nm, how(way), d.show(), ops));
}
using Cd = std::complex<double>;
template<class G> static void any(mp::Case& c) { switch (c.rng.range(0, 6)) { case 0: history<FieldVector<double, 1>, G>(c, "1"); break; case 1: history<FieldVector<double, 3>, G>(c, "3"); break; case 2: history<double, G>(c, "double"); break; case 3: history<Cd, G>(c, "complex"); break; case 4: history<FieldVector<Cd, 2>, G>(c, "complex2"); break; case 5: history<FieldVector<float, 2>, G>(c, "float2"); break; default: history<FieldVector<double, 2>, G>(c, "2"); } }
MGROUP("int-indices", 700, 20000) { any<int>(c); }
MGROUP("long-indices", 350, 10000) { any<long>(c); }
MGROUP("sequence-of-objects", 100, 3000) { // several communications alive at once, destroyed in any order, on subgroups too
  auto& g = c.rng; int P = c.size; size_t n = g.range(2, 4); std::vector<Dec> d; std::vector<std::unique_ptr<CommT<int>>> C; int color = g.coin() ? 0 : c.rank % 2; MPI_Comm sub; MPI_Comm_split(MPI_COMM_WORLD, color, c.rank, &sub); int sr, ss; MPI_Comm_rank(sub, &sr); MPI_Comm_size(sub, &ss); vh::Rng gl(vh::mix(g.next() + color)); c.note(str("subgroup ", sr, "/", ss));
  for (size_t i = 0; i < n; ++i) { d.push_back(dec::random(gl, ss)); C.push_back(std::make_unique<CommT<int>>(sub)); fillIndexSet(*C[i], d[i], sr); C[i]->remoteIndices().rebuild<false>(); } std::string log = str(color, ":"); (void)P;
  while (!C.empty()) { size_t k = gl.range(0, C.size() - 1); if (gl.coin(0.3)) { C.erase(C.begin() + k); d.erase(d.begin() + k); log += "d"; continue; } log += "x"; auto& D = d[k]; std::vector<std::vector<double>> m(ss); for (int p = 0; p < ss; ++p) m[p] = randVec<double>(gl, D.n[p]); BlockVector<double> v(D.n[sr]); ref::assign(v, m[sr]); auto want = m[sr]; for (auto& x : D.e[sr]) if (x.pub) for (auto& w : D.who[x.g]) if (w.first != sr && D.e[w.first][w.second].attr == Owner) want[x.loc] = m[w.first][D.e[w.first][w.second].loc]; C[k]->copyOwnerToAll(v, v); c.check(flatten<double>(v) == want, "copyOwnerToAll", str(log, " ", D.show(), " ", show(flatten<double>(v), 30), " instead of ", show(want, 30))); }
  MPI_Comm_free(&sub); c.sig(str(log, c.index));
}
MGROUP("inconsistent-index-info", 30, 200) { // a remote index that is not a local one is reported
  auto& g = c.rng; Dec d = dec::random(g, c.size, false, false); IndexInfoFromGrid<int, int> info; for (auto& x : d.e[c.rank]) info.addLocalIndex({int(x.g), int(x.loc), x.attr}); int bad = g.coin() ? 100000 : -100000; info.addRemoteIndex({c.rank ? 0 : 1, bad, Owner}); c.note(str(d.show(), " + ", bad)); c.sig(str(bad, d.show())); bool thrown = false; try { CommT<int> C(info, MPI_COMM_WORLD); } catch (const Dune::ISTLError&) { thrown = true; } c.check(thrown, "not-reported");
  bool t2 = false; try { info.addLocalIndex({1, 1, 7}); } catch (const Dune::ISTLError&) { t2 = true; } c.check(t2, "attribute-not-reported"); info.clear(); c.check(info.localIndices().empty() && info.remoteIndices().empty(), "clear");
}
